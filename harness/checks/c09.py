"""C09: checking a file always yields a verdict, never an exception"""
import copy
import io
import json
import pyexpat
import re
import zipfile
from xml.etree import ElementTree as ET

import aasx
import damage
import lex
import meta
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file
from aas_test_engines.result import AasTestResult

CLASSES = [meta.SUT_NAME.get(c, c) for c in meta.CLASSES]


def verdict(fn, *args, **kw):
    r = sut(fn, *args, **kw)
    if not isinstance(r, AasTestResult):
        raise Violation(f"{fn.__name__} returned {r!r} instead of a result")
    sut(r.ok)
    return r


# ------------------------------------------------------------------ arbitrary JSON values

KEYS = sorted({n for a in meta.ATTRS.values() for n in a} | {"modelType", "x", "", "__class__", "self"})
LITERALS = sorted({l for e in meta.ENUMS.values() for l in e} | set(meta.CLASSES) | set(meta.ABSTRACT))
SCALARS = [None, True, False, 0, -1, 1.5, 1e308, float("nan"), float("inf"), 10**30, 10**5000, "", "x", "\ud800", "\x00", "en", "xs:int", "1", "a" * 2100]


def scalar(src):
    k = src.draw(3)
    if k == 0:
        return src.pick(SCALARS)
    if k == 1:
        return src.pick(LITERALS)
    return lex.gen_text(src, 0, 8)


def any_value(src, depth):
    if depth <= 0:
        return scalar(src)
    k = src.draw(3)
    if k <= 1:
        return {src.pick(KEYS): any_value(src, depth - 1) for _ in range(src.size(0, 6, 0.7))}
    if k == 2:
        return [any_value(src, depth - 1) for _ in range(src.size(0, 3))]
    return scalar(src)


def typed_value(src, cls, depth):
    """like an object of the class, but every part may be anything"""
    if src.bool(0.08):
        return any_value(src, 1)
    out = {}
    if cls in meta.MODEL_TYPED and not src.bool(0.05):
        out["modelType"] = cls if not src.bool(0.05) else scalar(src)
    for name, typ, required in meta.CLASSES[cls]:
        if not (src.bool(0.92) if required else src.bool(0.35)):
            continue
        if src.bool(0.05):
            out[name] = any_value(src, 1)
        elif typ[0] == "str":
            out[name] = lex.gen_rule_near(src, typ[1]) if src.bool(0.3) else lex.gen_rule(src, typ[1])
        elif typ[0] == "typed":
            out[name] = lex.gen_near(src, src.pick(lex.XSD_TYPES))
        elif typ[0] == "enum":
            out[name] = src.pick(meta.ENUMS[typ[1]]) if src.bool(0.9) else scalar(src)
        elif typ[0] == "bool":
            out[name] = src.bool()
        elif depth <= 0 and not required:
            continue
        else:
            c = src.pick(meta.concrete(typ[1]))
            if typ[0] == "obj":
                out[name] = typed_value(src, c, depth - 1)
            else:
                out[name] = [typed_value(src, src.pick(meta.concrete(typ[1])), depth - 1) for _ in range(src.size(1, 3, 0.3))]
    return out


def json_values(src, index):
    cls = CLASSES[index % len(CLASSES)]
    own = list(meta.CLASSES)[index % len(CLASSES)]
    k = src.draw(3)
    if k == 0:
        v = any_value(src, src.int(0, 4))
    elif k == 1:
        v = typed_value(src, own, src.int(0, 3))
    else:
        # an environment with many damages
        v = meta.gen_env(src, target=own, budget=15)[0]
        for _ in range(src.int(1, 5)):
            spots = [(p, o) for p, _, o in walk_any(v)]
            p, o = src.pick(spots)
            if not o:
                continue
            key = src.pick(sorted(o)) if isinstance(o, dict) else src.draw(len(o) - 1)
            w = src.draw(2)
            if w == 0:
                o[key] = any_value(src, 1)
            elif w == 1:
                del o[key]
            elif isinstance(o, dict):
                o[src.pick(KEYS)] = copy.deepcopy(o[key])
            else:
                o.append(copy.deepcopy(o[key]))
        cls = "Environment"
    # at the public level any value may also come without a model type
    r = verdict(file.check_json_data, v, model_type=cls) if src.bool(0.7) else verdict(file.check_json_data, v)
    return Case(rep(v), True, ["ok" if r.ok() else "not ok"], rep(v)[:300])


def rep(v):
    try:
        return json.dumps(v, sort_keys=True)
    except ValueError:
        return "huge number"


def walk_any(v, path=()):
    if isinstance(v, dict):
        yield path, "d", v
        for k, x in v.items():
            yield from walk_any(x, path + (k,))
    elif isinstance(v, list):
        yield path, "l", v
        for i, x in enumerate(v):
            yield from walk_any(x, path + (i,))


# ------------------------------------------------------------------ bytes


def mutate_bytes(src, data, tokens):
    data = bytearray(data)
    for _ in range(src.size(1, 8, 0.5)):
        k = src.draw(6)
        n = len(data)
        i = src.draw(n) if n else 0
        if k == 0 and n:
            data[min(i, n - 1)] = src.draw(255)
        elif k == 1 and n:
            j = min(n, i + src.size(1, 40, 0.8))
            del data[i:j]
        elif k == 2:
            data[i:i] = src.pick(tokens)
        elif k == 3:
            del data[i:]
        elif k == 4 and n:
            j = min(n, i + src.size(1, 60, 0.9))
            data[src.draw(n) : 0] = data[i:j]
        elif k == 5 and n:
            data[min(i, n - 1)] ^= 1 << src.draw(7)
        else:
            data[i:i] = bytes(src.draw(255) for _ in range(src.size(1, 6)))
    return bytes(data)


JSON_TOKENS = [b"{", b"}", b"[", b"]", b":", b",", b'"', b"\\", b"null", b"true", b"NaN", b"-Infinity", b"1e999", b"9" * 4400, b"\\u0000", b"\\ud800", b"//", b"'", b"\xff", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\x00", b'"modelType"', b'{"a":1,"a":2}', b"0x1", b"1.", b".5", b"+1", b"01", b"\\x", b"[" * 3000]


class Strict:
    """recogniser of RFC 8259"""

    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t\r\n":
            self.i += 1

    def fail(self):
        raise ValueError()

    def doc(self):
        self.ws()
        self.value(0)
        self.ws()
        if self.i != len(self.s):
            self.fail()

    def value(self, depth):
        if depth > 200:
            raise Discard()
        c = self.s[self.i : self.i + 1]
        if c == "{":
            self.i += 1
            self.ws()
            if self.peek("}"):
                return
            while True:
                self.ws()
                self.string()
                self.ws()
                if not self.peek(":"):
                    self.fail()
                self.ws()
                self.value(depth + 1)
                self.ws()
                if self.peek("}"):
                    return
                if not self.peek(","):
                    self.fail()
        elif c == "[":
            self.i += 1
            self.ws()
            if self.peek("]"):
                return
            while True:
                self.ws()
                self.value(depth + 1)
                self.ws()
                if self.peek("]"):
                    return
                if not self.peek(","):
                    self.fail()
        elif c == '"':
            self.string()
        elif c and c in "-0123456789":
            self.peek("-")
            if not self.peek("0"):
                if not self.digits():
                    self.fail()
            if self.peek("."):
                if not self.digits():
                    self.fail()
            if self.peek("e") or self.peek("E"):
                if not self.peek("+"):
                    self.peek("-")
                if not self.digits():
                    self.fail()
        else:
            for t in ("true", "false", "null"):
                if self.s.startswith(t, self.i):
                    self.i += len(t)
                    return
            self.fail()

    def digits(self):
        n = self.i
        while self.i < len(self.s) and self.s[self.i] in "0123456789":
            self.i += 1
        return self.i > n

    def peek(self, c):
        if self.s.startswith(c, self.i):
            self.i += 1
            return True
        return False

    def string(self):
        if not self.peek('"'):
            self.fail()
        while True:
            c = self.s[self.i : self.i + 1]
            if not c or c < " ":
                self.fail()
            self.i += 1
            if c == '"':
                return
            if c == "\\":
                e = self.s[self.i : self.i + 1]
                self.i += 1
                if e == "u":
                    h = self.s[self.i : self.i + 4]
                    if len(h) != 4 or not lex.all_in(h, lex.HEX):
                        self.fail()
                    self.i += 4
                elif not e or e not in '"\\/bfnrt':
                    self.fail()


def well_formed_json(data):
    for enc in ("utf-8-sig", "utf-16", "utf-32", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be"):
        try:
            Strict(data.decode(enc)).doc()
            return True
        except ValueError:
            pass
    return False


NO_JSON = ["NaN", "Infinity", "-Infinity", "undefined", "None", "True", "'x'", "x", "01", "1.", ".5", "+1", "0x1", "1_0", "", '"x', 'x"', '"a\tb"', '"\\x41"', '"\\u12"', '"\\\'"', "`x`", "\u201cx\u201d", '"a" "b"', '"a" + "b"', "/x/", "(1)", "[1,]", "{,}", '"\n"', "nul", "tru", "-", "1e", "1e+"]


def json_bytes(src, index):
    k = src.draw(5)
    if k == 0:
        data = bytes(src.draw(255) for _ in range(src.size(0, 60, 0.95)))
    else:
        env = meta.gen_env(src, target=src.pick(list(meta.CLASSES)), budget=src.pick([0, 5]))[0]
        text = json.dumps(env, ensure_ascii=src.bool(), indent=src.pick([None, 1]))
        data = text.encode(src.pick(["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-32", "utf-16-le", "latin-1"]), "backslashreplace")
        if k > 2 and src.bool(0.25):
            # a value (or name) in place of a text which is none in JSON
            texts = sorted({m.group() for m in re.finditer(r'"[^"\\\\]*"', text)})
            if texts:
                at = src.pick([m.span() for m in re.finditer(re.escape(src.pick(texts)), text)])
                text = text[: at[0]] + src.pick(NO_JSON) + text[at[1] :]
            data = text.encode(errors="backslashreplace")
        elif k > 2:
            data = mutate_bytes(src, data, JSON_TOKENS)
        elif k == 2:
            pad = src.pick([b"\x00", b"\x0c", b"\xc2\xa0", b" ", b"\n", b"\x1a", b"\xef\xbb\xbf", b";", b",", b"}", b"]", b"0", b"{}", b"//", b"/**/"]) * src.pick([1, 1, 2, 8])
            data = pad + data if src.bool(0.3) else data + pad
    r = verdict(file.check_json_file, io.BytesIO(data))
    wf = well_formed_json(data)
    if r.ok() and not wf:
        raise Violation("JSON that is not well-formed is compliant", repr(data[:3000]))
    return Case(data, len(data) > 0, ["well-formed" if wf else "not well-formed", "ok" if r.ok() else "not ok"], repr(data[:200]))


DIALECTS = ["line comment", "hash comment", "block comment", "single quotes", "bare names", "trailing comma", "no comma", "double comma", "equals", "python", "backslash newline", "hex escape", "raw control", "plus", "wrapped"]
WRAPPED = [(")]}'\n", ""), ("callback(", ")"), ("```json\n", "\n```"), ("while(1);", ""), ("var x = ", ";"), ("---\n", ""), ("", "\n...\n"), ("(", ")"), ("data: ", "\n\n"), ("{}\n", ""), ("", "\n{}"), ("// x\n", ""), ("#!json\n", ""), ("\ufeff\ufeff", ""), ("", "\x04"), ("[", ""), ("<!-- x -->", ""), ("for(;;);", "")]


def dialects(src, index):
    """JSON as some programs understand it, but which is none; XML with entities of HTML"""
    env = meta.gen_env(src, target=src.pick(list(meta.CLASSES)), budget=src.pick([0, 5]))[0]
    if index % 4 == 3:
        text = xmlr.serialize(src, xmlr.env_to_tree(env))
        spots = [m.start() + 1 for m in re.finditer(r">(?=[^<\s])", text)]
        if not spots:
            raise Discard()
        i = src.pick(spots)
        entity = src.pick(["&nbsp;", "&copy;", "&eacute;", "&euro;", "&hellip;", "&AMP;", "&amp", "& ", "&&amp;", "&#x;", "&#;", "&#12a;", "&#X41;", "&#1114112;", "&lt", "]]>", "\x01", "\x1f", "\ufffe", "%20&"])
        text = text[:i] + entity + text[i:]
        r = verdict(file.check_xml_file, io.StringIO(text) if src.bool() else io.BytesIO(text.encode()))
        if r.ok() and not expat_accepts(text):
            raise Violation("XML that is not well-formed is compliant", text)
        return Case(text, True, ["xml", entity], entity)
    d = DIALECTS[(index - index // 4) % len(DIALECTS)]
    count = [0]
    pos = src.draw(12)  # at every such place, or only at this one

    def here():
        count[0] += 1
        return pos == 0 or count[0] == pos

    def string(t, name=False):
        out = json.dumps(t, ensure_ascii=src.bool(0.3))
        if d == "single quotes" and '"' not in t and "'" not in t and "\\" not in out and here():
            return "'" + t + "'"
        if d == "bare names" and name and t.isalnum() and here():
            return t
        if d == "python" and "\\" not in out and here():
            return src.pick(["u", "b", "r"]) + out
        if d == "backslash newline" and len(out) > 2 and here():
            return out[:-1] + '\\\n"'
        if d == "hex escape" and here():
            return out[:-1] + src.pick(["\\x41", "\\'", "\\u41", "\\0", "\\a", "\\U00000041"]) + '"'
        if d == "raw control" and not name and here():
            return out[:-1] + src.pick(["\n", "\t", "\r\n"]) + '"'
        if d == "plus" and len(t) > 2 and "\\" not in out and here():
            return out[:2] + src.pick(['" + "', '" "', '"\n"', '""']) + out[2:]
        return out

    def glue(t):
        if d == "line comment" and here():
            return t + src.pick([" // x\n", "\n// x\n", "//\n"])
        if d == "hash comment" and here():
            return t + src.pick([" # x\n", "\n#\n"])
        if d == "block comment" and here():
            return t + src.pick(["/* x */", "/**/", " <!-- x -->"])
        return t

    def items(l, end):
        sep = ","
        out = ""
        for i, x in enumerate(l):
            if i:
                out += ({"no comma": "\n", "double comma": ",,"}.get(d) or ",") if here() else ","
            out += glue(x)
        if d == "trailing comma" and l and here():
            out += ","
        return glue(out) + end

    def render(v):
        if isinstance(v, dict):
            return "{" + items([string(k, True) + (src.pick([" = ", " => ", " "]) if d == "equals" and here() else ": ") + render(x) for k, x in v.items()], "}")
        if isinstance(v, list):
            return "[" + items([render(x) for x in v], "]")
        if isinstance(v, str):
            return string(v)
        if d == "python" and isinstance(v, bool) and here():
            return repr(v)
        return json.dumps(v)

    text = render(env)
    if d == "wrapped":
        a, b = src.pick(WRAPPED)
        text = a + text + b
    r = verdict(file.check_json_file, io.StringIO(text) if src.bool() else io.BytesIO(text.encode(errors="surrogatepass")))
    wf = well_formed_json(text.encode(errors="surrogatepass"))
    if r.ok() and not wf:
        raise Violation(f"JSON that is not well-formed ({d}) is compliant", text)
    return Case(text, not wf, [d, "well-formed" if wf else "not well-formed"], text[:200])


XML_TOKENS = [b"<", b">", b"/", b"&", b"&#0;", b"&#xD800;", b"&foo;", b"]]>", b"<![CDATA[x]]>", b"<!-- -- -->", b"<?xml version='1.0'?>", b"<?x?>", b"<a>", b"</a>", b"<a/>", b'xmlns:a="b"', b"\x00", b"\xff", b"\xef\xbb\xbf", b'<!DOCTYPE a [<!ENTITY e "x">]>', b"&e;", b"aas:", b" xmlns=''", b'<?xml version="1.0" encoding="foo"?>', b'<?xml version="1.0" encoding="shift_jis"?>', b'encoding="utf-16"', b"\x0b"]
# unknown encodings, multi-byte ones which expat refuses, codecs which are not for text, incompatible ones
ENCODINGS = ["foo", "shift_jis", "gb2312", "utf-7", "utf-32", "utf-16", "base64_codec", "hex", "rot13", "cp037", "idna", "undefined", "us-ascii", "iso-8859-1", "windows-1252", "mbcs", "x" * 300]


def declared(src, content=b"<a/>"):
    return b'<?xml version="1.0" encoding="' + src.pick(ENCODINGS).encode() + b'"?>' + content


def random_tree(src, depth):
    names = ["environment", "submodels", "submodel", "id", "property", "value", "keys", "key", "type", "semanticId", "submodelElements", "x", "dataSpecificationContent", "levelType", "min", "operationVariable", "langStringTextType"]
    k = src.draw(11)
    if k == 0:
        return ET.Comment(src.pick(["", "x", " a "]))
    if k == 1:
        return ET.ProcessingInstruction("t", "x")
    ns = "{%s}" % src.pick([xmlr.NS] * 8 + ["urn:x", ""])
    e = ET.Element((ns if ns != "{}" else "") + src.pick(names + KEYS[1:]))
    e.text = src.pick([None, None, "", "x", " ", "1", "Submodel", "en", "\x00", "true"])
    e.tail = src.pick([None, None, None, "x", "\n"])
    if src.bool(0.2):
        e.set(src.pick(["a", "{urn:x}b"]), "v")
    if depth > 0:
        for _ in range(src.size(0, 4, 0.6)):
            e.append(random_tree(src, depth - 1))
    return e


def xml_trees(src, index):
    cls = CLASSES[index % len(CLASSES)]
    if src.bool(0.4):
        t = random_tree(src, src.int(0, 5))
        if not isinstance(t.tag, str):
            raise Discard()  # the root of a document is an element
    else:
        env = meta.gen_env(src, target=list(meta.CLASSES)[index % len(CLASSES)], budget=10)[0]
        t = xmlr.env_to_tree(env)
        for _ in range(src.int(1, 4)):
            spots = list(t.iter())
            e = src.pick(spots)
            w = src.draw(6)
            if w == 0 and len(e):
                e.remove(e[src.draw(len(e) - 1)])
            elif w == 1:
                e.insert(src.draw(len(e)), random_tree(src, 1))
            elif w == 2 and len(e):
                e.append(copy.deepcopy(e[0]))
            elif w == 3 and isinstance(e.tag, str):
                e.tag = src.pick([xmlr.Q + src.pick(KEYS[1:]), "x", "{urn:x}y", xmlr.Q, "{}a", ""])
            elif w == 4:
                e.text = src.pick([None, "", "x", "\n", "\ud800", "0"])
            elif w == 5 and len(e):
                e[0].tail = "x"
            else:
                for c in list(e):
                    e.remove(c)
        cls = "Environment"
    r = verdict(file.check_xml_data, t, model_type=cls)
    return Case(repr([(x.tag if isinstance(x.tag, str) else "#", x.text, x.tail) for x in t.iter()]), True, ["ok" if r.ok() else "not ok"])


def expat_accepts(data):
    parser = pyexpat.ParserCreate()
    try:
        parser.Parse(data, True)
    except (pyexpat.ExpatError, ValueError, LookupError):
        return False
    return True


def xml_bytes(src, index):
    k = src.draw(5)
    broken = False
    if k == 0:
        data = bytes(src.draw(255) for _ in range(src.size(0, 60, 0.95)))
        broken = not data.lstrip().startswith((b"<", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf", b"\x00", b"\x3c"))
    else:
        env = meta.gen_env(src, target=src.pick(list(meta.CLASSES)), budget=src.pick([0, 5]))[0]
        text = xmlr.serialize(src, xmlr.env_to_tree(env))
        enc = src.pick(["utf-8", "utf-8", "utf-8-sig", "utf-16"])
        if enc == "utf-16":
            text = text.replace('encoding="UTF-8"', 'encoding="UTF-16"')
        data = text.encode(enc)
        if k == 1:
            # certainly not well-formed
            broken = True
            m = src.draw(6)
            if m == 0:
                end = len(data.rstrip())
                data = data[: src.draw(end - 1)]
            elif m == 1:
                data += src.pick([b"<a/>", b"x", b"</environment>", b"&amp;", b"<!DOCTYPE a>", b"<"]) if enc != "utf-16" else "x".encode("utf-16-le")
            else:
                t = text
                tag = src.pick(["&undefined;", "<a>", "</a>", "&#0;", "&#xFFFE;", "<a b=1/>", '<a b="1" b="2"/>', "<a b=\"<\"/>", "\x00", "\x0b", "&", "< a/>", "<!-- -- -->", "<x:y/>", "<?xml version='1.0'?>", "<![CDATA[", "<1/>"])
                i = t.index("<", t.index("environment"))  if "<" in t[t.index("environment") :] else None
                if i is None:
                    raise Discard()
                t = t[:i] + tag + t[i:]
                data = t.encode(enc)
        elif k == 2 and src.bool(0.3):
            # another encoding is declared than used
            if data.startswith(b"<?xml"):
                data = data[data.index(b"?>") + 2 :]
            data = declared(src, data)
        elif k == 2 and src.bool():
            pad = src.pick([b"\x00", b"\x00\x00", b"\x0c", b"\xc2\xa0", b" ", b"\n", b"\x1a", b"\xef\xbb\xbf", b"\xe2\x80\x8b", b";"]) * src.pick([1, 1, 2, 8])
            data = pad + data if src.bool(0.3) else data + pad
        elif k > 2:
            data = mutate_bytes(src, data, XML_TOKENS)
    if src.bool(0.15):
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            raise Discard()
        broken = broken or not expat_accepts(text)
        r = verdict(file.check_xml_file, io.StringIO(text))
    else:
        broken = broken or not expat_accepts(data)
        r = verdict(file.check_xml_file, io.BytesIO(data))
    if broken and r.ok():
        raise Violation("XML that is not well-formed is compliant", repr(data[:3000]))
    return Case(data, len(data) > 0, ["certainly not well-formed" if broken else "any", "ok" if r.ok() else "not ok"], repr(data[:200]))


def deep(src, index):
    """extreme nesting"""
    n = src.pick([50, 150, 200, 250, 330, 500, 900, 1100, 2000, 5000, 20000])
    k = index % 6
    if k == 0:
        data = src.pick([b"[" * n, b"[" * n + b"]" * n, b'{"a":' * n, b'{"a":' * n + b"1" + b"}" * n])
        r = verdict(file.check_json_file, io.BytesIO(data))
        bad = True
    elif k == 1:
        data = b"<a>" * n + src.pick([b"", b"</a>" * n])
        r = verdict(file.check_xml_file, io.BytesIO(data))
        bad = True
    elif k in (2, 3):
        # nested collections: compliant in principle
        n = min(n, 2000)
        e = {"modelType": "Capability", "idShort": "a"}
        if k == 3:
            del e["idShort"]
        for _ in range(n):
            e = {"modelType": "SubmodelElementCollection", "idShort": "a", "value": [e]}
        v = {"submodels": [{"modelType": "Submodel", "id": "x", "submodelElements": [e]}]}
        r = verdict(file.check_json_data, v)
        bad = k == 3
        data = (k, n)
    elif k == 4:
        n = min(n, 5000)
        ref = {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "x"}]}
        v = ref
        for _ in range(n):
            v = dict(ref, referredSemanticId=v)
        r = verdict(file.check_json_data, {"submodels": [{"modelType": "Submodel", "id": "x", "semanticId": v}]})
        bad = False
        data = (k, n)
    else:
        q = xmlr.Q
        root = t = ET.Element(q + "environment")
        t = ET.SubElement(t, q + "submodels")
        t = ET.SubElement(t, q + "submodel")
        ET.SubElement(t, q + "id").text = "x"
        t = ET.SubElement(t, q + "submodelElements")
        for _ in range(min(n, 2000)):
            t = ET.SubElement(t, q + "submodelElementCollection")
            ET.SubElement(t, q + "idShort").text = "a"
            t = ET.SubElement(t, q + "value")
        r = verdict(file.check_xml_data, root)
        bad = True
        data = (k, n)
    if bad and r.ok():
        raise Violation(f"deeply nested ({n}) broken content is compliant", str(data)[:200])
    return Case((k, n, data), True, [f"depth {n}"])


def needed(pkg):
    """names of the parts which have to be read to judge the package"""
    out = ["[Content_Types].xml"]
    seen, todo = set(), [""]
    while todo:
        part = todo.pop()
        if part in seen:
            continue
        seen.add(part)
        rels = pkg.rels.get(part)
        if rels is None:
            continue
        out.append(aasx.rels_name(part))
        if isinstance(rels, bytes):
            continue
        todo += [n for n in (aasx.resolve(part, t) for _, t in rels) if n in pkg.parts]

    def of_type(part, typ):
        rels = pkg.rels.get(part, [])
        return [] if isinstance(rels, bytes) else [aasx.resolve(part, t) for y, t in rels if y.replace(aasx.OLD, aasx.NEW) == typ]

    for o in of_type("", aasx.ORIGIN):
        out += [s for s in of_type(o, aasx.SPEC) if s in pkg.parts and s.endswith((".json", ".xml"))]
    return out


def unreadable(pkg, before, after):
    """whether a part that has to be read cannot be read any more while everything else is as it was"""
    lost = False
    try:
        with zipfile.ZipFile(io.BytesIO(before)) as a, zipfile.ZipFile(io.BytesIO(after)) as b:
            for n in needed(pkg):
                try:
                    want = a.read(n)
                except KeyError:
                    return False
                try:
                    got = b.read(n)
                except KeyError:
                    return False
                except Exception:
                    lost = True
                    continue
                if got != want:
                    return False
    except Exception:
        return False
    return lost


def zip_parts(src, index):
    """one part of a package is damaged: its data, its checksum, its method, its flags, its size"""
    pkg = aasx.gen_package(src, lambda ext, data: 0)
    before = pkg.zip(src)
    d = bytearray(before)
    with zipfile.ZipFile(io.BytesIO(before)) as z:
        entries = {i.filename: i for i in z.infolist()}
    for _ in range(src.size(1, 2, 0.2)):
        names = [n for n in needed(pkg) if n in entries] if src.bool(0.85) else sorted(entries)
        if not names:
            raise Discard()
        e = entries[src.pick(names)]
        at = e.header_offset
        name, extra = int.from_bytes(d[at + 26 : at + 28], "little"), int.from_bytes(d[at + 28 : at + 30], "little")
        start = at + 30 + name + extra
        spots = [i for i in range(len(d)) if d[i : i + 4] == b"PK\x01\x02" and bytes(d[i + 46 : i + 46 + int.from_bytes(d[i + 28 : i + 30], "little")]) == bytes(d[at + 30 : at + 30 + name])]
        central = spots[-1] if spots else None
        k = src.draw(6)
        if k <= 2 and e.compress_size:
            i = start + src.draw(e.compress_size - 1)
            d[i] ^= src.pick([1, 128, 255, 16])
        elif k == 3 and central is not None:
            d[central + 16 + src.draw(3)] ^= src.pick([1, 128, 255])
        elif k == 4 and central is not None:
            m = src.pick([1, 8, 12, 14, 9, 93, 97, 99, 255])
            d[central + 10] = m
            d[at + 8] = m
        elif k == 5 and central is not None:
            f = src.pick([1, 0x20, 0x40, 1 | 0x40])
            d[central + 8] |= f
            d[at + 6] |= f
        elif central is not None:
            d[central + src.pick([20, 24, 42])] ^= src.pick([1, 2, 4, 128])
    after = bytes(d)
    lost = unreadable(pkg, before, after)
    r = verdict(file.check_aasx_file, io.BytesIO(after))
    if lost and r.ok():
        raise Violation("a package with an unreadable part is compliant", {"parts": sorted(entries), "needed": needed(pkg)})
    return Case(after, lost, ["unreadable part" if lost else "any", "ok" if r.ok() else "not ok"])


def zip_bytes(src, index):
    k = src.draw(7)
    broken = False
    pkg = aasx.gen_package(src, lambda ext, data: 0)
    before = data = pkg.zip(src)
    if k == 0:
        data = bytes(src.draw(255) for _ in range(src.size(0, 60, 0.95)))
        broken = b"PK\x05\x06" not in data
    elif k == 1:
        end = data.rfind(b"PK\x05\x06")
        data = data[: src.draw(end)]
        broken = b"PK\x05\x06" not in data
    elif k <= 4:
        data = mutate_bytes(src, data, [b"PK\x03\x04", b"PK\x01\x02", b"PK\x05\x06", b"\x00" * 4, b"\xff" * 4, b"PK\x06\x06"])
    elif k <= 6:
        # damage in the headers: flags, compression method, sizes, offsets, checksums, names
        d = bytearray(data)
        for _ in range(src.int(1, 3)):
            sig = src.pick([b"PK\x03\x04", b"PK\x01\x02", b"PK\x05\x06"])
            spots = [i for i in range(len(d)) if d[i : i + 4] == sig]
            if spots:
                at = src.pick(spots) + src.int(4, {b"PK\x03\x04": 29, b"PK\x01\x02": 45, b"PK\x05\x06": 21}[sig])
                if at < len(d):
                    d[at] = src.pick([0, 1, 8, 12, 14, 99, 255, 9, 4])
        data = bytes(d)
    r = verdict(file.check_aasx_file, io.BytesIO(data))
    if broken and r.ok():
        raise Violation("something that is no ZIP archive is compliant", repr(data[:500]))
    if k > 1 and r.ok() and unreadable(pkg, before, data):
        raise Violation("a package with an unreadable part is compliant", repr(data[:500]))
    if k == 7:
        # the content given to the wrong check
        for fn in (file.check_json_file, file.check_xml_file):
            if verdict(fn, io.BytesIO(data)).ok():
                raise Violation(f"a ZIP archive passes {fn.__name__}")
    return Case(data, len(data) > 0, ["no zip" if broken else "any", "ok" if r.ok() else "not ok"])


HOSTS = [("Property", "value"), ("Range", "min"), ("Range", "max"), ("Qualifier", "value"), ("Extension", "value")]
LONG = [(h, t) for h in HOSTS for t in lex.XSD_TYPES] + [((cls, attr), None) for cls, attrs in meta.CLASSES.items() for attr, typ, _ in attrs if typ[0] == "str"]


def long(src, index):
    """very long typed values and restricted strings, most of them spoiled: ambiguous patterns would take forever"""
    (cls, attr), t = LONG[index % len(LONG)]
    g = meta.Gen(src, budget=0, density=0.0)
    env = g.obj("Environment", (), meta.plan_to(src, cls, 0) + [(attr, None)])
    o = meta.get(env, g.focus)
    if t:
        for k in ("value", "min", "max"):
            o.pop(k, None)
        o["valueType"] = t
        s = lex.gen_xsd(src, t)
    else:
        s = lex.gen_rule(src, next(typ[1] for a, typ, _ in meta.CLASSES[cls] if a == attr))
    o[attr] = s = lex.spoil(src, s)
    if src.bool(0.3) and lex.xml_string(s):
        verdict(file.check_xml_data, xmlr.env_to_tree(env))
        form = "XML"
    else:
        verdict(file.check_json_data, env)
        form = "JSON"
    return Case((cls, attr, t, s, form), len(s) > 20, [form, t or "restricted string"], {"attribute": f"{cls}.{attr}", "type": t, "value": s[:60], "length": len(s)})


def spec_bytes(src, index):
    """arbitrary content in a valid package: specs, relationships, content types"""
    pkg = aasx.gen_package(src, lambda ext, data: 0)
    files = pkg.files(src)
    for _ in range(src.int(1, 3)):
        n = src.pick(sorted(files))
        w = src.draw(9)
        if w < 5:
            files[n] = mutate_bytes(src, files[n], XML_TOKENS + JSON_TOKENS)
        elif w == 5:
            files[n] = declared(src, files[n] if not files[n].startswith(b"<?xml") else files[n][files[n].index(b"?>") + 2 :] if b"?>" in files[n] else b"")
        else:
            files[n] = src.pick([b"", b"\x00", b"[" * 3000, b"<a>" * 3000, b"\xff\xfe<\x00", b"null", b"1", declared(src), b'"\\ud800"', b"9" * 5000, b"NaN"])
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n, c in files.items():
            z.writestr(zipfile.ZipInfo(n), c)
    r = verdict(file.check_aasx_file, b)
    return Case(b.getvalue()[:2000], True, ["ok" if r.ok() else "not ok"])


CHECK = Check(
    "C09",
    [
        Group("json-values", json_values, 18000, 300000),
        Group("json-bytes", json_bytes, 12000, 200000),
        Group("xml-trees", xml_trees, 12000, 200000),
        Group("dialects", dialects, 6000, 150000),
        Group("xml-bytes", xml_bytes, 12000, 200000),
        Group("deep", deep, 400, 3000),
        Group("zip-bytes", zip_bytes, 10000, 150000),
        Group("zip-parts", zip_parts, 5000, 80000),
        Group("long", long, 3000, 60000),
        Group("packages", spec_bytes, 5000, 80000),
    ],
    rule="random, mutated and type-confused JSON values, XML trees and bytes of JSON, XML and AASX files, deep nesting, damaged archives; a case holds if the check returns a result within the CPU limit and certainly not well-formed content is not compliant (JSON: strict RFC 8259 recogniser; XML: expat, ZIP: breaking by construction); distinct by input",
)
