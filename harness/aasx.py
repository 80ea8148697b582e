"""AASX packages: a model (parts and relationships), its rendering as ZIP and a judge"""

import io
import json
import posixpath
import unicodedata
import zipfile
from xml.sax.saxutils import quoteattr

import meta
import xmlr

CT_NS = "http://schemas.openxmlformats.org/package/2006/content-types"
REL_NS = "http://schemas.openxmlformats.org/package/2006/relationships"
NEW = "http://admin-shell.io/aasx/relationships/"
OLD = "http://www.admin-shell.io/aasx/relationships/"
ORIGIN, SPEC, SUPPL = NEW + "aasx-origin", NEW + "aas-spec", NEW + "aas-suppl"
THUMB = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
OTHERS = [SUPPL, THUMB, "http://x/y", NEW + "aas-spec-split", NEW + "AASX-Origin", "aas-spec", NEW + "aas-suppl/"]
DIRS = ["", "aasx/", "aasx/xml/", "a/b/c/", "_x/", "dir with space/", "ä/", "a/b/c/d/e/f/g/h/", "x/y/" * 8, "n" * 120 + "/", "aasx.d/", "A/", ".d/", "a/.h/", ".../", "..x/", "a/ b/", "a /b/", "a.../", "cafe\u0301/", "\ufb01/"]


def rels_name(part):
    """name of the relationship part of a part ('' is the package)"""
    d, _, f = part.rpartition("/")
    return (d + "/" if d else "") + "_rels/" + f + ".rels"


def resolve(source, target):
    """name of the part a target means (RFC 3986 style: relative to the directory of the source)"""
    base = "/" + (source.rpartition("/")[0])
    return posixpath.normpath(posixpath.join(base, target)).lstrip("/")


class Package:
    def __init__(self):
        self.parts = {}  # name -> bytes
        self.rels = {}  # source -> [(type, target text)] or bytes (malformed)
        self.broken_rel = {}  # source -> "tag" | "type" | "target": one entry malformed
        self.content_types = ("ok",)
        self.spec_ok = {}  # part -> level of the spec on its own (0..3)

    def judge(self):
        """-> (expected level, reasons)"""
        if self.content_types[0] != "ok":
            return 2, ["content types " + self.content_types[0]]
        if "" not in self.rels:
            return 2, ["no root relationships"]
        why2, why1 = [], []
        seen = set()
        todo = [""]
        while todo:
            part = todo.pop()
            if part in seen:
                continue
            seen.add(part)
            rels = self.rels.get(part)
            if rels is None:
                continue
            if isinstance(rels, bytes):
                why2.append(f"malformed relationships of {part!r}")
                continue
            if part in self.broken_rel:
                why2.append(f"malformed relationship of {part!r}")
            for t, target in rels:
                if t.startswith(OLD) and t[len(OLD) :] in ("aasx-origin", "aas-spec", "aas-suppl"):
                    why1.append("deprecated type")
                name = resolve(part, target)
                if name not in self.parts:
                    why2.append(f"no target {name!r}")
                else:
                    todo.append(name)
        if why2:
            return 2, why2

        def of_type(part, typ):
            return [resolve(part, t) for y, t in self.rels.get(part, []) if y.replace(OLD, NEW) == typ]

        origins = of_type("", ORIGIN)
        if len(origins) != 1:
            why1.append(f"{len(origins)} origins")
        for o in origins:
            specs = of_type(o, SPEC)
            if not specs:
                why1.append("origin without spec")
            for s in specs:
                if s.endswith(".json") or s.endswith(".xml"):
                    l = self.spec_ok[s]
                    if l >= 2:
                        why2.append(f"spec {s} is not compliant")
                    elif l == 1:
                        why1.append(f"spec {s} has warnings")
                else:
                    why1.append("unknown file type")
        if why2:
            return 2, why2
        return (1, why1) if why1 else (0, [])

    def files(self, src):
        out = {}
        if self.content_types[0] != "missing":
            out["[Content_Types].xml"] = self.content_types_bytes(src)
        for part, rels in self.rels.items():
            out[rels_name(part)] = rels if isinstance(rels, bytes) else self.rels_bytes(src, part, rels)
        out.update(self.parts)
        return out

    def content_types_bytes(self, src):
        if len(self.content_types) > 1:
            return self.content_types[1]
        return (f'<?xml version="1.0" encoding="utf-8"?><Types xmlns="{CT_NS}"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/></Types>').encode()

    def rels_bytes(self, src, part, rels):
        p = src.pick(["", "r:"])
        out = [f'<{p}Relationships xmlns{":r" if p else ""}="{REL_NS}">']
        broken = self.broken_rel.get(part)
        at = src.draw(len(rels)) if broken else None
        if broken:
            # pointing to an existing part, so that nothing else is wrong
            known = [n for n in self.parts if n.isascii() and not set(n) & set("%<&\"' ")]
            to = quoteattr("/" + src.pick(known) if known and src.bool(0.8) else "y")
            kind = quoteattr(src.pick([SUPPL, THUMB, "x"]))
            tag = src.pick(["Relation", "relationship", "RELATIONSHIP", "Relationships", "Relationship2", "x", "Override"])
            ns = src.pick(["urn:x", "", CT_NS, REL_NS.upper(), REL_NS + "/", REL_NS.replace("http:", "https:")])
            attr = src.pick(["", ' type="x"', ' TYPE="x"', ' x:Type="x" xmlns:x="urn:x"', f' r:Type="x" xmlns:r="{REL_NS}"'])
            attr2 = src.pick(["", f" target={to}", f" TARGET={to}", f" Href={to}", f' x:Target={to} xmlns:x="urn:x"'])
        for i in range(len(rels) + 1):
            if i == at:
                out.append({
                    "tag": f'<{p}{tag} Id="B" Type={kind} Target={to}/>',
                    "ns": f'<Relationship xmlns="{ns}" Id="B" Type={kind} Target={to}/>' if not p or ns else f'<Relationship Id="B" Type={kind} Target={to}/>',
                    "type": f'<{p}Relationship Id="B" Target={to}{attr}/>',
                    "target": f'<{p}Relationship Id="B" Type={kind}{attr2}/>',
                }[broken])
            if i < len(rels):
                t, target = rels[i]
                attrs = src.shuffle([f"Type={quoteattr(t)}", f"Target={quoteattr(target)}", f'Id="R{i}"'])
                out.append(f'<{p}Relationship {" ".join(attrs)}/>')
                if src.bool(0.1):
                    out.append(src.pick(["<!-- c -->", "\n", "<?p i?>"]))
        out.append(f"</{p}Relationships>")
        text = "".join(out)
        k = src.draw(9)
        if k <= 6:
            return text.encode()
        if k == 7:
            return b"\xef\xbb\xbf" + text.encode()
        if k == 8:
            return ('<?xml version="1.0" encoding="UTF-16" standalone="yes"?>\n' + text).encode("utf-16")
        return ('<?xml version="1.0" encoding="utf-8"?>\n' + text + "\n<!-- end -->\n").encode()

    def zip(self, src):
        files = list(self.files(src).items())
        files = src.shuffle(files) if src.bool() else files
        b = io.BytesIO()
        methods = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA]
        method = methods[src.weighted([(6, 0), (10, 1), (1, 2), (1, 3)])]
        dirs = sorted({n[: i + 1] for n, _ in files for i in range(len(n)) if n[i] == "/"}) if src.bool(0.1) else []
        if src.bool(0.04):
            b.write(b"#!/bin/sh\nexit 0\n")  # an archive may start anywhere
        with zipfile.ZipFile(b, "a" if b.tell() else "w", method) as z:
            for n in dirs:
                z.writestr(zipfile.ZipInfo(n), b"")
            for n, c in files:
                z.writestr(zipfile.ZipInfo(n), c, compress_type=src.pick(methods[:2]) if src.bool(0.05) else method)
            if src.bool(0.05):
                z.comment = b"a comment"
        return b.getvalue()


# ------------------------------------------------------------------ generator


def target_text(src, source, name):
    """one of the ways to point from source to the part name"""
    d = source.rpartition("/")[0]
    k = src.draw(5)
    if k <= 1:
        return "/" + name
    rel = posixpath.relpath("/" + name, "/" + d)
    if k == 2:
        return rel
    if k == 3:
        return "./" + rel
    if k == 4:
        return src.pick(["/x/../" + name, "/./" + name, "/../" + name])
    if d:
        return "x/../" + rel
    return src.pick(["../" + name, name])


def bodies(src):
    """-> (extension, bytes, ok)"""
    import damage

    k = src.draw(9)
    budget = src.pick([0, 4, 15])
    ok = k < 6
    if ok:
        env = meta.Gen(src, budget=budget).obj("Environment", ())
    elif k < 8:
        env = damage.structural_case(src, src.pick(damage.STRUCTURAL), budget=budget)[1]
    elif k == 8:
        env = damage.constraint_case(src, src.pick(damage.CONSTRAINTS), budget=budget)[1]
    else:
        return src.pick(["json", "xml"]), src.pick([b"", b"{", b"<a>", b"\xff\xfe", b"[]", b"null", b"<environment/>", b"\x00" * 40, b'{"foo": 1}']), False
    if src.bool():
        from pbt import Discard

        try:
            text = xmlr.serialize(src, xmlr.env_to_tree(env))
        except Discard:
            return "json", json.dumps(env).encode(), ok
        if not ok or not any(v == [] for v in env.values()):
            return "xml", xmlr.encoded(src, text), ok
    return "json", json.dumps(env, ensure_ascii=src.bool()).encode("utf-8", "surrogatepass"), ok


def new_name(src, pkg, ext):
    stem = src.pick(["data", "a", "aasx-origin", "content.aas", "x y", "ü", "_rels", "d.xml", "env", "x#y", "q?z", "a+b", "a&b", "(1)", "a.b.c", ".hidden", "..a", "a..b", "cafe\u0301", "\u212b", "\ufb01le", "stra\xdfe", "\u0130", "\uac00"])
    d = src.pick(DIRS)
    n = f"{d}{stem}{ext}"
    same = [p for p in pkg.parts if p.endswith(ext)] if src.bool(0.15) else []
    if same:  # a name which only differs in case from that of another part
        p = src.pick(same)
        k = len(p) - len(ext)
        n = p[:k].swapcase() + ext
    i = 0
    while n in pkg.parts or not n or n.endswith("/") or n.startswith("_rels/") or any(p.startswith(n + "/") or n.startswith(p + "/") for p in pkg.parts):
        i += 1
        n = f"{d}{stem}{i}{ext}" if i < 20 else f"p{i}{ext}"
    return n


def gen_package(src, spec_level):
    """spec_level: function(extension, bytes) -> level of the content on its own"""
    pkg = Package()
    old = src.bool(0.15)

    def typ(t):
        if old and t in (ORIGIN, SPEC, SUPPL) and src.bool(0.5):
            return t.replace(NEW, OLD)
        return t

    pkg.rels[""] = []
    n_origins = src.weighted([(12, 1), (1, 0), (3, 2), (1, 3)])
    origins, specs = [], []
    for _ in range(n_origins):
        o = new_name(src, pkg, src.pick(["", ".txt", "-origin"]))
        pkg.parts[o] = b"Intentionally empty."
        origins.append(o)
        pkg.rels[""].append((typ(ORIGIN), target_text(src, "", o)))
        n_specs = src.weighted([(8, 1), (1, 0), (4, 2), (1, 3)])
        if n_specs:
            pkg.rels[o] = []
        for _ in range(n_specs):
            if specs and src.bool(0.2):
                s = src.pick(specs)
                if any(resolve(o, t) == s for _, t in pkg.rels[o]):
                    continue
            else:
                ext, data, ok = bodies(src)
                if src.bool(0.08):
                    ext = src.pick(["txt", "aml", "xmls", "json5", "xml.bak", "yaml"])
                s = new_name(src, pkg, "." + ext)
                pkg.parts[s] = data
                pkg.spec_ok[s] = spec_level(ext, data)
                specs.append(s)
            pkg.rels[o].append((typ(SPEC), target_text(src, o, s)))
        if o in pkg.rels and not pkg.rels[o]:
            del pkg.rels[o]
    # more parts and relationships, also cycles and several ways to the same part
    for _ in range(src.size(0, 6, 0.6)):
        k = src.draw(3)
        sources = [""] + list(pkg.parts)
        source = src.pick(sources)
        if k <= 1:
            n = new_name(src, pkg, src.pick([".bin", ".png", "", ".xml"]))
            pkg.parts[n] = src.pick([b"", b"data", b"<x/>"])
        else:
            n = src.pick(list(pkg.parts) or [None])
            if n is None:
                continue
        t = src.pick(OTHERS + [ORIGIN, SPEC])
        if source == "" and t == ORIGIN:
            t = SPEC
        if t == SPEC and source in origins:
            t = SUPPL
        if k == 0 and src.bool():
            continue  # an unreachable part
        l = pkg.rels.setdefault(source, [])
        if not isinstance(l, bytes):
            l.insert(src.draw(len(l)), (typ(t), target_text(src, source, n)))
    # damage
    if src.bool(0.4):
        k = src.draw(5)
        if k == 0:
            pkg.content_types = src.pick([("missing",), ("malformed", b""), ("malformed", b"<Types"), ("malformed", b"<Types/>"), ("malformed", f'<types xmlns="{CT_NS}"/>'.encode()), ("malformed", b'<Types xmlns="urn:x"/>'), ("malformed", f'<Types xmlns="{CT_NS}">'.encode())])
        elif k == 1:
            del pkg.rels[""]
        elif k == 2:
            source = src.pick([""] + list(pkg.parts))
            rest = pkg.rels.get(source)
            pkg.rels[source] = spoilt_rels(src, rest) if isinstance(rest, list) and src.bool() else src.pick([b"", b"<Relationships/>", b"x", f'<Relationship xmlns="{REL_NS}"/>'.encode(), f'<Relationships xmlns="{REL_NS}">'.encode(), b'<Relationships xmlns="urn:x"/>', b"{}", f'<Relationships xmlns="{CT_NS}"/>'.encode()])
        elif k == 3:
            source = src.pick([""] + list(pkg.parts))
            pkg.rels.setdefault(source, [])
            pkg.broken_rel[source] = src.pick(["tag", "ns", "type", "target"])
        else:
            source = src.pick([""] + list(pkg.parts))
            l = pkg.rels.setdefault(source, [])
            name = src.pick(["missing", "aasx/missing.xml", "aasx/aasx-origin2", "", "a"])
            if pkg.parts and src.bool(0.4):  # nearly the name of a part
                n = src.pick(list(pkg.parts))
                name = src.pick([n.swapcase(), n + "x", n[:-1], n + ".json", "x" + n, n.rpartition("/")[0], n + "/x", n.rpartition(".")[0], n.rpartition("/")[2]] + [unicodedata.normalize(f, n) for f in ("NFC", "NFD", "NFKC")])
            if source == "" and src.bool(0.1):
                l.insert(src.draw(len(l)), (src.pick(OTHERS), ""))  # the package is not a part
            elif name.strip("/. ") and name not in pkg.parts:
                t = src.pick(OTHERS + ([SPEC] if source not in origins else []))
                l.insert(src.draw(len(l)), (t, target_text(src, source, name)))
    return pkg


def spoilt_rels(src, rels):
    """a part in which only the root or the end is wrong"""
    inner = "".join(f'<Relationship Id="R{i}" Type={quoteattr(t)} Target={quoteattr(target)}/>' for i, (t, target) in enumerate(rels))
    k = src.draw(3)
    if k == 0:  # the wrong root
        tag = src.pick(["relationships", "Relationship", "Relations", "Types", "RelationshipsX", "x"])
        return f'<{tag} xmlns="{REL_NS}">{inner}</{tag}>'.encode()
    if k == 1:  # another namespace, only for the root
        inner = inner.replace("<Relationship ", f'<Relationship xmlns="{REL_NS}" ')
        ns = src.pick(["urn:x", CT_NS, REL_NS.upper(), REL_NS + "/", REL_NS[:-1], ""])
        return f'<Relationships xmlns="{ns}">{inner}</Relationships>'.encode()
    text = f'<Relationships xmlns="{REL_NS}">{inner}</Relationships>'
    if k == 2:  # ends early
        return text[: -src.int(1, len("</Relationships>"))].encode()
    return (text + src.pick(["x", "<a/>", "</Relationships>", "&amp;", text])).encode()


def gen_chain(src, spec_level):
    """a long way through the package, or many specs, with at most one thing wrong at some place"""
    pkg = Package()
    pkg.rels[""] = []
    n = src.pick([1, 2, 5, 10, 20, 33, 64, 100, 128, 150])
    good = json.dumps(meta.Gen(src, budget=2).obj("Environment", ())).encode()
    bad = src.pick([b"{", b'{"foo": 1}', b"[]", b'{"submodels": [{}]}'])
    at = src.draw(n - 1)
    wrong = src.pick(["nothing", "spec", "target", "malformed", "entry", "type"])
    origin = src.pick(DIRS) + "origin"
    pkg.parts[origin] = b""
    pkg.rels[""].append((ORIGIN, target_text(src, "", origin)))
    pkg.rels[origin] = []

    def spec(name, data):
        pkg.parts[name] = data
        pkg.spec_ok[name] = spec_level("json", data)
        pkg.rels[origin].append((SPEC, target_text(src, origin, name)))

    if src.bool():  # one after the other
        source = src.pick(["", origin])
        for i in range(n):
            name = f"{src.pick(DIRS)}p{i}"
            pkg.parts[name] = b"x"
            pkg.rels.setdefault(source, []).insert(0, (src.pick([SUPPL, THUMB, "http://x/y"]), target_text(src, source, name)))
            if i == at:
                host = name
            source = name
        spec("spec.json", bad if wrong == "spec" else good)
    else:  # side by side
        for i in range(n):
            spec(f"{src.pick(DIRS)}s{i}.json", bad if wrong == "spec" and i == at else good)
            if i == at:
                host = src.pick([origin, list(pkg.parts)[-1]])
    if wrong == "target":
        l = pkg.rels.setdefault(host, [])
        l.insert(src.draw(len(l)), (src.pick([SUPPL, "http://x/y"]), target_text(src, host, "missing.bin")))
    elif wrong == "malformed" and host != origin:
        pkg.rels[host] = src.pick([b"", b"<Relationships/>", b"x"])
    elif wrong == "entry":
        pkg.rels.setdefault(host, [])
        pkg.broken_rel[host] = src.pick(["tag", "ns", "type", "target"])
    elif wrong == "type":
        name = src.pick(DIRS) + "old"
        pkg.parts[name] = b""
        l = pkg.rels.setdefault(host, [])
        l.insert(src.draw(len(l)), (OLD + "aas-suppl", target_text(src, host, name)))
    return pkg, n, wrong


CT = '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'
RELS = '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="r" Type="http://admin-shell.io/aasx/relationships/%s" Target="/%s"/></Relationships>'


def spec_package(text):
    """a package with one XML spec"""
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for name, content in (
            ("[Content_Types].xml", CT), ("_rels/.rels", RELS % ("aasx-origin", "aasx/o")), ("aasx/o", ""),
            ("aasx/_rels/o.rels", RELS % ("aas-spec", "aasx/a.xml")), ("aasx/a.xml", text),
        ):
            z.writestr(zipfile.ZipInfo(name), content)
    return out.getvalue()
