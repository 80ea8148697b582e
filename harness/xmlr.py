"""Rendering of (possibly damaged) JSON environments as AAS XML"""

import re
from xml.etree import ElementTree as ET

import lex
import meta
from pbt import Discard

NS = "https://admin-shell.io/aas/3/0"
Q = "{" + NS + "}"


def lower_first(s):
    return s[:1].lower() + s[1:]


def name_ok(s):
    return len(s) > 0 and s[0] in lex.LETTERS + "_" and lex.all_in(s, lex.ALNUM + "_-.")


def text(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if not isinstance(v, str) or not lex.xml_string(v):
        raise Discard()
    return v


def element(tag, cls, obj):
    """an element named tag with the attributes of obj"""
    if not name_ok(tag) or not isinstance(obj, dict):
        raise Discard()
    e = ET.Element(Q + tag)
    fill(e, cls, obj)
    return e


def kind_of(declared, obj):
    """(class whose attributes are used, element name)"""
    if not isinstance(obj, dict):
        raise Discard()
    mt = obj.get("modelType")
    if declared in meta.ABSTRACT or declared in meta.MODEL_TYPED:
        if not isinstance(mt, str) or not mt[:1].isupper():
            raise Discard()
        cls = mt if mt in meta.CLASSES else None
        return cls, lower_first(mt)
    return declared, meta.XML_ITEM.get(declared, lower_first(declared))


def fill(e, cls, obj):
    attrs = meta.ATTRS.get(cls, {})
    known = [n for n in attrs if n in obj]
    unknown = [n for n in obj if n not in attrs and n != "modelType"]
    for n in known:
        typ = attrs[n][0]
        v = obj[n]
        c = ET.SubElement(e, Q + n)
        if typ[0] == "list":
            if not isinstance(v, list):
                raise Discard()
            for item in v:
                k, tag = kind_of(typ[1], item)
                c.append(element(tag, k, item))
        elif typ[0] == "obj":
            if typ[1] in meta.ABSTRACT:
                k, tag = kind_of(typ[1], v)
                c.append(element(tag, k, v))
            else:
                if not isinstance(v, dict):
                    raise Discard()
                fill(c, typ[1], v)
        else:
            c.text = text(v)
    for n in unknown:
        if not name_ok(n):
            raise Discard()
        c = ET.SubElement(e, Q + n)
        v = obj[n]
        if isinstance(v, str):
            c.text = text(v)
        elif isinstance(v, (dict, list)) and not v:
            pass
        else:
            raise Discard()


def env_to_tree(env):
    return element("environment", "Environment", env)


def obj_to_tree(cls, obj):
    k, tag = kind_of(cls, obj)
    return element(tag, k, obj)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def serialize(src, root):
    """text of the tree; prefixes, indentation and comments are chosen at random"""
    prefix = src.pick(["", "aas:", "x:"])
    indent = src.bool()
    comments = src.bool(0.3)
    out = []
    if src.bool():
        out.append('<?xml version="1.0" encoding="UTF-8"?>\n')

    def rec(e, depth, top):
        tag = prefix + e.tag[len(Q) :]
        decl = ""
        if top:
            decl = ' xmlns%s="%s"' % (":" + prefix[:-1] if prefix else "", NS)
        pad = "\n" + "  " * depth if indent else ""
        if not top:
            out.append(pad)
        if len(e) == 0 and not e.text:
            out.append(f"<{tag}{decl}/>" if src.bool() else f"<{tag}{decl}></{tag}>")
            return
        out.append(f"<{tag}{decl}>")
        if len(e):
            if comments and src.bool(0.2):
                out.append("<!-- comment <a> & -->")
            for c in e:
                rec(c, depth + 1, False)
                if comments and src.bool(0.1):
                    out.append(src.pick(["<!---->", "<?pi data?>"]))
            out.append(pad if not top or indent else "")
        else:
            out.append(esc(e.text))
        out.append(f"</{tag}>")

    rec(root, 0, True)
    return "".join(out)


_DECLARATION = re.compile(r"^<\?xml[^>]*\?>\s*")


def encoded(src, text):
    """the bytes of a file with this text, in one of the encodings every XML parser knows"""
    enc = src.pick(["utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "iso-8859-1", "us-ascii"])
    if enc == "utf-8":
        return text.encode()
    if enc == "utf-8-sig":
        return b"\xef\xbb\xbf" + text.encode()
    body = _DECLARATION.sub("", text)
    if enc.startswith("utf-16"):
        out = ('<?xml version="1.0" encoding="%s"?>' % src.pick(["UTF-16", "utf-16"]) if src.bool() else "") + body
        return {"utf-16": b"", "utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff"}[enc] + out.encode(enc)
    if any(not tag.isascii() for tag in re.findall("<[^>]*>", body)):
        return text.encode()
    return (f"<?xml version='1.0' encoding='{src.pick([enc, enc.upper()])}'?>\n" + body).encode(enc, "xmlcharrefreplace")


def location(message):
    """the place a message of the report names, or None"""
    i = message.rfind(" @ /")
    return message[i + 3 :] if i >= 0 else None


def locations(result):
    """locations of all errors of a report"""
    return sorted({location(m) for m in meta.errors(result) if location(m) is not None})
