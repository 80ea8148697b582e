"""C07: malformed AAS XML is rejected"""
import copy
import io
from xml.etree import ElementTree as ET

import lex
import meta
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from xmlr import NS, Q
from aas_test_engines import file

NAMESPACES = [
    None, "", "https://admin-shell.io/aas/2/0", "https://admin-shell.io/aas/3/1", "http://admin-shell.io/aas/3/0", "https://admin-shell.io/aas/3/0/",
    "https://admin-shell.io/aas/3/0 ", "https://admin-shell.io/AAS/3/0", "urn:x", "https://admin-shell.io/aas/3/00", "aas", "https://admin-shell.io/aas/3",
    "http://www.admin-shell.io/aas/3/0", "https://admin-shell.io/aas/3/0#",
]


def tag(ns, name):
    return name if not ns else "{" + ns + "}" + name


def survey(cls, e, out, parents):
    """[(role, element, parents)]; role: object, list, wrapper, text, bool, enum"""
    out.append(("object", cls, e, parents))
    attrs = meta.ATTRS[cls]
    for c in e:
        name = c.tag[len(Q) :]
        typ = attrs[name][0]
        below = parents + (e,)
        if typ[0] == "list":
            out.append(("list", typ[1], c, below))
            for x in c:
                survey(class_of(typ[1], x), x, out, below + (c,))
        elif typ[0] == "obj":
            if typ[1] in meta.ABSTRACT:
                out.append(("wrapper", typ[1], c, below))
                survey(class_of(typ[1], c[0]), c[0], out, below + (c,))
            else:
                survey(typ[1], c, out, below)
        else:
            out.append((typ[0] if typ[0] in ("bool", "enum") else "text", name, c, below))
    return out


BY_XML = {xmlr.lower_first(c): c for c in meta.CLASSES}


def class_of(declared, e):
    if declared in meta.ABSTRACT:
        return BY_XML[e.tag[len(Q) :]]
    return declared


TEXTS = ["x", " x ", "0", "true", "\u00a0", "ä", "]]>", ".", "\n text \n", "null"]
NAMES = ["foo", "modelType", "value", "idShort", "id_short", "IdShort", "submodel", "keys", "x", "Value", "Environment", "text", "_", "a.b"]
UNKNOWN_KINDS = ["foo", "submodelElement", "dataElement", "eventElement", "Property", "PROPERTY", "environment", "submodelElementStruct", "key", "langStringNameType", "reference", "dataSpecificationContent", "value", "submodel_element_collection", "propertys", "referable"]


def m_root(src, root, sites, c):
    if src.bool():
        root.tag = tag(NS, src.pick(["Environment", "environments", "aasenv", "env", "submodel", "assetAdministrationShell", "submodels", "ENVIRONMENT", "x"]))
    else:
        root.tag = tag(src.pick(NAMESPACES), "environment")
    return "root " + root.tag


def m_root_only(src, root, sites, c):
    """the namespace of all elements"""
    ns = src.pick(NAMESPACES)
    for _, _, e, _ in sites:
        e.tag = tag(ns, e.tag[len(Q) :])
    return f"namespace {ns}"


def m_namespace(src, root, sites, c):
    role, what, e, _ = src.pick([s for s in sites if s[3]] or sites)
    name = e.tag[len(Q) :]
    e.tag = tag(src.pick(NAMESPACES), name)
    return f"namespace of {role} {e.tag}"


def m_unknown(src, root, sites, c):
    role, cls, e, _ = src.pick([s for s in sites if s[0] == "object"])
    names = [n for n in NAMES + [n for a in meta.ATTRS.values() for n in a] if n not in meta.ATTRS[cls]]
    new = ET.Element(Q + src.pick(names))
    if src.bool():
        new.text = "x"
    if len(e) and src.bool(0.3):
        # with the content of an existing attribute
        new = copy.deepcopy(e[src.draw(len(e) - 1)])
        new.tag = Q + src.pick(names)
    e.insert(src.draw(len(e)), new)
    return f"unknown {new.tag[len(Q):]} in {cls}"


def m_repeat(src, root, sites, c):
    role, cls, e, _ = src.pick([s for s in sites if s[0] == "object" and len(s[2])])
    x = copy.deepcopy(e[src.draw(len(e) - 1)])
    e.insert(src.draw(len(e)), x)
    return f"repeated {x.tag[len(Q):]} in {cls}"


def m_text(src, root, sites, c):
    role, cls, e, _ = src.pick([s for s in sites if s[0] in ("object", "list", "wrapper")])
    t = src.pick(TEXTS)
    if len(e) and src.bool():
        i = src.draw(len(e) - 1)
        e[i].tail = t
        return f"text {t!r} after child {i} of {role} {e.tag[len(Q):]}"
    e.text = t
    return f"text {t!r} in {role} {e.tag[len(Q):]}"


def m_child(src, root, sites, c):
    role, name, e, _ = src.pick([s for s in sites if s[0] in ("text", "bool", "enum")] or [None]) or (None,) * 4
    if e is None:
        raise Discard()
    k = src.draw(2)
    x = ET.Element(tag(src.pick([NS, NS, None, "urn:x"]), src.pick(["foo", name, "value", "b", "property"])))
    if k == 1:
        x.text, e.text = e.text, None
    elif k == 2 and e.text:
        # the text continues after the child
        i = src.draw(len(e.text))
        x.tail, e.text = e.text[i:], e.text[:i]
    e.append(x)
    return f"child in {role} {name}"


def m_bool(src, root, sites, c):
    l = [s for s in sites if s[0] == "bool"]
    if not l:
        raise Discard()
    role, name, e, _ = src.pick(l)
    e.text = src.pick(["True", "False", "TRUE", "FALSE", "yes", "no", "", None, "2", "00", "01", "t", "f", "on", "off", "-1", "1.0", "null", "truefalse", "+1", "tRue", "１", "y", "Yes", "none"])
    return f"bool {e.text!r}"


def m_kind(src, root, sites, c):
    l = [s for s in sites if s[0] in ("list", "wrapper")]
    if not l:
        raise Discard()
    role, cls, e, _ = src.pick(l)
    allowed = {xmlr.lower_first(c) for c in meta.concrete(cls)} | {meta.XML_ITEM.get(cls)}
    pool = [n for n in UNKNOWN_KINDS + [xmlr.lower_first(c) for c in meta.CLASSES if c not in meta.XML_ITEM] if n not in allowed]
    name = src.pick(pool)
    if role == "list" and cls in meta.XML_ITEM and (name.lower().startswith("lang") or name == "x"):
        raise Discard()
    x = e[src.draw(len(e) - 1)]
    if role == "list" and src.bool():
        x = copy.deepcopy(x)
        e.insert(src.draw(len(e)), x)
    x.tag = Q + name
    return f"element kind {name} in {role} of {cls}"


def m_wrapper(src, root, sites, c):
    l = [s for s in sites if s[0] == "wrapper"]
    if not l:
        raise Discard()
    role, cls, e, _ = src.pick(l)
    if src.bool(0.3):
        e.remove(e[0])
    else:
        for _ in range(src.int(1, 2)):
            x = copy.deepcopy(e[0]) if src.bool(0.7) else ET.Element(Q + src.pick(["foo", "property"]))
            e.insert(src.draw(len(e)), x)
    return f"wrapper of {cls} with {len(e)} children"


MUTATIONS = {
    "root": m_root, "whole namespace": m_root_only, "namespace": m_namespace, "unknown attribute": m_unknown, "repeated attribute": m_repeat,
    "text": m_text, "child in value": m_child, "boolean": m_bool, "element kind": m_kind, "wrapper": m_wrapper,
}
NEEDS = {"boolean": [("LevelType", n, None) for n in ("min", "nom", "typ", "max")] + [("SubmodelElementList", "orderRelevant", None)], "wrapper": None}
WRAPPERS = [e for e in meta.EDGES if meta.ATTRS[e[0]][e[1]][0][0] == "obj" and meta.ATTRS[e[0]][e[1]][0][1] in meta.ABSTRACT]


def give(src, root):
    """hand the tree to one of the two entry points"""
    if src.bool(0.4):
        return "tree", sut(file.check_xml_data, root)
    data = ET.tostring(root, encoding=src.pick(["utf-8", "us-ascii", "utf-16"]))
    return "file", sut(file.check_xml_file, io.BytesIO(data))


def edge_for(src, index, name):
    if name == "boolean":
        cls, attr, _ = src.pick(NEEDS["boolean"])
        return meta.plan_to(src, cls, 2) + [(attr, None)]
    if name == "wrapper":
        e = WRAPPERS[index % len(WRAPPERS)]
        return meta.plan_to(src, e[0], 2) + [(e[1], e[2])]
    e = meta.EDGES[index % len(meta.EDGES)]
    return meta.plan_to(src, e[0], 2) + [(e[1], e[2])]


def malformed(src, index):
    names = list(MUTATIONS)
    name = names[index % len(names)]
    g = meta.Gen(src, budget=src.pick([0, 10, 40]), wild=False)
    env = g.obj("Environment", (), edge_for(src, index // len(names), name))
    root = xmlr.env_to_tree(env)
    sites = survey("Environment", root, [], ())
    if src.bool(0.6) and name not in ("root", "whole namespace", "wrapper", "boolean"):
        # near the chosen object, not anywhere
        tail = sites[len(sites) // 2 :]
        sites = tail if any(s[0] == "object" and len(s[2]) for s in tail) else sites
    what = MUTATIONS[name](src, root, sites, g)
    how, r = give(src, root)
    text = ET.tostring(root, encoding="unicode")
    if r.ok():
        raise Violation(f"{what} ({how}): accepted", text)
    return Case(text, True, [name, how], {"mutation": what, "xml": text[:300]})


def benign(src, index):
    """the counterpart: comments, processing instructions, white space, 0/1 booleans and prefixes are fine"""
    edge = meta.EDGES[index % len(meta.EDGES)]
    env, _ = meta.gen_env(src, last=edge, budget=src.pick([0, 10, 40]), wild=False)
    root = xmlr.env_to_tree(env)
    for role, _, e, _ in survey("Environment", root, [], ()):
        if role == "bool":
            e.text = src.pick({"true": ["true", "1"], "false": ["false", "0"]}[e.text])
        elif role in ("object", "list", "wrapper"):
            if src.bool(0.2):
                e.text = src.pick([" ", "\n\t", "\r\n"])
            for c in e:
                if src.bool(0.1):
                    c.tail = src.pick([" ", "\n\n  ", "\t"])
    if src.bool():
        text = xmlr.serialize(src, root)
        r = sut(file.check_xml_file, io.BytesIO(xmlr.encoded(src, text)))
    else:
        text = ET.tostring(root, encoding="unicode")
        _, r = give(src, root)
    if not r.ok():
        raise Violation(f"compliant XML rejected: {meta.errors(r)[:2]}", text)
    return Case(text, True, ["accepted"])


CHECK = Check(
    "C07",
    [Group("malformed", malformed, 24000, 400000), Group("benign", benign, 4000, 60000)],
    rule="the XML rendering of a generated compliant environment with one malformation (of ten kinds) at a random element, given as tree or file: must be rejected; with insignificant changes only: must be accepted; distinct by XML text",
)
