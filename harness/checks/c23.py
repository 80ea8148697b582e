"""C23: any model type can be checked on its own, with the verdict it has inside a file"""
import copy
import io
import json
from xml.etree import ElementTree as ET

import damage
import docs
import lex
import meta
import templates
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file

CLASSES = list(meta.CLASSES)


def alone(src, cls, obj, as_xml):
    """verdict of the object on its own"""
    name = meta.SUT_NAME.get(cls, cls)
    if as_xml:
        text = xmlr.serialize(src, xmlr.obj_to_tree(cls, obj))
        if src.bool():
            return sut(file.check_xml_data, ET.fromstring(text), model_type=name), "xml data"
        return sut(file.check_xml_file, io.StringIO(text) if src.bool() else io.BytesIO(xmlr.encoded(src, text)), model_type=name), "xml file"
    if src.bool():
        return sut(file.check_json_data, copy.deepcopy(obj), model_type=name), "json data"
    text = json.dumps(obj)
    return sut(file.check_json_file, src.pick([io.StringIO(text), io.BytesIO(text.encode())]), model_type=name), "json file"


def embedded(src, env, as_xml):
    if as_xml:
        return sut(file.check_xml_file, io.StringIO(xmlr.serialize(src, xmlr.env_to_tree(env))))
    return sut(file.check_json_data, copy.deepcopy(env))


def judge(src, cls, env, path, what, as_xml):
    obj = meta.get(env, path)
    inside = embedded(src, env, as_xml)
    r, how = alone(src, cls, obj, as_xml)
    if r.ok() != inside.ok():
        raise Violation(
            f"{cls} ({what}) alone as {how}: {'compliant' if r.ok() else meta.errors(r)[:2]}, in an environment: {'compliant' if inside.ok() else meta.errors(inside)[:2]}",
            {"object": obj, "environment": env},
        )
    return r, how


def valid(src, index):
    cls = CLASSES[index % len(CLASSES)]
    env, path = meta.gen_env(src, target=cls, extra=src.pick([0, 2]), budget=src.pick([1, 5, 20]))
    as_xml = src.bool()
    r, how = judge(src, cls, env, path, "valid", as_xml)
    return Case((cls, how, json.dumps(meta.get(env, path), sort_keys=True)), True, [f"{cls}:{how}", "ok" if r.ok() else "not ok"], f"{cls} {how}")


def holders(env, at):
    """[(path, class)] of the objects of the valid environment that contain the place"""
    return [(p, c) for p, c, _ in meta.walk("Environment", env) if at[: len(p)] == p]


def pick_holder(src, env, at):
    """any of the objects around the place, the innermost ones preferred"""
    hs = holders(env, at)
    hs.sort(key=lambda h: -len(h[0]))
    if not hs:
        raise Discard()
    return hs[min(len(hs) - 1, src.size(0, 4, 0.5))]


def structural(src, index):
    site = damage.STRUCTURAL[index % len(damage.STRUCTURAL)]
    env, bad, at, what = damage.structural_case(src, site, budget=src.pick([2, 10]))
    path, cls = pick_holder(src, env, at)
    as_xml = src.bool(0.4)
    if as_xml and site[3] in ("true", "false"):
        raise Discard()  # a text in XML
    r, how = judge(src, cls, bad, path, what, as_xml)
    return Case((cls, how, json.dumps(meta.get(bad, path), sort_keys=True)), True, [f"{how}:{site[2]}", "ok" if r.ok() else "not ok"], f"{cls} {what} {how}")


def constraint(src, index):
    entry = damage.CONSTRAINTS[index % len(damage.CONSTRAINTS)]
    env, bad, container, at = damage.constraint_case(src, entry, budget=src.pick([2, 10]))
    path, cls = pick_holder(src, env, container)
    as_xml = src.bool(0.4)
    r, how = judge(src, cls, bad, path, entry[1], as_xml)
    return Case((cls, how, json.dumps(meta.get(bad, path), sort_keys=True)), True, [f"{entry[1]}", "ok" if r.ok() else "not ok"], f"{cls} {entry[1]} {how}")


def values(src, index):
    """every string attribute with values in and out of its language"""
    cls, attr = STRINGS[index % len(STRINGS)]
    typ = meta.ATTRS[cls][attr][0]
    g = meta.Gen(src, budget=3)
    env = g.obj("Environment", (), meta.plan_to(src, cls, 1) + [(attr, None)])
    path = g.focus
    o = meta.get(env, path)
    if attr not in o:
        raise Discard()
    o[attr] = lex.mutate_text(src, o[attr]) if src.bool(0.7) else src.pick(["", "x" * src.pick([18, 64, 128, 1023, 1024, 2000, 2001]), "a", " "])
    r, how = judge(src, cls, env, path, f"{attr}={o[attr]!r}", src.bool())
    return Case((cls, how, json.dumps(o, sort_keys=True)), True, ["ok" if r.ok() else "not ok"], f"{cls}.{attr}={o[attr][:30]!r}")


# values which other objects around are compared with
CONTEXT = {("LangDefinition", "language"), ("LangPreferredName", "language"), ("Extension", "name"), ("Qualifier", "type"), ("Key", "value"), ("SpecificAssetId", "name"), ("SpecificAssetId", "value")}
STRINGS = [(c, n) for c in CLASSES for n, (t, _) in meta.ATTRS[c].items() if t[0] == "str" and (c, n) not in CONTEXT and n != "idShort"]


def template(src, index):
    """a submodel using a template, alone"""
    env, what, reasons, _ = templates.gen_case(src, index)
    i = src.draw(len(env["submodels"]) - 1)
    single = {"submodels": [env["submodels"][i]]}
    r, how = judge(src, "Submodel", single, ("submodels", 0), f"template {what}", src.bool())
    return Case((how, json.dumps(single, sort_keys=True)), True, ["ok" if r.ok() else "not ok"], what)


NAMES = ["", " ", "environment", "ENVIRONMENT", "Foo", "submodel", "Submodels", "SubmodelElements", "Environment ", " Submodel", "str", "bool", "object", "None", "dict", "*", "Sub", "Submodel\n", "property", "List", "int", "Any", "__class__", "Optional", "AAS", "Ref", "Reference[]", "aas:Submodel"]


def unknown(src, index):
    """anything that is not the name of a class is refused (an exception), never judged"""
    if index < len(NAMES):
        name = NAMES[index]
    else:
        base = src.pick(CLASSES)
        name = src.pick([base.lower(), base.upper(), base + "s", base[:-1], base[1:], base + " ", xmlr.lower_first(base), meta.snake(base), lex.mutate_text(src, base)])
    if name in set(CLASSES) | set(meta.SUT_NAME.values()) | set(meta.ABSTRACT) | set(KNOWN):
        raise Discard()
    doc = src.pick([{}, {"modelType": name}, [], None, "x"])
    fns = [
        lambda: file.check_json_data(doc, model_type=name),
        lambda: file.check_json_file(io.StringIO(json.dumps(doc)), model_type=name),
        lambda: file.check_xml_data(ET.fromstring('<environment xmlns="%s"/>' % xmlr.NS), model_type=name),
        lambda: file.check_xml_file(io.StringIO('<environment xmlns="%s"/>' % xmlr.NS), model_type=name),
    ]
    k = src.draw(3)
    try:
        r = fns[k]()
    except Exception:
        return Case((name, k, repr(doc)), True, [], name)
    raise Violation(f"model type {name!r} is accepted: {r.to_dict()}")


# further classes of the specification the tool may know
KNOWN = ["Referable", "Identifiable", "HasSemantics", "HasExtensions", "HasKind", "HasDataSpecification", "Qualifiable", "EventElement", "AbstractLangString", "ValueReferencePair", "ValueList", "LevelType", "DataElement", "EventPayload"]

CHECK = Check(
    "C23",
    [
        Group("valid", valid, len(CLASSES) * 100, len(CLASSES) * 2500),
        Group("structural", structural, len(damage.STRUCTURAL) * 4, len(damage.STRUCTURAL) * 80),
        Group("constraint", constraint, len(damage.CONSTRAINTS) * 20, len(damage.CONSTRAINTS) * 400),
        Group("values", values, len(STRINGS) * 40, len(STRINGS) * 800),
        Group("template", template, 600, 12000),
        Group("unknown", unknown, 500, 5000),
    ],
    rule="objects of every class (valid, structurally damaged, violating a constraint, with mutated strings, using a template), checked alone and inside an otherwise valid environment, in JSON and XML, as data and as file; distinct by class, way and object text",
    assumptions=["constraints on the context of an object (siblings, list attributes, kind of the submodel) belong to the object that holds the context"],
)
