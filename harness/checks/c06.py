"""C06: JSON and XML renderings get the same verdict and problem locations"""
import io
import json

import damage
import docs
import lex
import meta
import templates
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file


def compare(src, env, what, labels, nontrivial=True):
    tree = xmlr.env_to_tree(env)
    j = docs.check_json(src, env)
    if src.bool(0.5):
        text = xmlr.serialize(src, tree)
        stream = io.BytesIO(xmlr.encoded(src, text)) if src.bool() else io.StringIO(text)
        x = sut(file.check_xml_file, stream)
    else:
        text = None
        x = sut(file.check_xml_data, tree)
    detail = {"env": env, "xml": text}
    if j.ok() != x.ok():
        raise Violation(f"{what}: JSON is {'ok' if j.ok() else 'not ok'} but XML is {'ok' if x.ok() else 'not ok'}: {meta.errors(j)[:2]} / {meta.errors(x)[:2]}", detail)
    lj, lx = xmlr.locations(j), xmlr.locations(x)
    if lj != lx:
        raise Violation(f"{what}: problem locations differ: JSON {lj[:4]} XML {lx[:4]}", detail)
    if not j.ok() and not lj and "template" not in labels:
        raise Violation(f"{what}: no problem location given: {meta.errors(j)[:3]}", detail)
    return Case(json.dumps(env, sort_keys=True), nontrivial, labels + ["compliant" if j.ok() else "not compliant"], {"case": what, "compliant": j.ok(), "locations": lj[:3]})


def valid(src, index):
    edge = meta.EDGES[index % len(meta.EDGES)]
    env, _ = meta.gen_env(src, last=edge, budget=src.pick([5, 30, 80]))
    return compare(src, env, "valid", ["valid"])


EXPRESSIBLE = [s for s in damage.STRUCTURAL if s[2] in ("missing", "unknown", "unknown-similar", "empty", "enum") or (s[2] == "model-type" and s[3] in ("abstract", "foreign", "unknown"))]


def structural(src, index):
    site = EXPRESSIBLE[index % len(EXPRESSIBLE)]
    env, bad, at, what = damage.structural_case(src, site, budget=src.pick([3, 20]))
    return compare(src, bad, what, ["structural " + site[2]])


OBJS = [e for e in damage.CONSTRAINTS if e[2][0] == "cls"]
REFS = [e for e in damage.CONSTRAINTS if e[2][0] == "edge"]


def constraints(src, index):
    entry = OBJS[index % len(OBJS)] if src.bool(0.7) else src.pick(REFS)
    env, bad, c, at = damage.constraint_case(src, entry, budget=src.pick([3, 20]))
    return compare(src, bad, entry[1], [entry[1]])


STRINGS = [(cls, attr, typ) for cls, attrs in meta.CLASSES.items() for attr, typ, _ in attrs if typ[0] in ("str", "typed")]


def strings(src, index):
    """arbitrary strings in every string attribute"""
    cls, attr, typ = STRINGS[index % len(STRINGS)]
    g = meta.Gen(src, budget=src.pick([0, 10]))
    env = g.obj("Environment", (), meta.plan_to(src, cls, 2) + [(attr, None)])
    o = meta.get(env, g.focus)
    if attr not in o:
        raise Discard()
    if typ[0] == "typed":
        t = o.get("valueType", "xs:string")
        o[attr] = lex.gen_near(src, t)
        if src.bool(0.2):
            o[attr] = src.pick([" ", "\n", "\t"]) + o[attr]
    else:
        o[attr] = lex.gen_rule_near(src, typ[1])
    if not lex.xml_string(o[attr]):
        raise Discard()
    return compare(src, env, f"{cls}.{attr}", ["strings"])


def template(src, index):
    env, what, _, _ = templates.gen_case(src, index)
    return compare(src, env, what, ["template"])


CHECK = Check(
    "C06",
    [
        Group("valid", valid, len(meta.EDGES) * 20, len(meta.EDGES) * 300),
        Group("structural", structural, len(EXPRESSIBLE) * 25, len(EXPRESSIBLE) * 400),
        Group("constraints", constraints, len(OBJS) * 60, len(OBJS) * 1000),
        Group("strings", strings, len(STRINGS) * 50, len(STRINGS) * 800),
        Group("template", template, 2500, 40000),
    ],
    rule="one environment (valid, or with one structural, constraint, string or template violation both formats can express) rendered as JSON data and as XML (tree, or text with random prefix, indentation, comments); verdicts and the sets of error locations must agree; distinct by JSON text",
)
