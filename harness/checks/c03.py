"""C03: any single constraint violation makes the environment non-compliant and is named"""
import io
import json

import damage
import docs
import meta
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file

ALL = damage.CONSTRAINTS
REFS = [e for e in ALL if e[2][0] == "edge"]
OBJS = [e for e in ALL if e[2][0] == "cls"]


def judge(src, bad, name, what, at):
    r = docs.check_json(src, bad)
    if r.ok():
        raise Violation(f"accepted although {what} is violated at {meta.json_path(at)}", bad)
    if name and not any(l >= 2 and name in m for l, m, _ in meta.flatten(r)):
        raise Violation(f"{name} violated at {meta.json_path(at)} but not named: {meta.errors(r)[:3]}", bad)
    return r


def references(src, index):
    return one(src, REFS[index % len(REFS)])


def objects(src, index):
    return one(src, OBJS[index % len(OBJS)])


def one(src, entry):
    env, bad, container, at = damage.constraint_case(src, entry, budget=src.pick([3, 15, 60]))
    judge(src, bad, entry[0], entry[1], at)
    return Case(json.dumps(bad, sort_keys=True), True, [entry[1], "depth>=6" if len(at) >= 6 else "depth<6"], {"constraint": entry[1], "at": meta.json_path(at)})


def xml_chars(src, index):
    """AASd-130 for every string attribute"""
    cls, attr = damage.XML_CHARS[index % len(damage.XML_CHARS)]
    entry = ("AASd-130", "AASd-130", ("cls", cls, attr), damage.v130(attr))
    env, bad, container, at = damage.constraint_case(src, entry, budget=src.pick([3, 15]))
    judge(src, bad, "AASd-130", "AASd-130", at)
    return Case(json.dumps(bad, sort_keys=True), True, [f"{cls}.{attr}"], {"at": meta.json_path(at)})


def two(src, index):
    """a second violation elsewhere hides nothing"""
    e1, e2 = src.pick(ALL), src.pick(ALL)
    _, bad1, _, at1 = damage.constraint_case(src, e1, budget=8)
    _, bad2, _, at2 = damage.constraint_case(src, e2, budget=8)
    env = {}
    docs = [bad1, bad2]
    if src.bool():
        docs.reverse()
    for d in docs:
        for k, v in d.items():
            env[k] = env.get(k, []) + v
    for e, at in ((e1, at1), (e2, at2)):
        judge(src, env, e[0], e[1], at)
    return Case(json.dumps(env, sort_keys=True), True, ["two"], {"constraints": [e1[1], e2[1]]})


CHECK = Check(
    "C03",
    [
        Group("objects", objects, len(OBJS) * 250, len(OBJS) * 6000),
        Group("references", references, len(REFS) * 40, len(REFS) * 800),
        Group("xmlchars", xml_chars, len(damage.XML_CHARS) * 8, len(damage.XML_CHARS) * 100),
        Group("two", two, 1500, 20000),
    ],
    rule="a valid environment containing an object of the hosting class (for references: of every (class, attribute) that holds one) at a random place, then one constraint violated there; every case is non-trivial (contains the violation), distinct by JSON text",
    assumptions=["constraints excluded by doc/file.md and the property text are not generated"],
)
