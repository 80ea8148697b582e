"""C02: any single structural damage makes the environment non-compliant"""
import io
import json

import damage
import meta
from pbt import Case, Check, Group, Violation, sut
from aas_test_engines import file

SITES = damage.STRUCTURAL


def check(bad, via_file):
    if via_file:
        return sut(file.check_json_file, io.StringIO(json.dumps(bad)))
    return sut(file.check_json_data, bad)


def single(src, index):
    site = SITES[index % len(SITES)]
    env, bad, at, what = damage.structural_case(src, site, budget=src.pick([3, 15, 60]))
    r = check(bad, src.bool(0.2))
    if r.ok():
        raise Violation(f"accepted although {what} at {meta.json_path(at)}", bad)
    if not any(l >= 2 for l, _, _ in meta.flatten(r)):
        raise Violation("not ok without an error entry", bad)
    text = json.dumps(bad, sort_keys=True)
    return Case(text, True, [what.split(" ", 1)[1].strip(), "depth>=6" if len(at) >= 6 else "depth<6"], {"damage": what, "at": meta.json_path(at)})


def top_level(src, index):
    v = damage.KINDS[src.pick([k for k in damage.KINDS if k != "object"])](src)
    if src.bool(0.4):
        v = {src.pick(["foo", "assetAdministrationShell", "Submodels", "submodel", "modeltype"]): v}
    r = check(v, src.bool())
    if r.ok():
        raise Violation("accepted a document that is not an environment", v)
    return Case(json.dumps(v), True, ["top"], v)


CHECK = Check(
    "C02",
    [
        Group("single", single, len(SITES) * 24, len(SITES) * 300),
        Group("top", top_level, 200, 2000),
    ],
    rule="a valid environment containing an object of a chosen class at a random place and depth, then one damage of the enumerated catalogue (class x attribute x damage kind); every case is non-trivial (it contains exactly one violation), distinct by JSON text",
)
