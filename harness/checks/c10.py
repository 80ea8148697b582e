"""C10: submodels are judged against their template"""
import copy
import json

import docs
import meta
import templates as T
import xmlr
from pbt import Case, Check, Group, Violation, sut
from aas_test_engines import file


def verdict(src, env):
    k = src.draw(3)
    if k == 3:
        return "XML", sut(file.check_xml_data, xmlr.env_to_tree(env))
    return "JSON", docs.check_json(src, env)


def case(src, index):
    env, what, reasons, tmpl = T.gen_case(src, index)
    expected = not any(reasons)
    fmt, r = verdict(src, env)
    if r.ok() != expected:
        why = [x for x in reasons if x] or ["every template is fulfilled"]
        raise Violation(f"{fmt}, {what}: {why[0]}, but the report is {'ok' if r.ok() else 'not ok: ' + str(meta.errors(r)[:2])}", {"env": env, "reasons": reasons})
    labels = ["accepted" if expected else "rejected", "reason: " + (next((x for x in reasons if x), "none").split(": ")[-1].split(" with ")[0])]
    return Case(json.dumps(env, sort_keys=True), any(tmpl), labels, {"what": what, "expected": expected, "reasons": [x for x in reasons if x]})


def irrelevant(src, index):
    """order, idShorts and elements without or with unknown semantic ids do not change the verdict"""
    env, what, reasons, tmpl = T.gen_case(src, index)
    a = sut(file.check_json_data, env).ok()
    other = copy.deepcopy(env)

    def rec(elements, fields, depth):
        elements[:] = src.shuffle(elements)
        for i, e in enumerate(elements):
            e["idShort"] = "r%d" % i
            for f in fields:
                if T.sid(e) == f[0] and isinstance(f[1], tuple) and f[1][0] == "smc" and e["modelType"] == "SubmodelElementCollection" and "value" in e:
                    rec(e["value"], f[1][1], depth + 1)
        own = {f[0] for f in fields}
        # removing or adding noise
        keep = [e for e in elements if T.sid(e) in own]
        noise = [e for e in elements if T.sid(e) not in own]
        if keep and noise and src.bool(0.3):
            elements[:] = keep
        if src.bool(0.4):
            n = T.TGen(src).noise(None, fields)
            n["idShort"] = "added"
            elements.insert(src.draw(len(elements)), n)

    for sm, t in zip(other["submodels"], tmpl):
        if t and sm.get("submodelElements"):
            rec(sm["submodelElements"], T.TEMPLATES[T.sid(sm)], 0)
    b = docs.check_json(src, other)
    if b.ok() != a:
        raise Violation(f"{what}: reordering, renaming or unrelated elements change the verdict from {a} to {b.ok()}: {meta.errors(b)[:2]}", {"env": env, "other": other})
    return Case(json.dumps(other, sort_keys=True), any(tmpl), ["ok" if a else "not ok"])


ENUM_SITES = [i for i, (t, chain, f) in enumerate(T.SITES) if isinstance(f[1], tuple) and f[1][0] == "enum"]
CODES = ["0173-1#07-AAS%d#001" % c for c in list(range(752, 762)) + list(range(925, 934))] + ["", "Office", "0173-1#07-AAS754#002", "0173-1#07-AAS927", "0173-1#07-AAS754#001 "]


def enums(src, index):
    """every enumerated field with every code of every enumeration"""
    site = ENUM_SITES[index % len(ENUM_SITES)]
    code = CODES[index // len(ENUM_SITES) % len(CODES)]
    tid, chain, f = T.SITES[site]
    t = T.TGen(src, force={(chain[:i], s) for i, s in enumerate(chain + (f[0],))})
    sm = t.submodel(tid)
    cands = [p for p in t.places if p[0] == chain and p[1] is f]
    place = src.pick(cands)
    if not code:
        code = src.pick(f[1][1])
    place[2]["value"] = code
    why = T.judge(sm)
    fmt, r = verdict(src, {"submodels": [sm]})
    if r.ok() != (why is None):
        raise Violation(f"{fmt}, {f[0]} = {code!r}: {why or 'allowed'}, but the report is {'ok' if r.ok() else 'not ok: ' + str(meta.errors(r)[:2])}", sm)
    return Case((site, code, json.dumps(sm, sort_keys=True)), True, ["allowed" if why is None else "rejected"])


N = len(T.SITES)
CHECK = Check(
    "C10",
    [Group("judge", case, N * 110, N * 2000), Group("enums", enums, len(ENUM_SITES) * len(CODES) * 4, len(ENUM_SITES) * len(CODES) * 60), Group("irrelevant", irrelevant, N * 35, N * 500)],
    rule="an environment with at least one submodel of a supported template, generated from tables of the template with at most two deviations at any field of any level; oracle: an independent judge over these tables (metamorphic: order, idShorts, unknown elements); distinct by JSON text",
    assumptions=["values are non-empty strings and semantic ids have one key (grey zones, see DESIGN.md)"],
)
