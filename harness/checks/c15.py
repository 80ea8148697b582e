"""C15: the verdict of an environment is the conjunction over its parts"""
import copy
import io
import json

import aasx
import damage
import docs
import meta
import templates
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file

LISTS = ["assetAdministrationShells", "submodels", "conceptDescriptions"]


def parts_of(env):
    """[(list name, part)] if the environment consists of readable lists only"""
    out = []
    if not isinstance(env, dict) or any(k not in LISTS or not isinstance(v, list) for k, v in env.items()):
        raise Discard()
    for k in LISTS:
        for p in env.get(k, []):
            out.append((k, p))
    return out


def gen_parts(src):
    parts = []
    for _ in range(src.size(1, 5, 0.7)):
        kind = src.weighted([(6, "valid"), (2, "structural"), (3, "constraint"), (2, "template")])
        ps = parts_of(docs.environment(src, kind, src.pick([2, 6, 15])))
        parts += [(k, p, kind) for k, p in ps]
    # the same parts again, possibly with the identifier of another one
    for _ in range(src.size(0, 2, 0.3)):
        if parts:
            k, p, kind = src.pick(parts)
            p = copy.deepcopy(p)
            if isinstance(p, dict) and src.bool():
                p["id"] = src.pick(["urn:other", p.get("id", "x")])
            parts.append((k, p, kind))
    return src.shuffle(parts)


def combine(parts):
    env = {}
    for k, p in parts:
        env.setdefault(k, []).append(p)
    return env


def json_parts(src, index):
    parts = gen_parts(src)
    single = [sut(file.check_json_data, {k: [copy.deepcopy(p)]}).ok() for k, p, _ in parts]
    order = src.shuffle(LISTS)
    env = combine((k, p) for k, p, _ in parts)
    env = {k: env[k] for k in order if k in env}
    r = sut(file.check_json_data, env)
    if r.ok() != all(single):
        raise Violation(f"verdict {r.ok()}, but of the {len(parts)} parts alone {single} ({[k for _, _, k in parts]})", {"environment": env, "parts": single})
    return Case(json.dumps(env, sort_keys=True), len(parts) >= 2, [f"parts={min(len(parts), 8)}", f"bad={min(3, single.count(False))}", "bad last" if single and not single[-1] else "good last"], {"parts": len(parts), "compliant": single})


def xml_parts(src, index):
    parts = gen_parts(src)
    if any(not isinstance(p, dict) for _, p, _ in parts):
        raise Discard()
    single = []
    for k, p, _ in parts:
        single.append(sut(file.check_xml_file, io.StringIO(xmlr.serialize(src, xmlr.env_to_tree({k: [p]})))).ok())
    env = combine((k, p) for k, p, _ in parts)
    r = sut(file.check_xml_file, io.StringIO(xmlr.serialize(src, xmlr.env_to_tree(env))))
    if r.ok() != all(single):
        raise Violation(f"verdict {r.ok()}, but of the {len(parts)} parts alone {single}", {"environment": env, "parts": single})
    return Case(json.dumps(env, sort_keys=True), len(parts) >= 2, [f"bad={min(3, single.count(False))}"], {"parts": len(parts), "compliant": single})


def needle(src, index):
    """one bad part at every position among many good ones"""
    n = src.pick([1, 2, 5, 12, 40])
    bad_kind = ["structural", "constraint", "template"][index % 3]
    bad = [(k, p) for k, p in parts_of(docs.environment(src, bad_kind, 4))]
    bad_single = [sut(file.check_json_data, {k: [copy.deepcopy(p)]}).ok() for k, p in bad]
    good = []
    while len(good) < n:
        good += parts_of(meta.Gen(src, budget=3).obj("Environment", (), meta.plan_to(src, src.pick(["Submodel", "AssetAdministrationShell", "ConceptDescription"]), 0)))
    good = good[:n]
    at = src.draw(n)
    parts = good[:at] + bad + good[at:]
    r = sut(file.check_json_data, combine(parts))
    if not all(sut(file.check_json_data, {k: [p]}).ok() for k, p in good):
        raise Discard()  # C01
    if r.ok() != all(bad_single):
        raise Violation(f"verdict {r.ok()} although the {bad_kind} part at {at} of {len(parts)} is {bad_single}", combine(parts))
    return Case(json.dumps(combine(parts), sort_keys=True), True, [bad_kind, "bad" if not all(bad_single) else "good"], {"n": n, "at": at})


def packages(src, index):
    """several specs in one package (one origin)"""
    n = src.int(1, 4) if src.bool(0.9) else src.pick([8, 16, 17, 33])
    pkg = aasx.Package()
    pkg.rels[""] = [(aasx.ORIGIN, "/aasx/aasx-origin")]
    pkg.parts["aasx/aasx-origin"] = b"x"
    pkg.rels["aasx/aasx-origin"] = []
    single = []
    for i in range(n):
        ext, data, _ = aasx.bodies(src)
        name = src.pick(["aasx/data", "aasx/x/env", f"aasx/d{i}/data", f"aasx/d{i}/data", f"{i}/env", "data", "aasx/Data", "AASX/data", "aasx/data" + "x" * 60, "aasx/data" + "x" * 60 + "y", "aasx/data ", "Aasx/X/env"]) + f".{ext}"
        if name in pkg.parts:
            name = f"aasx/more{i}.{ext}"
        if i and src.bool(0.05):
            data = pkg.parts[src.pick([k for k in pkg.parts if k != "aasx/aasx-origin"])]  # the content of another one
        pkg.parts[name] = data
        pkg.rels["aasx/aasx-origin"].append((aasx.SPEC, "/" + name))
        check = file.check_json_file if ext == "json" else file.check_xml_file
        single.append(sut(check, io.BytesIO(data)).ok())
    r = sut(file.check_aasx_file, io.BytesIO(pkg.zip(src)))
    if r.ok() != all(single):
        raise Violation(f"verdict of the package is {r.ok()}, of its specs {single}", {k: v.decode("latin1") for k, v in pkg.parts.items()})
    return Case(tuple(pkg.parts.values()), n >= 2, [f"specs={n}", f"bad={min(2, single.count(False))}"], single)


CHECK = Check(
    "C15",
    [
        Group("json", json_parts, 3000, 80000),
        Group("xml", xml_parts, 1500, 40000),
        Group("needle", needle, 900, 20000),
        Group("packages", packages, 1500, 40000),
    ],
    rule="environments of at least two parts (shells, submodels, concept descriptions; valid, damaged, violating a constraint or using a template, also repeated and with equal identifiers) or packages of at least two specs; the verdict of the whole is compared with the verdicts of the parts checked alone; distinct by document text",
    assumptions=["the environment itself is well-formed: only its parts may be wrong"],
)
