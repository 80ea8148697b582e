"""C08: AASX packages are judged by their relationship graph and every spec part"""
import io
import json
import tempfile
import zipfile

import aasx
import meta
from pbt import Case, Check, Group, Violation, sut
from aas_test_engines import file

NAMES = ["info", "warning", "error", "critical"]


def spec_level(ext, data):
    """the judgement of a spec on its own"""
    if ext == "json":
        return sut(file.check_json_file, io.BytesIO(data)).level.value
    if ext == "xml":
        return sut(file.check_xml_file, io.BytesIO(data)).level.value
    return None


def describe(pkg):
    return {
        "parts": {k: len(v) for k, v in pkg.parts.items()},
        "rels": {k: (v.decode("latin1") if isinstance(v, bytes) else v) for k, v in pkg.rels.items()},
        "broken": pkg.broken_rel, "content_types": str(pkg.content_types), "specs": pkg.spec_ok,
    }


def give(src, data):
    k = src.draw(7)
    if k <= 3:
        return sut(file.check_aasx_file, io.BytesIO(data))
    if k == 4:  # a file on disk
        with tempfile.TemporaryFile() as f:
            f.write(data)
            f.seek(0)
            return sut(file.check_aasx_file, f)
    z = zipfile.ZipFile(io.BytesIO(data))
    r = sut(file.check_aasx_data, z)
    if k == 5:
        again = sut(file.check_aasx_data, z)
        if again.to_dict() != r.to_dict():
            raise Violation(f"the same open package gets another report the second time: {meta.errors(r)[:2]} / {meta.errors(again)[:2]}")
    return r


def package(src, index):
    pkg = aasx.gen_package(src, spec_level)
    level, why = pkg.judge()
    data = pkg.zip(src)
    r = give(src, data)
    if r.level.value != level:
        raise Violation(f"reported {NAMES[r.level.value]} instead of {NAMES[level]}: {why[:3] or 'nothing wrong'} / {meta.errors(r)[:2]}", describe(pkg))
    d = describe(pkg)
    return Case(json.dumps(d, sort_keys=True), True, [NAMES[level], "reason: " + (why[0].split("'")[0].split(" ")[0] if why else "none")], {"package": d, "level": NAMES[level], "why": why[:3]})


def target_forms(src, index):
    """the judgement does not depend on how targets are written"""
    pkg = aasx.gen_package(src, spec_level)
    if pkg.content_types[0] == "missing":
        pass
    a = give(src, pkg.zip(src))
    for source, rels in pkg.rels.items():
        if isinstance(rels, list):
            pkg.rels[source] = [(t, aasx.target_text(src, source, aasx.resolve(source, target))) for t, target in rels]
    b = give(src, pkg.zip(src))
    if a.level != b.level:
        raise Violation(f"level changes from {a.level} to {b.level} with other spellings of the same targets: {(meta.errors(a) or meta.errors(b))[:2]}", describe(pkg))
    return Case(json.dumps(describe(pkg), sort_keys=True), len(pkg.rels) > 1, [NAMES[a.level.value]])


def far(src, index):
    """long ways through the relationships and many specs"""
    pkg, n, wrong = aasx.gen_chain(src, spec_level)
    level, why = pkg.judge()
    r = give(src, pkg.zip(src))
    if r.level.value != level:
        raise Violation(f"reported {NAMES[r.level.value]} instead of {NAMES[level]} with {n} parts ({wrong}): {why[:3] or 'nothing wrong'} / {meta.errors(r)[:2]}", describe(pkg))
    return Case(json.dumps(describe(pkg), sort_keys=True), n > 1, [wrong, f"n={n}"], {"n": n, "wrong": wrong, "level": NAMES[level]})


CHECK = Check(
    "C08",
    [Group("package", package, 16000, 250000), Group("targets", target_forms, 4000, 60000), Group("far", far, 500, 10000)],
    rule="a generated package (0-3 origins, 0-3 specs each, extra parts, random relationship graph with cycles, shared and unreachable parts, every spelling of targets, names with dots, spaces and non-normalised characters, at most one damage; far: chains of up to 150 parts and up to 150 specs with one flaw somewhere; several compressions, encodings and archive layouts); oracle: a judge over the package model that computes the exact level; distinct by package model",
    assumptions=["no TargetMode=External, no percent-encoded targets, no two root relationships to the same origin"],
)
