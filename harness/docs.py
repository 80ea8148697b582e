"""Documents of any quality, as bytes: used by checks that compare runs with each other"""

import io
import json

import aasx
import damage
import meta
import templates
import xmlr
from pbt import Discard, sut
from aas_test_engines import file

GARBAGE = [
    b"", b"{", b"[]", b"null", b"\xff\xfe\x00", b"<a>", b"<a/>", b'{"foo": 1}', b"PK\x03\x04", b"\x00" * 20, b'"x"', b"1", b"NaN",
    b"{} {}", b'{"submodels": [1]}', b'<environment xmlns="https://admin-shell.io/aas/3/0"/>', b'{"submodels": {}}', b'{"submodels": [{}, {}]}',
]
KINDS = [(4, "valid"), (4, "structural"), (4, "constraint"), (3, "template"), (1, "garbage")]


def check_json(src, doc, **kw):
    """the document as data, as data without shared objects, or as a file"""
    k = src.draw(4)
    if k <= 1:
        return sut(file.check_json_data, doc, **kw)
    if k == 2:
        return sut(file.check_json_data, json.loads(json.dumps(doc)), **kw)
    if k == 3:
        return sut(file.check_json_file, io.StringIO(json.dumps(doc)), **kw)
    text = json.dumps(doc, ensure_ascii=src.bool(), indent=src.pick([None, 1]))
    try:
        data = text.encode(src.pick(["utf-8", "utf-8", "utf-16", "utf-8-sig", "utf-32"]))
    except UnicodeEncodeError:
        data = json.dumps(doc).encode()
    return sut(file.check_json_file, io.BytesIO(data), **kw)


def environment(src, kind, budget=None):
    budget = src.pick([0, 4, 15, 30]) if budget is None else budget
    if kind == "valid":
        return meta.Gen(src, budget=budget).obj("Environment", ())
    if kind == "structural":
        return damage.structural_case(src, src.pick(damage.STRUCTURAL), budget=budget)[1]
    if kind == "constraint":
        return damage.constraint_case(src, src.pick(damage.CONSTRAINTS), budget=budget)[1]
    if kind == "template":
        return templates.gen_case(src, src.draw(len(templates.SITES) - 1))[0]
    raise AssertionError(kind)


def spec_level(ext, data):
    if ext == "json":
        return file.check_json_file(io.BytesIO(data)).level.value
    if ext == "xml":
        return file.check_xml_file(io.BytesIO(data)).level.value
    return 1


def gen(src, formats=("json", "xml", "aasx"), budget=None):
    """-> (format, bytes, kind)"""
    fmt = src.pick(formats)
    if fmt == "aasx":
        if src.bool(0.1):
            return fmt, src.pick(GARBAGE), "garbage"
        pkg = aasx.gen_package(src, lambda ext, data: 0)
        return fmt, pkg.zip(src), "package"
    kind = src.weighted(KINDS)
    if kind == "garbage":
        return fmt, src.pick(GARBAGE), kind
    env = environment(src, kind, budget)
    if fmt == "json":
        return fmt, json.dumps(env, ensure_ascii=True, indent=src.pick([None, 1])).encode(), kind
    return fmt, xmlr.serialize(src, xmlr.env_to_tree(env)).encode(), kind


def check(fmt, data, **kw):
    if fmt == "json":
        return file.check_json_file(io.BytesIO(data), **kw)
    if fmt == "xml":
        return file.check_xml_file(io.BytesIO(data), **kw)
    return file.check_aasx_file(io.BytesIO(data), **kw)
