"""C14: checks are deterministic, side-effect free and history independent"""
import base64
import copy
import io
import json
import os
import subprocess
import sys
import zipfile
from xml.etree import ElementTree as ET

import requests

import aasx
import damage
import docs
import meta
import pbt
import templates
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, file, http


def same(a, b, what):
    if a != b:
        raise Violation(f"{what}: the report differs", {"first": a, "later": b})


class Chaos:
    """stand-in for the network: answers, fails or interrupts the run"""

    def __init__(self, src):
        self.src = src
        self.n = 0
        self.stop = src.int(0, 12)
        self.how = src.pick(["unreachable", "garbage", "interrupt", "error", "foreign"])

    def __call__(self, adapter, request, **kw):
        self.n += 1
        if self.how == "unreachable":
            raise requests.exceptions.ConnectionError("refused")
        if self.n > self.stop:
            if self.how == "interrupt":
                raise KeyboardInterrupt()
            if self.how == "error":
                raise requests.exceptions.ReadTimeout("timeout")
            if self.how == "foreign":
                raise RuntimeError("something else")
        r = requests.models.Response()
        r.status_code = self.src.pick([200, 404, 500])
        r._content = self.src.pick([b"", b"{}", b"[]", b"null", b'{"result": [], "paging_metadata": {}}'])
        r.url = request.url
        r.request = request
        return r


def server_run(src):
    """an aborted or otherwise failing server test"""
    chaos = Chaos(src)
    suite = src.pick(sorted(api.supported_versions()["3.0"]))
    orig = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: chaos(self, request, **kw)
    try:
        api.execute_tests(http.HttpClient("http://127.0.0.1:1"), config.CheckApiConfig(suite))
    except (KeyboardInterrupt, Exception):
        pass  # whether it may raise is the subject of C19
    finally:
        requests.adapters.HTTPAdapter.send = orig


def histories(src, index):
    pool = []
    for _ in range(src.int(1, 4)):
        fmt, data, kind = docs.gen(src)
        pool.append((fmt, data, kind))
    first = {}
    steps = src.int(len(pool) + 1, 12)
    for step in range(steps):
        k = src.draw(len(pool) - 1)
        if src.bool(0.08):
            server_run(src)
        if src.bool(0.05):
            try:
                file.check_json_data({}, model_type="NoSuchType")
            except Exception:
                pass
        fmt, data, kind = pool[k]
        d = sut(docs.check, fmt, data).to_dict()
        if k in first:
            same(first[k], d, f"step {step}, {fmt} document ({kind})")
        else:
            first[k] = d
    return Case(tuple(data for _, data, _ in pool), True, sorted({k for _, _, k in pool} | {f for f, _, _ in pool}), [f"{f}/{k}" for f, _, k in pool])


def snapshot(e):
    return (e.tag, e.text, e.tail, tuple(e.attrib.items()), tuple(snapshot(c) for c in e))


def inputs(src, index):
    """data is not modified, whatever is wrong with it; the same data object can be checked again"""
    kind = src.weighted(docs.KINDS[:4])
    env = docs.environment(src, kind)
    if src.bool():
        before = copy.deepcopy(env)
        r1 = sut(file.check_json_data, env).to_dict()
        if env != before or json.dumps(env) != json.dumps(before):
            raise Violation(f"checking modified the JSON data ({kind})", {"before": before, "after": env})
        r2 = sut(file.check_json_data, env).to_dict()
        r3 = sut(file.check_json_data, copy.deepcopy(before)).to_dict()
        label = "json"
    else:
        tree = xmlr.env_to_tree(env)
        text = xmlr.serialize(src, tree)
        root = ET.fromstring(text)
        before = snapshot(root)
        r1 = sut(file.check_xml_data, root).to_dict()
        if snapshot(root) != before:
            raise Violation(f"checking modified the XML tree ({kind})", text)
        r2 = sut(file.check_xml_data, root).to_dict()
        r3 = sut(file.check_xml_data, ET.fromstring(text)).to_dict()
        label = "xml"
    same(r1, r2, f"second check of the same {label} data")
    same(r1, r3, f"check of a copy of the {label} data")
    return Case(json.dumps(env, sort_keys=True), True, [label, kind], f"{label} {kind}")


def handles(src, index):
    """an open package or file stays usable: it can be read and checked again"""
    fmt, data, kind = docs.gen(src, formats=("aasx", "aasx", "json", "xml"))
    if fmt == "aasx" and src.bool():
        try:
            z = zipfile.ZipFile(io.BytesIO(data))
        except Exception:
            raise Discard()
        before = [(i.filename, i.file_size, z.read(i)) for i in z.infolist()]
        reports = []
        for _ in range(src.int(2, 3)):
            reports.append(sut(file.check_aasx_data, z).to_dict())
            try:
                after = [(i.filename, i.file_size, z.read(i)) for i in z.infolist()]
            except Exception as e:
                raise Violation(f"the package cannot be read any more after it was checked: {type(e).__name__} {e}", data.decode("latin1"))
            if after != before:
                raise Violation("checking modified the package", data.decode("latin1"))
        label = "open package"
    else:
        f = io.BytesIO(data)
        check = {"json": file.check_json_file, "xml": file.check_xml_file, "aasx": file.check_aasx_file}[fmt]
        reports = []
        for _ in range(src.int(2, 3)):
            try:
                f.seek(0)
            except ValueError as e:
                raise Violation(f"the file cannot be used any more after it was checked: {e}", data.decode("latin1"))
            if f.getvalue() != data:
                raise Violation("checking modified the file", data.decode("latin1"))
            reports.append(sut(check, f).to_dict())
        label = fmt + " stream"
    for r in reports[1:]:
        same(reports[0], r, f"next check of the same {label}")
    return Case(data, True, [label, kind], f"{label} {kind}")


def shuffled(src, v, keep=None, path=()):
    """the same JSON value with the attributes of objects in another order, except at or below `keep`"""
    if keep is not None and path[: len(keep)] == keep:
        return copy.deepcopy(v)
    if isinstance(v, dict):
        return {k: shuffled(src, v[k], keep, path + (k,)) for k in src.shuffle(list(v))}
    if isinstance(v, list):
        return [shuffled(src, x, keep, path + (i,)) for i, x in enumerate(v)]
    return v


def messages(r):
    return sorted({(l, m) for l, m, _ in meta.flatten(r)})


def compare(a, b, what, doc):
    if a.ok() != b.ok():
        raise Violation(f"{what} changes the verdict from {a.ok()} to {b.ok()}", doc)
    ma, mb = messages(a), messages(b)
    if ma != mb:
        diff = [x for x in ma if x not in mb][:2] + [x for x in mb if x not in ma][:2]
        raise Violation(f"{what} changes the messages: {diff}", doc)


def order(src, index):
    kind = src.weighted(docs.KINDS[:4])
    keep = None
    budget = src.pick([3, 12, 30])
    if kind == "structural":
        _, env, keep, _ = damage.structural_case(src, src.pick(damage.STRUCTURAL), budget=budget)
    else:
        env = docs.environment(src, kind, budget)
    other = shuffled(src, env, keep)
    a, b = sut(file.check_json_data, env), sut(file.check_json_data, other)
    compare(a, b, "another order of attributes", {"one": env, "other": other})
    return Case(json.dumps(env), json.dumps(env) != json.dumps(other), [kind], f"{kind}, {len(json.dumps(env))} characters")


def spaces(src, index):
    kind = src.weighted(docs.KINDS[:4])
    env = docs.environment(src, kind)
    if src.bool():
        texts = []
        for _ in range(2):
            t = json.dumps(env, indent=src.pick([None, 0, 3, "\t"]), separators=src.pick([None, (",", ":"), (" , ", " : "), (",\n", ":\t")]), ensure_ascii=True)
            texts.append(src.pick(["", " ", "\n\r\n", "\t"]) + t + src.pick(["", " ", "\n", "\r\n\t"]))
        a = sut(file.check_json_file, io.StringIO(texts[0]) if src.bool() else io.BytesIO(texts[0].encode()))
        b = sut(file.check_json_file, io.BytesIO(texts[1].encode(src.pick(["utf-8", "utf-8", "utf-16", "utf-8-sig"]))))
        label = "json"
    else:
        tree = xmlr.env_to_tree(env)
        texts = [xmlr.serialize(src, tree), xmlr.serialize(src, tree)]
        a = sut(file.check_xml_file, io.StringIO(texts[0]))
        b = sut(file.check_xml_file, io.BytesIO(xmlr.encoded(src, texts[1])))
        label = "xml"
    compare(a, b, f"white space in the {label} file", texts)
    return Case(texts[0] + texts[1], texts[0] != texts[1], [label, kind], f"{label} {kind}")


def processes(src, index):
    """a batch of documents gives the same reports here and in a fresh process with another hash seed"""
    batch = []
    for _ in range(30):
        try:
            batch.append(docs.gen(src, budget=src.pick([0, 6, 15])))
        except Discard:
            pass
    mine = [sut(docs.check, fmt, data).to_dict() for fmt, data, _ in batch]
    seed = str(src.int(1, 4000000000))
    mix = src.shuffle(list(range(len(batch))))
    env = dict(os.environ, PYTHONHASHSEED=seed, VERIF_REPO=pbt.REPO)
    p = subprocess.run(
        [sys.executable, os.path.join(pbt.VERIF, "harness", "fresh.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        input=json.dumps([[batch[i][0], base64.b64encode(batch[i][1]).decode()] for i in mix]).encode(), cwd=pbt.VERIF,
    )
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-2000:])
    theirs = json.loads(p.stdout)
    for i, d in zip(mix, theirs):
        if mine[i] != d:
            raise Violation(f"a fresh process (hash seed {seed}) reports something else about a {batch[i][0]} document ({batch[i][2]})", {"here": mine[i], "there": d, "document": batch[i][1].decode("latin1")})
    return Case(tuple(d for _, d, _ in batch), True, [], f"{len(batch)} documents, hash seed {seed}")


_FRESH = {}


def pristine(fmt, data, model_type=None):
    """the report of a process which never checked anything before"""
    p = _FRESH.get(os.getpid())
    if p is None:
        env = dict(os.environ, PYTHONHASHSEED="77", VERIF_REPO=pbt.REPO)
        p = subprocess.Popen(
            [sys.executable, os.path.join(pbt.VERIF, "harness", "fresh.py"), "fork"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=pbt.VERIF, text=True,
        )
        _FRESH[os.getpid()] = p
    p.stdin.write(json.dumps([fmt, base64.b64encode(data).decode(), model_type]) + "\n")
    p.stdin.flush()
    d = json.loads(p.stdout.readline())
    if "raised" in d:
        raise Violation(f"checking raised in a fresh process: {d['raised']}")
    return d


def replace_content(old, new):
    """the object old gets the content of new"""
    if isinstance(old, dict):
        old.clear()
        old.update(new)
    else:
        old[:] = new


def rewrite(stream, data):
    try:
        stream.seek(0)
        stream.truncate()
        stream.write(data)
        stream.seek(0)
    except ValueError as e:
        raise Violation(f"the file cannot be used any more after it was checked: {e}", data.decode("latin1"))


def related(src, index):
    """
    Documents which have most of their content, their identifiers, their file or their data object in common, checked one after the
    other; every report must be the one a fresh process gives, and earlier reports stay as they were.
    """
    if src.bool():
        pair = damage.structural_case(src, src.pick(damage.STRUCTURAL), budget=src.pick([0, 4, 15]))
    else:
        pair = damage.constraint_case(src, src.pick(damage.CONSTRAINTS), budget=src.pick([0, 4, 15]))
    texts = [json.dumps(pair[0]), json.dumps(pair[1])]
    if src.bool(0.3):
        env = pair[src.draw(1)]
        for part, cls in (("submodels", "Submodel"), ("assetAdministrationShells", "AssetAdministrationShell"), ("conceptDescriptions", "ConceptDescription")):
            if isinstance(env, dict) and isinstance(env.get(part), list) and env[part]:
                texts.append((json.dumps(env[part][0]), cls))
    obj = json.loads(texts[0])
    stream = io.BytesIO()
    kept, labels = [], set()
    for step in range(src.int(3, 7)):
        t = src.pick(texts)
        text, model_type = t if isinstance(t, tuple) else (t, src.weighted([(6, None), (1, "Environment"), (1, "Submodel"), (1, "Property")]))
        kw = {} if model_type is None else {"model_type": model_type}
        how = src.pick(["data", "in-place", "stream", "file"])
        if how == "data":
            r = sut(file.check_json_data, json.loads(text), **kw)
        elif how == "in-place":  # one and the same data object, changed in between
            replace_content(obj, json.loads(text))
            r = sut(file.check_json_data, obj, **kw)
        elif how == "stream":  # one and the same file object, rewritten in between
            rewrite(stream, text.encode())
            r = sut(file.check_json_file, stream, **kw)
        else:
            r = sut(file.check_json_file, io.StringIO(text), **kw)
        want = pristine("data", text.encode(), model_type)
        same(want, r.to_dict(), f"step {step} ({how}, {model_type or 'default type'}) against a fresh process")
        kept.append((r, want))
        labels.add(how)
    for i, (r, want) in enumerate(kept):
        same(want, r.to_dict(), f"report of step {i}, looked at after later checks")
    return Case(tuple(str(t) for t in texts), True, labels, f"{len(kept)} checks of {len(texts)} related documents")


def related_xml(src, index):
    """the same for XML: documents which share most of their content, as trees, files or spec of a package"""
    pair = damage.constraint_case(src, src.pick(damage.CONSTRAINTS), budget=src.pick([0, 4, 15]))[:2]
    try:
        texts = [xmlr.serialize(src, xmlr.env_to_tree(env)).encode() for env in pair]
        [ET.fromstring(t) for t in texts]
    except (ET.ParseError, ValueError):
        raise Discard()
    root = ET.fromstring(texts[0])
    stream, package = io.BytesIO(), io.BytesIO()
    kept, labels = [], set()
    for step in range(src.int(3, 7)):
        text = src.pick(texts)
        how = src.pick(["tree", "in-place", "stream", "file", "package"])
        fmt, data = "xml", text
        if how == "tree":
            r = sut(file.check_xml_data, ET.fromstring(text))
        elif how == "in-place":  # one and the same element, changed in between
            new = ET.fromstring(text)
            root.clear()
            root.tag, root.text, root.tail = new.tag, new.text, new.tail
            root.attrib.update(new.attrib)
            root.extend(list(new))
            r = sut(file.check_xml_data, root)
        elif how == "stream":
            rewrite(stream, text)
            r = sut(file.check_xml_file, stream)
        elif how == "package":
            fmt, data = "aasx", aasx.spec_package(text)
            rewrite(package, data)
            r = sut(file.check_aasx_file, package)
        else:
            r = sut(file.check_xml_file, io.BytesIO(text))
        want = pristine(fmt, data)
        same(want, r.to_dict(), f"step {step} ({how}) against a fresh process")
        kept.append((r, want))
        labels.add(how)
    for i, (r, want) in enumerate(kept):
        same(want, r.to_dict(), f"report of step {i}, looked at after later checks")
    return Case(tuple(texts), True, labels, f"{len(kept)} checks of {len(texts)} related documents")


CHECK = Check(
    "C14",
    [
        Group("histories", histories, 1200, 30000),
        Group("related", related, 1500, 40000),
        Group("related-xml", related_xml, 800, 20000),
        Group("inputs", inputs, 2500, 60000),
        Group("handles", handles, 1500, 40000),
        Group("order", order, 4000, 100000),
        Group("spaces", spaces, 2500, 60000),
        Group("processes", processes, 24, 500, shrink=False),
    ],
    rule="documents of all kinds (valid, structurally damaged, violating a constraint, using a template, packages, garbage) in JSON, XML and AASX, and groups of documents which share most of their content or the data object; a case is non-trivial if at least one document is checked twice or the two renderings differ as texts; distinct by document text",
    assumptions=[
        "attributes are not reordered inside a value of the wrong kind (its text may be quoted in the message)",
        "XML white space means the white space between elements",
    ],
)
