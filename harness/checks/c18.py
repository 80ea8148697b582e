"""C18: a deviating server fails, and the counts say how"""
import base64
import copy
import json
from urllib.parse import parse_qsl, unquote, urlencode, urlsplit, urlunsplit

import meta
import server
from checks.c17 import make
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, http

JSON = "application/json"
BAD_STATUS = [500, 501, 502, 503, 504, 599]
BODIES_NOT_JSON = [b"", b"<html></html>", b"{", b"[1", b"{'a': 1}", b"\xff\xfe\xfd\x00", b"OK", b'{"a": 1} x', b"{]"]
NOT_ERRORS = [
    [], ["x"], {"messages": "x"}, {"messages": {}}, {"messages": [1]}, {"messages": ["x"]}, {"messages": [{"messageType": "Fatal"}]},
    {"messages": [{"text": 1}]}, {"messages": [{"foo": "x"}]}, {"error": "x"}, {"messages": [{"text": "x"}], "status": 400}, {"message": "x"},
    {"messages": [{"code": 400}]}, {"messages": [{"timestamp": 0}]}, {"messages": [{"correlationId": []}]}, {"timestamp": "x"}, {"messages": [[]]},
    {"messages": [{"text": "x"}, {"text": None}]}, {"messages": [{"messageType": 1}]}, {"Messages": []},
]


def raw(path):
    return path.endswith("/thumbnail") or path.endswith("/attachment")


def classify(url, body):
    """what kind of answer the request is to give"""
    path = [unquote(x) for x in urlsplit(url).path.split("/")]
    last = path[-1]
    paged = isinstance(body, dict) and "paging_metadata" in body
    if last == "serialization":
        return "environment"
    if last == "description":
        return "description"
    if last == "$path":
        return "paged paths" if paged else "paths"
    if last == "$value":
        return "paged any" if paged else "any"
    if last == "$reference" or last == "submodel-refs":
        return "paged references" if paged else "reference"
    if last == "$metadata":
        if not paged and len(path) >= 3 and path[-3] == "submodel-elements":
            return "any"
        return "paged entities" if paged else "entity"
    return "paged entities" if paged else "entity"


def break_entity(src, e, depth=0):
    """the entity is not of its type any more"""
    e = copy.deepcopy(e)
    k = src.draw(6)
    if k == 0:
        e[src.pick(["foo", "idshort", "Id", ""])] = src.pick([1, "x", None, {}])
    elif k == 1:
        for a in ("modelType", "assetKind", "keys"):
            if a in e:
                del e[a]
                break
    elif k == 2:
        if "modelType" in e:
            e["modelType"] = src.pick(["Foo", "Environment", 1, None, "Reference"])
        else:
            e.clear()
    elif k == 3:
        e["idShort"] = src.pick([1, "", "0 x", "a-b.", None, ["a"]]) if "modelType" in e else src.pick([1, {}])
    elif k == 4:
        for a in ("id", "assetInformation", "type", "assetKind", "modelType"):
            if a in e:
                del e[a]
                break
    elif k == 5:
        for a in ("semanticId", "description", "administration", "keys", "globalAssetId"):
            if a in e:
                e[a] = src.pick([1, "", None, {"x": 1}, True])
                return e
        e["extensions"] = []
        if "modelType" not in e:
            e["bar"] = 0
    else:
        return src.pick([1, "x", None, [], True, [e]])
    return e


def break_reference(src, r):
    r = copy.deepcopy(r)
    k = src.draw(5)
    if k == 0:
        del r["keys"]
    elif k == 1:
        r["type"] = src.pick(["Reference", "", 1, "modelreference"])
    elif k == 2:
        r["keys"] = src.pick([[], {}, "x", [1], [{"type": "Submodel"}], [{"value": "x"}], [{"type": "Foo", "value": "x"}], [{"type": "Submodel", "value": 1}]])
    elif k == 3:
        r["foo"] = 1
    elif k == 4:
        return src.pick([1, "x", None, [], {}])
    else:
        r["keys"][0]["x"] = "y"
    return r


def wrong_type(src, kind, body):
    """-> a JSON value which is not of the type the operation returns"""
    if kind.startswith("paged"):
        k = src.draw(6)
        b = copy.deepcopy(body)
        if k == 0:
            del b["result"]
        elif k == 1:
            del b["paging_metadata"]
        elif k == 2:
            b["result"] = src.pick([{}, "x", 1, None])
        elif k == 3:
            b["paging_metadata"] = src.pick([{"cursor": 1}, [], "x", {"foo": "x"}, None, {"cursor": None}])
        elif k == 4:
            return src.pick([body["result"], {}, {"result": body}, [body], {"items": body["result"]}])
        elif k == 5 or kind == "paged any" or not b["result"]:
            b[src.pick(["foo", "cursor", "pagingMetadata"])] = "x"
        else:
            i = src.draw(len(b["result"]) - 1)
            if kind == "paged entities":
                b["result"][i] = break_entity(src, b["result"][i])
            elif kind == "paged references":
                b["result"][i] = break_reference(src, b["result"][i])
            else:
                b["result"][i] = src.pick([1, None, {}, ["x"], True])
        return b
    if kind == "paths":
        return src.pick([{}, {"result": body}, body + [1], [None] + body, [[p] for p in body] or {}, "x", {"paths": body}])
    if kind == "reference":
        return break_reference(src, body)
    if kind == "entity":
        return break_entity(src, body)
    if kind == "environment":
        return src.pick([[], [body], {"foo": []}, {"submodels": {}}, {"submodels": [{}]}, {**body, "x": 1}, {"assetAdministrationShells": [1]}, "x", {"environment": body}])
    if kind == "description":
        return src.pick([{}, [], body["profiles"], {"profiles": "x"}, {"profiles": [1]}, {"profiles": [None]}, {**body, "foo": 1}, {"Profiles": []}])
    raise Discard()


def is_checked_entity(op, url):
    """requests where the tool asks for one entity by its identifier"""
    path = [unquote(x) for x in urlsplit(url).path.split("/")]
    if op in ("GetAssetAdministrationShellById", "GetSubmodelById", "GetSubmodelById-Metadata"):
        return (path[-2] in ("shells", "submodels") and path[-1] != "$reference") or path[-1] == "$metadata"
    if op in ("GetAssetAdministrationShellById-Reference", "GetSubmodelById-Reference"):
        return path[-1] == "$reference" and path[-3] in ("shells", "submodels")
    return False


def other_text(src, s):
    return src.pick([s + "x", s[:-1] or "x", s.swapcase() if s.swapcase() != s else s + "1", "urn:other", s + s, s + " "])


def fault(src, op, call, answer):
    """-> (what, (status, content type, body)): a deviation from the right answer to this request"""
    status, ctype, body = answer
    path = urlsplit(call.url).path
    if raw(path):
        k = src.draw(1)
        if k == 0:
            return "server error", (src.pick(BAD_STATUS), ctype, src.pick([body, b"", b"oops"]))
        s = src.pick([201, 204, 300, 304, 400, 401, 403, 405, 410, 422])
        return f"status {s}", (s, ctype, body)
    data = json.loads(body)
    if status == 200:
        kind = classify(call.url, data)
        k = src.weighted([(2, "5xx"), (3, "status"), (2, "not json"), (6, "type"), (3, "entity")])
        if k == "5xx":
            return "server error", (src.pick(BAD_STATUS), ctype, src.pick([body, b"", b"oops"]))
        if k == "status":
            s = src.pick([201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 405, 409, 410, 422, 429])
            return f"status {s}", (s, ctype, body)
        if k == "not json":
            return "not JSON", (200, src.pick([ctype, "text/html", ""]), src.pick(BODIES_NOT_JSON + [body[:-1], body + b"}", b"x" + body, body + b"\x00", body + b",", body + b";", b")]}',\n" + body, body + b"\n\n" + body, b"callback(" + body + b")"]))
        if k == "entity":
            if not is_checked_entity(op, call.url):
                raise Discard()
            other = copy.deepcopy(data)
            if "keys" in other:
                other["keys"][0]["value"] = other_text(src, other["keys"][0]["value"])[:1999]
                if other["keys"][0]["value"] == data["keys"][0]["value"]:
                    raise Discard()
            else:
                other["id"] = other_text(src, other["id"])[:1999]
                if other["id"] == data["id"]:
                    raise Discard()
            return "another entity", (200, ctype, json.dumps(other).encode())
        return "wrong type", (200, ctype, json.dumps(wrong_type(src, kind, data)).encode())
    # a malformed or not applicable request: an error is expected
    k = src.draw(4)
    if k == 0:
        return "server error", (src.pick(BAD_STATUS), ctype, body)
    if k == 1:
        s = src.pick([200, 200, 201, 202, 204, 300, 304])
        return f"malformed request answered with status {s}", (s, ctype, src.pick([body, b"{}", b'{"paging_metadata": {}, "result": []}', b"[]"]))
    if k == 2:
        return "error without JSON", (status, src.pick([ctype, "text/plain"]), src.pick(BODIES_NOT_JSON))
    return "error without proper body", (src.pick([status, 400, 404]), ctype, json.dumps(src.pick(NOT_ERRORS)).encode())


# ------------------------------------------------------------------ runs


def run(srv, client, suite, ops=None, faults=None, rewrite=None):
    """faults: {index: answer}; -> (result, matrix, calls, answers)"""
    answers = []

    def answer(n, req):
        a = srv.answer(req.url)
        answers.append(a)
        if faults and n in faults:
            return faults[n]
        if rewrite:
            return rewrite(req.url, a)
        return a

    conf = config.CheckApiConfig(suite)
    if ops is not None:
        conf.filter = config.TestCaseFilter(":".join(ops))
    with server.network(answer) as calls:
        r, mat = sut(api.execute_tests, client, conf)
    return r, mat, calls, answers


def counts(result):
    """(negative ok, negative all, positive ok, positive all) by the report"""
    c = [0, 0, 0, 0]
    for _, op in server.operations(result):
        for s in op.sub_results:
            if s.message in ("Negative Tests", "Positive Tests"):
                i = 0 if s.message[0] == "N" else 2
                c[i] += sum(1 for x in s.sub_results if x.level.value <= 1)
                c[i + 1] += len(s.sub_results)
    return tuple(c)


def check_counts(result, mat):
    want = counts(result)
    got = (mat.invalid_rejected, mat.invalid_rejected + mat.invalid_accepted, mat.valid_accepted, mat.valid_accepted + mat.valid_rejected)
    if got != want:
        raise Violation(f"the matrix says (negative passed, all, positive passed, all) = {got}, the report shows {want}", result.to_dict())
    summary = [s for s in result.sub_results if s.message.startswith("Summary")]
    if len(summary) != 1:
        raise Violation("no summary")
    lines = [s.message for s in summary[0].sub_results]
    for word, a, b in (("egative", want[0], want[1]), ("ositive", want[2], want[3])):
        line = [l for l in lines if word in l]
        if len(line) != 1 or numbers(line[0]) != [a, b]:
            raise Violation(f"the summary says {lines}, the report shows {want}", result.to_dict())
    return want


def numbers(line):
    out, cur = [], ""
    for c in line + " ":
        if c in "0123456789":
            cur += c
        elif cur:
            out.append(int(cur))
            cur = ""
    return out


def reported(result, op):
    rs = [r for o, r in server.operations(result) if o == op]
    if len(rs) != 1:
        raise Violation(f"{op} is reported {len(rs)} times")
    return rs[0]


def single(src, index):
    """one deviating answer to one request of one operation"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, rich=src.bool(0.7), budget=6)
    names = server.OPERATIONS[suite]
    out = []
    labels = []
    for _ in range(4):
        op = src.pick(names)
        base, _, calls, answers = run(srv, client, suite, [op])
        if not reported(base, op).ok():
            raise Discard()  # C17
        for _ in range(6):
            n = src.int(1, len(calls) - 1)
            if src.bool(0.4):
                n = len(calls) - 1 - src.draw(min(3, len(calls) - 2))
            try:
                what, bad = fault(src, op, calls[n], answers[n])
            except Discard:
                continue
            r, mat, calls2, _ = run(srv, client, suite, [op], {n: bad})
            if r.ok() or reported(r, op).ok():
                raise Violation(
                    f"{op} passes although the server answered request {n} ({calls[n].url[:200]}) with a deviation: {what}, {bad[0]} {bad[2][:150]!r}",
                    {"suite": suite, "report": r.to_dict()},
                )
            check_counts(r, mat)
            out.append((op, n, what))
            labels.append(what.split(" ")[0] if what.startswith("status") else what if not what.startswith("malformed") else "malformed accepted")
            labels.append("op:" + op)
    if not out:
        raise Discard()
    return Case((suite, tuple(out), json.dumps(srv.submodels[0], sort_keys=True)), True, labels, out[:3])


def every(src, index):
    """every request of one operation, each with its own deviation"""
    names = [(s, o) for s in server.SUITES for o in server.OPERATIONS[s]]
    suite, op = names[index % len(names)]
    srv, client = make(src, suite, True, rich=True, budget=4)
    base, _, calls, answers = run(srv, client, suite, [op])
    if not reported(base, op).ok():
        raise Discard()
    done = 0
    for n in range(1, len(calls)):
        try:
            what, bad = fault(src, op, calls[n], answers[n])
        except Discard:
            continue
        r, mat, _, _ = run(srv, client, suite, [op], {n: bad})
        if r.ok() or reported(r, op).ok():
            raise Violation(
                f"{op} passes although the server answered request {n} ({calls[n].url[:200]}) with a deviation: {what}, {bad[0]} {bad[2][:150]!r}",
                {"suite": suite, "report": r.to_dict()},
            )
        done += 1
    return Case((suite, op, done, json.dumps(srv.submodels[0], sort_keys=True)), done > 0, [f"{suite.split('/')[-2]}:{op}"], f"{op}: {done} requests")


def isolation(src, index):
    """in a whole run the deviation shows up in its operation only, and the counts are right"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, rich=src.bool(0.5), budget=5)
    base, mat, calls, answers = run(srv, client, suite)
    ops = [o for o, _ in server.operations(base)]
    if not base.ok():
        raise Discard()
    check_counts(base, mat)
    sizes = [len(run(srv, client, suite, [o])[2]) - 1 for o in ops]
    if 1 + sum(sizes) != len(calls):
        raise Discard()  # C16
    chosen = src.sample(list(range(len(ops))), src.pick([1, 1, 2, 5]))
    faults, bad_ops, what_all = {}, set(), []
    for i in chosen:
        if sizes[i] == 0:
            continue
        n = 1 + sum(sizes[:i]) + src.draw(sizes[i] - 1)
        try:
            what, bad = fault(src, ops[i], calls[n], answers[n])
        except Discard:
            continue
        # a fault may shorten the operation, so only one per run can be placed by index
        faults = {n: bad}
        bad_ops = {ops[i]}
        what_all = [(ops[i], what)]
        r, mat, _, _ = run(srv, client, suite, None, faults)
        if r.ok():
            raise Violation(f"result is ok although {what_all}", r.to_dict())
        names = [o for o, _ in server.operations(r)]
        if names != ops:
            raise Violation(f"operations tested: {names} instead of {ops}")
        check_counts(r, mat)
        for (o, a), (_, b) in zip(server.operations(r), server.operations(base)):
            if o in bad_ops:
                if a.ok():
                    raise Violation(f"{o} passes although {what_all}", a.to_dict())
            elif a.to_dict() != b.to_dict():
                raise Violation(f"{o} is affected by {what_all}", {"with": a.to_dict(), "without": b.to_dict()})
    if not faults:
        raise Discard()
    return Case((suite, tuple(what_all), json.dumps(srv.submodels[0], sort_keys=True)), True, [suite.split("/")[-2]], what_all)


def chaos_counts(src, index):
    """many deviations at once: the counts equal the report"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, rich=src.bool(0.5), budget=4)
    p = src.pick([0.02, 0.1, 0.3])

    def rewrite(url, a):
        if src.bool(p):
            return src.pick([(500, JSON, b"{}"), (200, JSON, b"[]"), (200, JSON, b"{}"), (400, JSON, b"{}"), (404, "", b""), (200, JSON, b"x")])
        return a

    r, mat, calls, _ = run(srv, client, suite, rewrite=rewrite)
    want = check_counts(r, mat)
    return Case((suite, want, tuple(c.status for c in calls)), True, ["all passed" if want[0] == want[1] and want[2] == want[3] else "some failed"], {"counts": want})


# ------------------------------------------------------------------ persistent deviations

PAGED = [
    "GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference", "GetAllSubmodelReferences", "GetAllSubmodels",
    "GetAllSubmodels-Metadata", "GetAllSubmodels-ValueOnly", "GetAllSubmodels-Reference", "GetAllSubmodels-Path", "GetAllSubmodelElements",
    "GetAllSubmodelElements-Metadata", "GetAllSubmodelElements-ValueOnly", "GetAllSubmodelElements-Reference", "GetAllSubmodelElements-Path",
]
LEVEL_AND_EXTENT = ["GetAllSubmodelElements", "GetSubmodelElementByPath", "GetSubmodelElementByPath-ValueOnly"]
LEVEL = ["GetAllSubmodelElements-ValueOnly", "GetAllSubmodelElements-Path"]


def persistent(src, index):
    """a server that deviates in a systematic way"""
    cases = [(s, o) for s in server.SUITES for o in PAGED if o in server.OPERATIONS[s]]
    suite, op = cases[index % len(cases)]
    srv, client = make(src, suite, True, rich=True, budget=5)
    base, _, calls, answers = run(srv, client, suite, [op])
    if not reported(base, op).ok():
        raise Discard()
    hows = ["twice", "none with cursor", "one more with cursor"]
    if op.startswith("GetAllAsset"):
        hows += ["idShort ignored", "assetIds: nothing found", "idShort: nothing found", "idShort: another one"]
    how = src.pick(hows)
    met = [False]

    def rewrite(url, a):
        q = dict(parse_qsl(urlsplit(url).query))
        if a[0] != 200 or a[1] != JSON:
            return a
        d = json.loads(a[2])
        if not (isinstance(d, dict) and "paging_metadata" in d):
            return a
        if how == "twice" and q.get("limit") == "1" and d["result"]:
            d["result"] = d["result"] * 2
            met[0] = True
        elif how == "none with cursor" and "cursor" in q:
            d["result"] = []
            met[0] = True
        elif how == "one more with cursor" and "cursor" in q:
            d["result"] = d["result"] * 2
            met[0] = True
        elif how == "idShort ignored" and q.get("idShort") not in (None, srv.shells[0]["idShort"]):
            d = json.loads(srv.answer(url.split("?")[0])[2])
            met[0] = True
        elif how == "assetIds: nothing found" and "assetIds" in q:
            d["result"] = []
            met[0] = True
        elif how == "idShort: nothing found" and "idShort" in q:
            met[0] = met[0] or bool(d["result"])
            d["result"] = []
        elif how == "idShort: another one" and d["result"] and "idShort" in q and "idShort" in d["result"][0]:
            d["result"][0]["idShort"] += "x"
            met[0] = True
        return a[0], a[1], json.dumps(d).encode()

    r, mat, _, _ = run(srv, client, suite, [op], rewrite=rewrite)
    if not met[0]:
        raise Discard()
    if r.ok() or reported(r, op).ok():
        raise Violation(f"{op} of {suite.split('/')[-2]} passes although the server deviates: {how}", {"report": r.to_dict(), "shells": srv.shells})
    check_counts(r, mat)
    return Case((suite, op, how, json.dumps(srv.submodels[0], sort_keys=True)), True, [how, "op:" + op], f"{op}: {how}")


def modifiers(src, index):
    """a server that fails for one combination of level and extent"""
    cases = [(s, o) for s in server.SUITES for o in LEVEL_AND_EXTENT + LEVEL]
    suite, op = cases[index % len(cases)]
    level = src.pick([None, "core", "deep"])
    extent = src.pick([None, "withBlobValue", "withoutBlobValue"]) if op in LEVEL_AND_EXTENT else None
    srv, client = make(src, suite, True, rich=True, budget=5)
    bad = src.pick([(500, JSON, b"{}"), (404, JSON, b"{}"), (200, JSON, b"x"), (400, JSON, b'{"messages": []}')])
    met = [False]

    def rewrite(url, a):
        u = urlsplit(url)
        q = dict(parse_qsl(u.query))
        if "/submodel-elements" in u.path and q.get("level") == level and q.get("extent") == extent and (level or extent):
            met[0] = True
            # requests which are to be refused (elements without a value) meet a server error
            return bad if a[0] == 200 else (500, JSON, b"{}")
        return a

    r, mat, _, _ = run(srv, client, suite, [op], rewrite=rewrite)
    if level is None and extent is None:
        raise Discard()
    if r.ok() or reported(r, op).ok():
        raise Violation(f"{op} of {suite.split('/')[-2]} passes although the server fails for level={level}, extent={extent} (asked: {met[0]})", r.to_dict())
    return Case((suite, op, level, extent, bad[0], json.dumps(srv.submodels[0], sort_keys=True)), True, [f"{op}:{level}:{extent}"], f"{op}: level={level}, extent={extent}")


BY_ID = ["GetSubmodelById", "GetSubmodelById-Metadata", "GetSubmodelById-ValueOnly", "GetSubmodelById-Reference", "GetSubmodelById-Path"]
SHELL_BY_ID = ["GetAssetAdministrationShellById", "GetAssetAdministrationShellById-Reference"]
# the parameters with a restricted form and the operations which have them
PARAMETERS = {
    "limit": PAGED,
    "assetIds": ["GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference"],
    "shells/": SHELL_BY_ID,
    "submodels/": BY_ID,
    "level": ["GetSubmodelById", "GetSubmodelById-ValueOnly", "GetSubmodelById-Path", "GetSubmodelElementByPath-Path"] + LEVEL_AND_EXTENT + LEVEL,
    "extent": ["GetSubmodelById", "GetSubmodelById-ValueOnly"] + LEVEL_AND_EXTENT,
    "aasIds": ["GenerateSerializationByIds"],
    "submodelIds": ["GenerateSerializationByIds"],
    "includeConceptDescriptions": ["GenerateSerializationByIds"],
}


def is_malformed(param, value):
    if param == "limit":
        return not (value.isascii() and value.isdigit())
    if param == "level":
        return value not in ("core", "deep")
    if param == "extent":
        return value not in ("withBlobValue", "withoutBlobValue")
    if param == "includeConceptDescriptions":
        return value not in ("true", "false")
    try:
        server.b64url_decode(value)
        return False
    except server.Bad:
        return True


def lenient(src, index):
    """a server that answers as if a malformed parameter had not been given, or were that of an existing entity"""
    cases = [(s, o, p) for s in server.SUITES for p, ops in PARAMETERS.items() for o in ops if o in server.OPERATIONS[s]]
    suite, op, param = cases[index % len(cases)]
    srv, client = make(src, suite, True, rich=True, budget=5)
    met = []  # the states of the answers to malformed requests

    def rewrite(url, a):
        u = urlsplit(url)
        if param.endswith("/"):
            segs = u.path.split("/")
            for i in range(len(segs) - 1):
                if segs[i] == param[:-1] and is_malformed(param, unquote(segs[i + 1])) and a[0] != 200:
                    pool = srv.shells if param == "shells/" else srv.submodels
                    segs[i + 1] = base64.urlsafe_b64encode(pool[src.draw(len(pool) - 1)]["id"].encode()).decode().rstrip("=")
                    a = srv.answer(urlunsplit(u._replace(path="/".join(segs))))
                    met.append(a[0])
                    return a
            return a
        q = parse_qsl(u.query, keep_blank_values=True)
        if any(k == param and is_malformed(k, v) for k, v in q):
            a = srv.answer(urlunsplit(u._replace(query=urlencode([(k, v) for k, v in q if k != param]))))
            met.append(a[0])
        return a

    r, mat, _, _ = run(srv, client, suite, [op], rewrite=rewrite)
    if met and 200 not in met:
        raise Discard()  # refused for another reason, e.g. no value of this kind of element
    if r.ok() or reported(r, op).ok():
        raise Violation(f"{op} of {suite.split('/')[-2]} passes although the server accepts a malformed {param} (it was tried: {bool(met)})", r.to_dict())
    check_counts(r, mat)
    return Case((suite, op, param, json.dumps(srv.submodels[0], sort_keys=True)), True, [f"{op}:{param}"], f"{op}: malformed {param} accepted")


CHECK = Check(
    "C18",
    [
        Group("single", single, 300, 8000),
        Group("every", every, 89, 89 * 25),
        Group("isolation", isolation, 48, 1600),
        Group("counts", chaos_counts, 160, 4000),
        Group("persistent", persistent, 33 * 5, 33 * 100),
        Group("modifiers", modifiers, 20 * 9, 20 * 90),
        Group("lenient", lenient, 111 * 2, 111 * 40),
    ],
    rule="a conforming server over a generated population in which one answer (any request of any operation), one class of answers or a random subset is replaced by a deviation; every case contains at least one deviation the tool met; distinct by suite, deviation and population",
    assumptions=[
        "the answer to an attachment or thumbnail request may be anything with status 200 or 404; value-only content and the metadata of single elements may be any JSON object or array",
        "a wrong number of entries is required to be noticed for the operations with pagination, another entity for the requests by identifier",
    ],
)
