"""C19: server checks survive arbitrary server behaviour"""
import copy
import json
import socket
import threading

import requests

import meta
import server
from checks.c17 import make
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, file, http

JSON = "application/json"
ERRORS = [
    requests.exceptions.ConnectionError, requests.exceptions.ConnectTimeout, requests.exceptions.ReadTimeout, requests.exceptions.SSLError,
    requests.exceptions.ProxyError, requests.exceptions.ChunkedEncodingError, requests.exceptions.ContentDecodingError, requests.exceptions.TooManyRedirects,
    requests.exceptions.InvalidURL, requests.exceptions.InvalidHeader, requests.exceptions.RetryError, requests.exceptions.InvalidSchema,
]
STATUS = [200, 200, 200, 200, 201, 204, 206, 304, 400, 401, 403, 404, 405, 418, 429, 500, 501, 503, 599, 999, 100, 0]
RAW = [
    b"", b"null", b"true", b"0", b'""', b"[]", b"{}", b"NaN", b"Infinity", b"-", b"1e999", b"{", b"\xff\xfe", b"\x00" * 50, b"\xef\xbb\xbf{}", b"<html/>", b'"\\ud800"', b'{"\\udfff": 1}',
    b"[" * 3000 + b"]" * 3000, b"[" * 200000, b'{"a":' * 3000 + b"1" + b"}" * 3000, b"9" * 5000, b'{"result": ' + b"9" * 5000 + b"}", b'{"a": 1, "a": 2}', b"'", b"\n", b"{}" * 2,
    "ä".encode("latin-1"), '{"messages": "ä"}'.encode("utf-16"), b'{"result": [null], "paging_metadata": {}}', b'{"result": null, "paging_metadata": null}',
    b'{"result": [[]], "paging_metadata": {"cursor": ""}}', b'{"result": [{}], "paging_metadata": {}}', b'{"keys": []}', b'{"result": [], "paging_metadata": {}}', b'{"profiles": []}',
    b'{"result": {"a": 1}, "paging_metadata": {}}', b'{"paging_metadata": {"cursor": "x"}, "result": ["a", "b"]}', b'{"messages": [{"messageType": null}]}',
]
CTYPES = ["", JSON, JSON + "; charset=utf-8", JSON + "; charset=foo", "text/html; charset=utf-16", "image/png", ";;", "application/json; charset=\"", "text/plain; charset=rot13", "x" * 300, "text/plain; charset=idna"]
LOCATIONS = ["", "/", "?", "#", "//", "http://", "http://[", "http://[::1", "http://localhost:99999", "http://localhost:x/", "/a/%zz", "http:///x", "ftp://x/", "mailto:a", "\\", "http://ä.example/", "http://.example/", "http://" + "a" * 300 + "/", "http://a..b/", "//[", "http://xn--a/", "https://*", "http://user:pw@h/"]
JUNK = [None, True, 0, -1, 1.5, "", "x", [], {}, [[]], [{}], {"": None}, "\ud800", 10**400, [None], {"modelType": "Submodel"}, {"modelType": []}, {"modelType": "Property"}, "a" * 5000, {"id": 1}, {"keys": []}, {"keys": [{}]}]


def nodes(v, path=()):
    out = [path]
    if isinstance(v, dict):
        for k in v:
            out += nodes(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            out += nodes(x, path + (i,))
    return out


def deep(src, v):
    n = src.pick([50, 300, 900, 1500])
    how = src.draw(2)
    for _ in range(n):
        v = [v] if how == 0 else {"a": v} if how == 1 else {"modelType": "SubmodelElementCollection", "idShort": "a", "value": [v]}
    return v


def distort(src, data):
    """a JSON value near to the given one"""
    data = copy.deepcopy(data)
    for _ in range(src.size(1, 3, 0.3)):
        path = src.pick(nodes(data))
        parent, key = None, None
        node = data
        for p in path:
            parent, key, node = node, p, node[p]
        how = src.draw(6)
        if how <= 2:
            new = copy.deepcopy(src.pick(JUNK))
        elif how == 3:
            if isinstance(parent, dict):
                del parent[key]
                continue
            if isinstance(parent, list):
                parent.pop(key)
                continue
            new = {}
        elif how == 4:
            new = src.pick([[node], {"x": node}, [node, copy.deepcopy(node)]])
        elif how == 5:
            if isinstance(node, list):
                new = node[:0] if src.bool() else node + copy.deepcopy(node)
            elif isinstance(node, dict) and node:
                new = {k: v for k, v in node.items() if src.bool()}
            else:
                new = str(node)
        else:
            new = deep(src, node)
        if parent is None:
            data = new
        else:
            parent[key] = new
        if how > 5:
            break  # too deep to go on
    return data


def dump(v):
    """JSON text of deep values, too"""
    out = []
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, _Text):
            out.append(x.text)
        elif isinstance(x, dict):
            stack.append(_Text("}"))
            items = list(x.items())
            for i in range(len(items) - 1, -1, -1):
                k, val = items[i]
                stack.append(val)
                stack.append(_Text(("," if i else "") + json.dumps(k) + ":"))
            stack.append(_Text("{"))
        elif isinstance(x, list):
            stack.append(_Text("]"))
            for i in range(len(x) - 1, -1, -1):
                stack.append(x[i])
                if i:
                    stack.append(_Text(","))
            stack.append(_Text("["))
        else:
            out.append(json.dumps(x))
    return "".join(out).encode()


class _Text:
    def __init__(self, text):
        self.text = text


def misbehave(src, req, right):
    """-> (label, answer or exception)"""
    status, ctype, body = right
    k = src.weighted([(4, "distort"), (3, "raw"), (3, "error"), (2, "status"), (2, "bytes"), (1, "redirect"), (1, "headers")])
    if k == "error":
        e = src.pick(ERRORS)
        return k, e("injected")
    if k == "status":
        return k, (src.pick(STATUS), ctype, src.pick([body, b"", b"{}"]))
    if k == "raw":
        return k, (src.pick(STATUS), src.pick(CTYPES), src.pick(RAW))
    if k == "bytes":
        b = bytearray(body)
        for _ in range(src.size(1, 4)):
            if b:
                i = src.draw(len(b) - 1)
                how = src.draw(2)
                if how == 0:
                    b[i] = src.draw(255)
                elif how == 1:
                    del b[i:]
                else:
                    b[i:i] = bytes([src.draw(255)])
        return k, (status, src.pick(CTYPES), bytes(b))
    if k == "redirect":
        return k, server.make_response(req, src.pick([301, 302, 303, 307, 308]), JSON, b"", {"Location": src.pick(LOCATIONS)})
    if k == "headers":
        r = server.make_response(req, status, src.pick(CTYPES), body, {"Set-Cookie": "a=b; Expires=x", "Content-Length": "x", "Content-Encoding": "gzip", "Link": "<>"})
        return k, r
    try:
        data = json.loads(body)
    except ValueError:
        data = {}
    return k, (src.pick([status, status, status, 200, 400]), ctype, dump(distort(src, data)))


def execute(answer, client, suite, **kw):
    with server.network(answer) as calls:
        r, mat = sut(api.execute_tests, client, config.CheckApiConfig(suite, **kw))
    return r, mat, calls


def plan(client, suite):
    r, _ = api.execute_tests(client, config.CheckApiConfig(suite, dry=True))
    return [o for o, _ in server.operations(r)]


def use(result):
    """the result can be used"""
    sut(result.to_dict)
    sut(result.to_html)
    sut(result.to_lines)
    sut(result.ok)


def chaos(src, index):
    """each request meets its own misbehaviour with some probability"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, rich=src.bool(0.3), budget=src.pick([2, 6]))
    p = src.pick([0.03, 0.2, 0.6, 1.0])
    spare_first = src.bool(0.7)
    labels = set()
    first_failed = [False]

    def answer(n, req):
        right = srv.answer(req.url)
        if (n == 0 and spare_first) or not src.bool(p):
            return right
        label, bad = misbehave(src, req, right)
        labels.add(label)
        if isinstance(bad, Exception):
            if n == 0:
                first_failed[0] = True
            raise bad
        return bad

    before = file.check_json_data({"submodels": srv.submodels}).to_dict()
    ops = plan(client, suite)
    r, mat, calls = execute(answer, client, suite)
    use(r)
    got = [o for o, _ in server.operations(r)]
    if first_failed[0]:
        if r.level.name != "CRITICAL" or got:
            raise Violation(f"server cannot be reached, but the level is {r.level} and {got} are tested", r.to_dict())
        labels.add("unreachable")
    elif got != ops and (got or r.level.name != "CRITICAL"):
        raise Violation(f"tested operations: {got}, expected all of {ops}", r.to_dict())
    # nothing is left behind
    after, _, _ = execute(lambda n, req: srv.answer(req.url), client, suite)
    fresh, _, _ = execute(lambda n, req: srv.answer(req.url), http.HttpClient(client.host, client.verify, client.remove_path_prefix, client.additional_headers), suite)
    if after.to_dict() != fresh.to_dict() or (index % 3 == 0 and not after.ok()):
        raise Violation("a later check of a conforming server is affected", after.to_dict())
    if file.check_json_data({"submodels": srv.submodels}).to_dict() != before:
        raise Violation("a later check of a file is affected")
    return Case((suite, p, tuple(c.status for c in calls), json.dumps(srv.submodels[0], sort_keys=True)), bool(labels), sorted(labels), {"requests": len(calls), "behaviour": sorted(labels)})


def outage(src, index):
    """one operation meets misbehaviour, at one or all of its requests; the others are reported as without it"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, rich=src.bool(0.3), budget=3)
    base, mat, calls = execute(lambda n, req: srv.answer(req.url), client, suite)
    if not base.ok():
        raise Discard()
    names = [o for o, _ in server.operations(base)]
    op = src.pick(names)
    conf = config.TestCaseFilter(op)
    _, _, solo = execute(lambda n, req: srv.answer(req.url), client, suite, filter=conf)
    start = 1
    for o in names:
        if o == op:
            break
        start += len(execute(lambda n, req: srv.answer(req.url), client, suite, filter=config.TestCaseFilter(o))[2]) - 1
    size = len(solo) - 1
    if [c.url for c in calls[start : start + size]] != [c.url for c in solo[1:]] or not size:
        raise Discard()
    at = start + src.draw(size - 1)
    kind = [None]

    def answer(n, req):
        right = srv.answer(req.url)
        if n != at:
            return right
        kind[0], bad = misbehave(src, req, right)
        if isinstance(bad, Exception):
            raise bad
        return bad

    r, mat2, calls2 = execute(answer, client, suite)
    use(r)
    a, b = server.operations(base), server.operations(r)
    if [o for o, _ in a] != [o for o, _ in b]:
        raise Violation(f"{kind[0]} during {op}: tested are {[o for o, _ in b]}", r.to_dict())
    for (o, x), (_, y) in zip(a, b):
        if o != op and x.to_dict() != y.to_dict():
            raise Violation(f"{kind[0]} during {op} changes the report of {o}", y.to_dict())
    if kind[0] == "error" and reported(b, op).ok():
        raise Violation(f"the connection failed during {op}, but it is reported as passed")
    return Case((suite, op, at - start, kind[0], json.dumps(srv.submodels[0], sort_keys=True)), True, [kind[0], "op:" + op], {"operation": op, "request": at - start, "behaviour": kind[0]})


def reported(ops, op):
    return next(x for o, x in ops if o == op)


def minimal(src, index):
    """compliant but minimal or empty data"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, budget=1)
    labels = []

    def thin(l, keep):
        return l[:keep]

    if src.bool():
        srv.shells[:] = thin(srv.shells, src.draw(1))
        labels.append(f"{len(srv.shells)} shells")
    if src.bool():
        srv.submodels[:] = thin(srv.submodels, src.draw(1))
        labels.append(f"{len(srv.submodels)} submodels")
    for sh in srv.shells:
        if src.bool():
            sh.pop("submodels", None)
            labels.append("no references")
        if src.bool():
            sh.pop("idShort", None)
        if src.bool(0.3):
            sh["assetInformation"] = {"assetKind": "Instance", **src.pick([{"globalAssetId": "x"}, {"specificAssetIds": [{"name": "a", "value": "b"}]}])}
    for sm in srv.submodels:
        if src.bool(0.4):
            sm.pop("submodelElements", None)
            labels.append("no elements")
        elif src.bool(0.4):
            sm["submodelElements"] = [src.pick([
                {"modelType": "SubmodelElementCollection", "idShort": "c"},
                {"modelType": "SubmodelElementList", "idShort": "l", "typeValueListElement": "Capability"},
                {"modelType": "Entity", "idShort": "e", "entityType": "CoManagedEntity"},
                {"modelType": "Operation", "idShort": "o"},
                {"modelType": "Capability", "idShort": "o"},
                {"modelType": "Property", "idShort": "p", "valueType": "xs:int"},
                {"modelType": "SubmodelElementList", "idShort": "l", "typeValueListElement": "Property", "valueTypeListElement": "xs:int", "value": [{"modelType": "Property", "valueType": "xs:int"}]},
            ])]
            labels.append("one element")
    ops = plan(client, suite)

    def answer(n, req):
        try:
            return srv.answer(req.url)
        except (StopIteration, IndexError):
            return 404, JSON, b'{"messages": []}'

    r, mat, calls = execute(answer, client, suite)
    use(r)
    got = [o for o, _ in server.operations(r)]
    if got != ops:
        raise Violation(f"tested operations: {got}, expected {ops}", r.to_dict())
    return Case((suite, tuple(c.status for c in calls), json.dumps([srv.shells, srv.submodels], sort_keys=True)), bool(labels), labels, {"suite": suite.split("/")[-2], "thinned": labels})


# ------------------------------------------------------------------ real sockets

HEAD = b"HTTP/1.1 200 OK\r\n"
WIRE = [
    b"", b"\r\n", b"garbage\r\n\r\n", b"HTTP/1.1\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n", b"HTTP/9.9 200 OK\r\n\r\n{}", b"HTTP/1.1 99999 X\r\n\r\n", b"SSH-2.0-x\r\n", b"\x15\x03\x01\x00\x02\x02\x46",
    HEAD, HEAD + b"\r\n", HEAD + b"Content-Length: 100\r\n\r\n{}", HEAD + b"Content-Length: -1\r\n\r\n{}", HEAD + b"Content-Length: abc\r\n\r\n{}",
    HEAD + b"Transfer-Encoding: chunked\r\n\r\nzz\r\n", HEAD + b"Transfer-Encoding: chunked\r\n\r\n5\r\nab", HEAD + b"Transfer-Encoding: chunked\r\n\r\n-1\r\n",
    HEAD + b"Content-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc", HEAD + b"Content-Encoding: deflate\r\nContent-Length: 3\r\n\r\nabc",
    HEAD + b"Content-Type: application/json; charset=\xff\r\nContent-Length: 2\r\n\r\n{}", HEAD + b"no colon here\r\n\r\n{}", HEAD + b": x\r\n\r\n{}", HEAD + b"A: " + b"x" * 70000 + b"\r\n\r\n",
    HEAD + b"".join(b"H%d: x\r\n" % i for i in range(300)) + b"\r\n{}", b"HTTP/1.1 200 \xff\xfe\r\nContent-Length: 2\r\n\r\n{}", b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 204 No Content\r\n\r\n{}",
    b"HTTP/1.1 302 X\r\nConnection: close\r\nLocation: \xff\xfe\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 302 X\r\nConnection: close\r\nLocation: http://[\r\nContent-Length: 0\r\n\r\n",
    b"HTTP/1.1 302 X\r\nConnection: close\r\nLocation: /\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 401 X\r\nWWW-Authenticate: Digest x\r\nContent-Length: 0\r\n\r\n",
    HEAD + b"Set-Cookie: \xff=\xfe; domain=..\r\nContent-Length: 2\r\n\r\n{}", b"HTTP/1.0 200\r\n\r\n{}", b"HTTP/0.9 200 OK\r\n\r\n", b"{}", b"<html>",
    b"HTTP/1.1 407 X\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 000 X\r\nContent-Length: 0\r\n\r\n",
]


class Wire:
    """a raw TCP server on the loopback interface which answers with given bytes and closes the connection"""

    def __init__(self, answers):
        self.answers = answers
        self.n = 0
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.stopped = False

    def __enter__(self):
        self.thread.start()
        return self

    def __exit__(self, *_):
        self.stopped = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        self.thread.join(5)

    def loop(self):
        while not self.stopped:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            try:
                c.settimeout(5)
                data = b""
                while b"\r\n\r\n" not in data:
                    x = c.recv(65536)
                    if not x:
                        break
                    data += x
                a = self.answers[self.n % len(self.answers)]
                self.n += 1
                c.sendall(a)
                c.shutdown(socket.SHUT_WR)
                while c.recv(65536):
                    pass
            except OSError:
                pass
            finally:
                c.close()


OK = b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 2\r\nConnection: close\r\n\r\n{}"


def wire(src, index):
    """malformed HTTP over a real connection"""
    suite = server.SUITES[index % 4]
    first_ok = src.bool(0.6)
    answers = [src.pick(WIRE) for _ in range(src.int(1, 4))]
    if first_ok:
        answers.append(OK)
    with Wire(([OK] if first_ok else []) + answers) as w:
        client = http.HttpClient(f"http://127.0.0.1:{w.port}")
        ops = plan(client, suite)
        r, mat = sut(api.execute_tests, client, config.CheckApiConfig(suite))
    use(r)
    got = [o for o, _ in server.operations(r)]
    if first_ok and got != ops:
        raise Violation(f"tested operations: {got}, expected all of {ops}", {"answers": [repr(a[:100]) for a in answers], "report": r.to_dict()})
    if r.ok():
        raise Violation("the result is ok although the server answers no operation", {"answers": [repr(a[:100]) for a in answers], "report": r.to_dict()})
    if not got and r.level.name != "CRITICAL":
        raise Violation(f"nothing was tested, but the level is {r.level}")
    return Case((suite, first_ok, tuple(answers)), True, ["reached" if got else "unreachable"], [repr(a[:60]) for a in answers])


def closed(src, index):
    """nobody listens"""
    suite = server.SUITES[index % 4]
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    host = src.pick([f"http://127.0.0.1:{port}", f"https://127.0.0.1:{port}/x", "localhost", "", "foo://x", "http://", "http://[", "http://localhost:999999", "http://a..b", "http://\ud800", "http://" + "a" * 70, "http://x y", "https://.", "//", "http://localhost:abc", "http://*", "http://%", "http://[::1", "http://xn--"])
    try:
        if host.count(str(port)) == 0 and not any(c in host for c in ("[", "a..b", "999999", "abc", "\ud800")) and host not in ("localhost", "", "foo://x", "http://", "//"):
            # would need a name server
            with server.network(_refuse):
                r, mat = sut(api.execute_tests, http.HttpClient(host), config.CheckApiConfig(suite))
        else:
            r, mat = sut(api.execute_tests, http.HttpClient(host), config.CheckApiConfig(suite))
    finally:
        s.close()
    use(r)
    if r.level.name != "CRITICAL" or server.operations(r):
        raise Violation(f"host {host!r}: level {r.level}, tested {[o for o, _ in server.operations(r)]}", r.to_dict())
    return Case((suite, host.replace(str(port), "PORT")), True, [repr(host.replace(str(port), "PORT"))], host)


def _refuse(n, req):
    raise requests.exceptions.ConnectionError("refused")


CHECK = Check(
    "C19",
    [
        Group("chaos", chaos, 240, 8000),
        Group("outage", outage, 120, 4000),
        Group("minimal", minimal, 240, 6000),
        Group("wire", wire, 64, 2500),
        Group("closed", closed, 80, 1500),
    ],
    rule="a run of a suite in which some or all answers of the reference server are replaced by connection failures, arbitrary status codes, content types, redirects, bytes, distorted or deeply nested JSON, or malformed HTTP on a real socket, or over minimal and empty data; non-trivial if at least one answer was replaced or data was taken away; distinct by suite, answers and population",
    assumptions=["failures of the connection reach the tool as exceptions of the requests library or are produced by a real socket", "servers which never answer are not part of the property (no deadline is promised)"],
)
