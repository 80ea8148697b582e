"""C20: requests are sent exactly as composed"""
import base64
import copy
import json
import os
from urllib.parse import parse_qsl, unquote, urlsplit

import requests

import lex
import server
from checks.c17 import make
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, http
from aas_test_engines.data_types import base64_urlsafe

SEGMENT = "abAZ019-_.~$()!*',;=:@ äß€"
QUERY_CHARS = "abAZ019-_.~ +&=#?/%äß€😀\"'<>[]{}:;,\n\t"
HEADER_VALUE = "abAZ019 -_:;,=/\"'()"
OWN_HEADERS = {"user-agent", "accept", "accept-encoding", "connection", "content-length", "content-type", "host"}


LENGTHS = [63, 64, 255, 256, 1000, 2048, 2999]


def gen_host(src):
    scheme = src.pick(["http", "https"])
    host = src.pick(["localhost", "127.0.0.1", "example.org", "[::1]", "a.b.example.com"])
    port = src.pick(["", ":8080", ":81", ":65535"])
    base = src.pick(["", "", "/base", "/a/b", "/v3.0", "/aas"])
    return f"{scheme}://{host}{port}", base, src.bool(0.3)


def gen_segment(src):
    if src.bool(0.5):
        return src.pick(["shells", "submodels", "aas", "submodel", "$value", "$metadata", "submodel-elements", "a", "b", "ab"])
    s = src.chars(SEGMENT, 1, 6)
    s = s if s.strip(".") and s.strip(" ") == s else "s" + s.strip() + "s"
    return s + "x" * src.pick(LENGTHS) if src.bool(0.03) else s  # such as encoded identifiers


def gen_path(src, lo=0):
    return "".join("/" + gen_segment(src) for _ in range(src.size(lo, 4, 0.6)))


def gen_query(src):
    out = {}
    for _ in range(src.size(0, 4, 0.5)):
        k = src.pick(["limit", "cursor", "level", "extent", "idShort", "assetIds", "x y", "ä", "a&b", "q"])
        out[k] = src.weighted([(4, "text"), (2, "none"), (1, "empty"), (2, "number"), (2, "bool")])
        if out[k] == "text":
            out[k] = src.chars(QUERY_CHARS, 1, 10)
            if src.bool(0.08):
                out[k] = (out[k] * 3000)[: src.pick(LENGTHS)]  # such as cursors and asset identifiers
        elif out[k] == "none":
            out[k] = None
        elif out[k] == "empty":
            out[k] = ""
        elif out[k] == "number":
            out[k] = src.pick([0, 1, -1, 10**20, 1.5])
        else:
            out[k] = src.bool()
    return out


def gen_json(src, depth=0):
    k = src.draw(8 if depth < 3 else 6)
    if k == 0:
        return {}
    if k == 1:
        return []
    if k == 2:
        return src.pick([0, False, "", 0.0])
    if k == 3:
        return src.pick([True, 1, -5, 2**70, 1e300])
    if k in (4, 5, 6):
        s = src.chars(QUERY_CHARS + "\\\x00\x7f\ud7ff", 1, 8)
        return s * src.pick([100, 1000, 10000]) if src.bool(0.03) else s
    if k == 7:
        return [gen_json(src, depth + 1) for _ in range(src.size(0, 3))]
    return {src.chars("abäé\"", 0, 3): gen_json(src, depth + 1) if src.bool(0.8) else None for _ in range(src.size(0, 3))}


def gen_headers(src, names):
    out = {}
    for n in names:
        if src.bool(0.4):
            out[n] = (src.chars(HEADER_VALUE, 0, 8) * (src.pick([50, 300]) if src.bool(0.05) else 1)).strip()
    return out


def strip_prefix(path, prefix):
    if prefix and (path == prefix or path.startswith(prefix + "/")):
        return path[len(prefix) :]
    return path


def value_text(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


def verify_call(call, host, base, path, q, method, body, headers, verify, bundle=None):
    u = urlsplit(call.url)
    if f"{u.scheme}://{u.netloc}" != host:
        raise Violation(f"request to {u.scheme}://{u.netloc} instead of {host}")
    want = (base + path) or "/"
    got = [unquote(x) for x in u.path.split("/")]
    if got != want.split("/"):
        raise Violation(f"request path is {u.path!r} ({got}), expected {want!r}")
    pairs = parse_qsl(u.query, keep_blank_values=True, strict_parsing=bool(u.query))
    expect = [(k, value_text(v)) for k, v in q.items() if v is not None]
    if sorted(pairs) != sorted(expect):
        raise Violation(f"query {u.query!r} decodes to {pairs}, expected {expect}")
    if u.fragment:
        raise Violation(f"URL has a fragment: {call.url}")
    if call.method != method.upper():
        raise Violation(f"method is {call.method}, expected {method}")
    if body is None:
        if call.body:
            raise Violation(f"body {call.body!r} sent for a request without one")
    else:
        try:
            sent = json.loads(call.body)
        except (TypeError, ValueError):
            raise Violation(f"body {body!r} is sent as {call.body!r}")
        if not same(sent, body):
            raise Violation(f"body {body!r} is sent as {call.body!r}")
    got = {k.lower(): v for k, v in call.headers.items()}
    for k, v in headers.items():
        g = got.get(k.lower())
        if isinstance(g, bytes):
            g = g.decode("latin-1")
        if g != v:
            raise Violation(f"header {k}: {v!r} is sent as {g!r}")
    extra = set(got) - {k.lower() for k in headers} - OWN_HEADERS
    if extra:
        raise Violation(f"further headers are sent: {sorted(extra)}")
    if call.verify is not verify and not (verify is True and bundle and call.verify == bundle):
        raise Violation(f"verify is {call.verify!r}, expected {verify}")


def same(a, b):
    return type(a) is type(b) and json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


CLIENT_HEADERS = ["Authorization", "X-Api-Key", "Cookie", "Accept-Language", "x-lower"]
REQUEST_HEADERS = ["content-type", "If-Match", "X-Other", "Accept"]


class Marked(http.HttpClient):
    """a client of the user's own class"""

    def send(self, request):
        r = super().send(request)
        r.marked = True
        return r


STATUSES = [200, 404, 500, 503, 201, 204, 400, 401, 403, 408, 425, 429, 502, 504, 520, 599, 300, 304]


def gen_answer(src):
    return src.pick(STATUSES) if src.bool(0.8) else src.pick(["refused", "timeout", "ssl"])


FAILURES = {
    "refused": requests.exceptions.ConnectionError,
    "timeout": requests.exceptions.ReadTimeout,
    "ssl": requests.exceptions.SSLError,
}


def transmit(client, req, src):
    """send over a stand-in of the network -> (calls, response or None)"""
    ending = gen_answer(src)
    later = src.pick([200, 500])  # were the request repeated

    def answer(n, r):
        a = ending if n == 0 else later
        if a in FAILURES:
            raise FAILURES[a]("injected")
        return a, "application/json", b"{}"

    with server.network(answer) as calls:
        if ending in FAILURES:
            try:
                client.send(req)
            except Exception:
                return calls, None
            if len(calls) == 1:
                raise Violation(f"the failure of the connection ({ending}) is not reported")
            return calls, None
        resp = sut(client.send, req)
    if resp.status_code != ending and len(calls) == 1:
        raise Violation("the response is not that of the server")
    return calls, resp


def transmit_wire(client, req, src, origin):
    """send to a real server on the loopback interface"""
    wire = server.Wire.get()
    ending = src.pick(STATUSES) if src.bool(0.9) else None
    later = src.pick([200, 500])
    headers = {"Content-Type": "application/json"}
    if src.bool():
        headers["Set-Cookie"] = "sid=%d; Path=/" % src.draw(9)
    if src.bool(0.3):
        headers["Retry-After"] = "0"
    wire.calls.clear()
    wire.plan = lambda n: None if n == 0 and ending is None else (ending if n == 0 else later, headers, b"{}")
    resp = None
    if ending is None:
        try:
            client.send(req)
            if len(wire.calls) == 1:
                raise Violation("a connection closed without an answer is not reported")
        except requests.exceptions.RequestException:
            pass
    else:
        resp = sut(client.send, req)
    calls = list(wire.calls)
    for c in calls:
        c.url = origin + c.url
        c.verify = None
    if resp is not None and len(calls) == 1 and resp.status_code != ending:
        raise Violation("the response is not that of the server")
    return calls, resp


def wire(src, index):
    """the same over real sockets, which also shows repetitions and state below the level of the requests library"""
    return history(src, index, True)


def history(src, index, over_wire=False):
    """a tree of derived clients and a sequence of requests through them, against what each request was composed of"""
    host, base, slash = gen_host(src)
    if over_wire:
        host = f"http://{src.pick(['127.0.0.1', 'localhost'])}:{server.Wire.get().port}"
    verify = src.bool()
    extra = gen_headers(src, CLIENT_HEADERS)
    removed = src.weighted([(2, "none"), (3, "some")])
    prefixes_pool = [gen_path(src, 1) for _ in range(3)] + ["/aas", "/submodel", "", "/shells/YWJj", "/aas/", "/Aas"]
    if removed == "none":
        removed = ""
    else:
        removed = src.pick(prefixes_pool[:3] + ["/aas", "/a", "/submodel"]) or "/a"
        if src.bool(0.3):
            removed += src.pick(prefixes_pool[:2])
    cls = Marked if src.bool(0.3) else http.HttpClient
    kw = {}
    if verify or src.bool():
        kw["verify"] = verify
    if removed or src.bool():
        kw["remove_path_prefix"] = removed
    given = dict(extra)
    if extra or src.bool():
        kw["additional_headers"] = given
    root = cls(host + base + ("/" if slash else ""), **kw)
    clients = [(root, "")]
    reqs = []
    out = []
    labels = set()
    bundle = None
    if not over_wire and src.bool(0.2):
        # certificates configured on this machine: an explicit verify=False stays in force
        bundle = "/certs/bundle.pem"
        labels.add("CA bundle in the environment")
    steps = src.size(1, 8, 0.8)
    if src.bool(0.05):
        # a long chain of derived clients
        chain, prefix = root, ""
        for _ in range(src.pick([5, 20, 60])):
            p = src.pick(prefixes_pool)
            chain, prefix = sut(chain.descend, p), prefix + p
            if not callable(getattr(chain, "send", None)):
                raise Violation(f"descend on a {cls.__name__} gives {chain!r}")
            clients.append((chain, prefix))
        labels.add("long chain")
    for step in range(steps):
        client, prefix = src.pick(clients)
        if src.bool(0.35):
            p = src.pick(prefixes_pool)
            child = sut(client.descend, p)
            if not callable(getattr(child, "send", None)):
                raise Violation(f"descend on a {cls.__name__} gives {child!r}")
            clients.append((child, prefix + p))
            labels.add("descend")
            continue
        if reqs and src.bool(0.2):
            req, path, q, method, body, headers = src.pick(reqs)  # the same request object again
            labels.add("request reused")
        else:
            path = gen_path(src)
            q = gen_query(src)
            method = src.pick(["get", "get", "GET", "post", "put", "delete", "patch", "head", "options", "Post", "PATCH"])
            body = None if src.bool(0.4) else gen_json(src)
            headers = gen_headers(src, REQUEST_HEADERS)
            kw = {}
            if method != "get":
                kw["method"] = method
            if body is not None:
                kw["body"] = copy.deepcopy(body)
            if q or src.bool():
                kw["query_parameters"] = dict(q)
            if headers or src.bool():
                kw["headers"] = dict(headers)
            req = http.Request(path, **kw)
            reqs.append((req, path, q, method, body, headers))
        full = prefix + path
        if removed and full == removed and any(v is not None for v in q.values()):
            raise Discard()  # the prefix is followed by the query: undecided
        if over_wire and not base and strip_prefix(full, removed).startswith("//"):
            raise Discard()  # the HTTP library shortens slashes at the start of a path
        if bundle:
            os.environ["REQUESTS_CA_BUNDLE"] = bundle
        try:
            calls, resp = transmit_wire(client, req, src, host) if over_wire else transmit(client, req, src)
        finally:
            os.environ.pop("REQUESTS_CA_BUNDLE", None)
        if len(calls) != 1:
            raise Violation(f"{len(calls)} requests were sent for one")
        if over_wire and calls[0].repeated:
            raise Violation(f"a header is sent twice: {calls[0].headers}")
        if resp is not None and cls is Marked and not getattr(resp, "marked", False):
            raise Violation("a derived client lost the class of its parent")
        expect = strip_prefix(full, removed)
        if removed and expect != full:
            labels.add("prefix removed")
        elif removed and full.startswith(removed):
            labels.add("prefix kept (part of a segment)")
        verify_call(calls[0], host, base, expect, q, method, body, {**extra, **headers}, None if over_wire else verify, bundle)
        out.append((method, full, repr(q), repr(body), repr(sorted(headers))))
        if body is not None and not body:
            labels.add("falsy body")
        if any(v is not None and not v for v in q.values()):
            labels.add("falsy query value")
    if not out:
        raise Discard()
    if given != extra:
        raise Violation(f"the headers given by the user were changed to {given}")
    return Case(("" if over_wire else host, base, removed, tuple(out)), True, sorted(labels), {"host": root.host, "remove": removed, "requests": [o[1] for o in out][:3]})


def identifiers(src, index):
    """base64_urlsafe"""
    s = "".join(src.pick(["a", "/", "+", "?", ">", "~", "ÿ", "ä", "€", "😀", "\n", " ", "=", ":", "urn:", "https://", "\x00", "�", "é", "e", "\u0301", "K", "\u212a", "\u037e", "\uff21", "\u200b", "\ufeff"]) for _ in range(src.size(0, 12, 0.85)))
    t = sut(base64_urlsafe, s)
    if not isinstance(t, str) or any(c not in lex.ALNUM + "-_" for c in t):
        raise Violation(f"{s!r} is encoded as {t!r}")
    if len(t) % 4 == 1 or base64.urlsafe_b64decode(t + "=" * (-len(t) % 4)) != s.encode():
        raise Violation(f"{s!r} is encoded as {t!r}, which does not decode to it")
    return Case(s, len(s) > 0, [f"len%3={len(s.encode()) % 3}"], s)


def b64_id(seg):
    try:
        if len(seg) % 4 == 1 or any(c not in lex.ALNUM + "-_" for c in seg):
            return None
        return base64.urlsafe_b64decode(seg + "=" * (-len(seg) % 4)).decode()
    except ValueError:
        return None


def runs(src, index):
    """requests of server checks: settings and identifiers"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, budget=4)
    extra = gen_headers(src, CLIENT_HEADERS)
    client = http.HttpClient(client.host, verify=client.verify, remove_path_prefix=client.remove_path_prefix, additional_headers=extra)
    with server.network(lambda n, r: srv.answer(r.url)) as calls:
        sut(api.execute_tests, client, config.CheckApiConfig(suite))
    ids = {x["id"] for x in srv.shells + srv.submodels}
    host = urlsplit(client.host)
    base = host.path.rstrip("/")
    seen = 0
    for c in calls:
        u = urlsplit(c.url)
        if (u.scheme, u.netloc) != (host.scheme, host.netloc) or not unquote(u.path).startswith(unquote(base)):
            raise Violation(f"request to {c.url} with host {client.host}")
        if c.verify is not client.verify:
            raise Violation(f"verify is {c.verify!r}, expected {client.verify}")
        for k, v in extra.items():
            if c.headers.get(k) != v:
                raise Violation(f"{c.url}: header {k} is {c.headers.get(k)!r}, expected {v!r}")
        if c.method != "GET" or c.body:
            raise Violation(f"{c.method} {c.url} with body {c.body!r}")
        segs = [unquote(x) for x in u.path[len(base) :].split("/")]
        for a, b in zip(segs, segs[1:]):
            if a in ("shells", "submodels") and not b.startswith("$"):
                id = b64_id(b)
                if c.status != 200:
                    continue  # malformed or unknown identifiers on purpose
                if id is None:
                    raise Violation(f"{c.url}: {b!r} is not unpadded base64url")
                if id not in ids:
                    raise Violation(f"{c.url}: {b!r} decodes to {id!r}, which does not exist")
                seen += id in ids
        for k, v in parse_qsl(u.query, keep_blank_values=True):
            if k in ("aasIds", "submodelIds") and c.status == 200 and b64_id(v) not in ids:
                raise Violation(f"{c.url}: {k} decodes to {b64_id(v)!r}")
    if suite in (server.AAS_REPO, server.SM_REPO) and not seen:
        raise Violation("no request by identifier")
    return Case((suite, client.host, tuple(sorted(ids))), True, [suite.split("/")[-2]], {"requests": len(calls), "ids": sorted(ids)[:2]})


CHECK = Check(
    "C20",
    [
        Group("history", history, 6000, 300000),
        Group("wire", wire, 600, 20000),
        Group("identifiers", identifiers, 3000, 100000),
        Group("runs", runs, 120, 4000),
    ],
    rule="a sequence of requests (method, path, query, body, headers) through a tree of derived clients with a host, prefixes, a removed prefix, headers and a verify setting; every request which is sent counts; distinct by host and requests",
    assumptions=[
        "header names of the client and of a request are disjoint; paths have no empty, '.' or '..' segments and no '%', '?', '#'",
        "a removed prefix which is directly followed by the query is not judged; the client library may add its own standard headers",
    ],
)
