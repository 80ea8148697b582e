"""C22: suites are selected as documented and a dry run sends nothing"""
import json

import requests

import cli
import server
from checks.c16 import expected, gen_filter
from checks.c17 import make
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, http
from aas_test_engines.exception import AasTestToolsException

SUITES = server.SUITES
FAILURES = [
    requests.exceptions.ConnectionError("refused"),
    requests.exceptions.ConnectTimeout("timeout"),
    requests.exceptions.ReadTimeout("timeout"),
    requests.exceptions.SSLError("certificate"),
    requests.exceptions.ProxyError("proxy"),
    requests.exceptions.ChunkedEncodingError("broken"),
    requests.exceptions.TooManyRedirects("redirects"),
    requests.exceptions.InvalidURL("url"),
]


def nothing(n, req):
    raise requests.exceptions.ConnectionError("a request was sent")


def gen_substring(src):
    s = src.pick(SUITES)
    k = src.draw(6)
    if k == 0:
        a = src.draw(len(s) - 1)
        return s[a : a + src.int(1, len(s) - a)]
    if k == 1:
        return s
    if k == 2:
        return src.pick([
            "SSP-002", "Repository", "SubmodelService", "Submodel", "ServiceSpecification", "ShellService", "AssetAdministrationShell", "SubmodelRepository",
            "Shell", "/SubmodelService", "ShellRepository", "http", "", "3/0", "SSP-001", "Registry", "tService", "lService", "/Asset", "/Sub",
        ])
    if k == 3:
        a = s[src.draw(len(s) - 1) :]
        return a.swapcase()
    if k == 4:
        return s + src.pick(["x", "/", " ", "2"])
    if k == 5:
        a = src.draw(len(s) - 12)
        t = s[a : a + 10]
        i = src.draw(9)
        return t[:i] + src.pick("xyZ*?.") + t[i + 1 :]
    a = src.int(34, len(s) - 10)
    return s[a : a + src.int(3, 10)]


def selection(src, index):
    """the suite argument of the command line"""
    versions = sut(api.supported_versions)
    if "3.0" not in versions or sorted(versions["3.0"]) != sorted(SUITES):
        raise Violation(f"advertised: {versions}")
    sub = gen_substring(src)
    if sub.startswith("-"):
        raise Discard()
    found = [s for s in SUITES if sub in s]
    argv = ["check_server", "http://localhost:1", sub, "--dry", "--output", "json"]
    version = src.pick([None, None, "3.0"])
    if version:
        argv += ["--version", version]
    if src.bool(0.3):
        argv = argv[:1] + argv[3:] + argv[1:3]
    with server.network(nothing) as calls:
        code, out, err, exc = cli.run(argv)
    if calls:
        raise Violation(f"a dry run sent {calls[0].url}")
    if len(found) == 1:
        if code != 0 or exc:
            raise Violation(f"{argv}: exit code {code}, {exc!r}, {err[:200]}")
        try:
            d = json.loads(out)
        except ValueError:
            raise Violation(f"{argv}: no JSON output but {out[:100]!r}")
        if found[0] not in d["m"]:
            raise Violation(f"{argv} checks {d['m']!r}, expected {found[0]}")
        ops = [x["m"][len("Checking ") :] for x in d["s"] if x["m"].startswith("Checking ")]
        if sorted(ops) != sorted(server.OPERATIONS[found[0]]):
            raise Violation(f"{argv} lists {ops}")
    else:
        if code == 0:
            raise Violation(f"{argv} is not refused although {len(found)} suites contain {sub!r}")
        if exc is not None:
            raise Violation(f"{argv} ends with {exc!r}")
        if out.strip().startswith("{"):
            raise Violation(f"{argv} prints a report")
    return Case((sub, version), len(sub) > 0, [f"{len(found)} suites"], sub)


def unknown(src, index):
    """unknown suites and versions"""
    k = src.draw(2)
    client = http.HttpClient("http://localhost:1")
    dry = src.bool()
    with server.network(nothing) as calls:
        if k == 0:
            suite = gen_substring(src)
            if suite in SUITES:
                raise Discard()
            what = ("suite", suite)
            conf = config.CheckApiConfig(suite, dry=dry)
            if src.bool(0.3):
                conf.version = "3.0"
        elif k == 1:
            v = src.pick(["2.0", "3", "3.1", "3.0 ", " 3.0", "v3.0", "3.0.1", "latest", "03.0", "3,0", "x"])
            what = ("version", v)
            conf = config.CheckApiConfig(src.pick(SUITES), version=v, dry=dry)
        else:
            v = src.pick(["2.0", "3", "3.1", "3.0 ", "v3.0", "3.0.1", "", "latest", "03.0", "x"])
            argv = ["check_server", "http://localhost:1", src.pick(SUITES), "--version", v] + (["--dry"] if dry else [])
            code, out, err, exc = cli.run(argv)
            if calls or code == 0 or exc is not None:
                raise Violation(f"{argv}: exit code {code}, {exc!r}, {len(calls)} requests")
            return Case((v, dry, argv[2]), True, ["version on the command line"], argv)
        try:
            r, _ = api.execute_tests(client, conf)
        except AasTestToolsException:
            pass
        except Exception as e:
            raise Violation(f"unknown {what} refused by {type(e).__name__}: {e}")
        else:
            raise Violation(f"unknown {what} is not refused: {r.level}, {r.message}")
        if calls:
            raise Violation("a request was sent")
    return Case((what, dry), True, [what[0]], what)


def listed(result):
    return [o for o, _ in server.operations(result)]


def dry(src, index):
    """a dry run and the real run with the same settings"""
    suite = SUITES[index % 4]
    srv, client = make(src, suite, True, budget=3)
    kw = {}
    if src.bool(0.3):
        kw["version"] = "3.0"
    text = None
    if src.bool(0.7):
        text, inc, exc = gen_filter(src, server.OPERATIONS[suite])
    for _ in range(2):
        flt = {} if text is None else {"filter": config.TestCaseFilter(text)}
        with server.network(nothing) as calls:
            d, mat = sut(api.execute_tests, client, config.CheckApiConfig(suite, dry=True, **kw, **flt))
        if calls:
            raise Violation(f"a dry run sent {calls[0].url}")
        if not d.ok():
            raise Violation(f"a dry run has the level {d.level}", d.to_dict())
        if mat.invalid_accepted or mat.invalid_rejected or mat.valid_accepted or mat.valid_rejected:
            raise Violation("a dry run counts tests")
    status = src.pick([200, 200, 404, 500])
    with server.network(lambda n, req: srv.answer(req.url) if n or status == 200 else (status, "text/plain", b"x")) as calls:
        r, _ = sut(api.execute_tests, client, config.CheckApiConfig(suite, dry=False, **kw, **flt))
    if listed(d) != listed(r):
        raise Violation(f"the dry run lists {listed(d)}, the real run tests {listed(r)}")
    want = set(server.OPERATIONS[suite]) if text is None else {o for o in server.OPERATIONS[suite] if expected(inc, exc, o)}
    if set(listed(r)) != want or len(listed(r)) != len(want):
        raise Violation(f"filter {text!r} runs {listed(r)}")
    if not calls:
        raise Violation("a real run sends no request")
    tested = [o for o, x in server.operations(r) if x.sub_results]
    if tested != listed(r):
        raise Violation(f"operations without any test in a real run: {set(listed(r)) - set(tested)}", r.to_dict())
    first = calls[0].url.rstrip("/")
    host = requests.Request("GET", client.host.rstrip("/")).prepare().url.rstrip("/")
    if first != host:
        raise Violation(f"the first request goes to {first}, not to {host}")
    return Case((suite, text, status, json.dumps(srv.submodels[0], sort_keys=True)), True, [suite.split("/")[-2], "filter" if text is not None else "all"], {"filter": text, "operations": len(want)})


def unreachable(src, index):
    """the connection fails at the first request"""
    suite = SUITES[index % 4]
    srv, client = make(src, suite, True, budget=2)
    failure = src.pick(FAILURES)

    def answer(n, req):
        if n == 0:
            raise failure
        return srv.answer(req.url)

    text = None
    if src.bool(0.5):
        text, _, _ = gen_filter(src, server.OPERATIONS[suite])
    with server.network(answer) as calls:
        r, mat = sut(api.execute_tests, client, config.CheckApiConfig(suite, filter=None if text is None else config.TestCaseFilter(text)))
    if len(calls) != 1:
        raise Violation(f"{len(calls)} requests although the first one failed with {failure!r}")
    if r.ok() or r.level.name != "CRITICAL":
        raise Violation(f"level {r.level} although the server cannot be reached")
    if listed(r):
        raise Violation(f"tests {listed(r)} although the server cannot be reached")
    if mat.invalid_accepted or mat.invalid_rejected or mat.valid_accepted or mat.valid_rejected:
        raise Violation("tests are counted although the server cannot be reached")
    return Case((suite, repr(failure), text, client.host), True, [type(failure).__name__], {"failure": repr(failure), "filter": text})


CHECK = Check(
    "C22",
    [
        Group("selection", selection, 2500, 100000),
        Group("unknown", unknown, 400, 8000),
        Group("dry", dry, 160, 5000),
        Group("unreachable", unreachable, 80, 2000),
    ],
    rule="a suite argument (substrings of the suites' names, changed ones, foreign ones), version, filter and server; non-trivial if the argument is not empty; distinct by arguments and population",
    assumptions=["four suites are advertised for version 3.0; an empty version is only refused on the command line (the library takes it for the default)"],
)
