"""C17: a conforming server passes every operation of its profile"""
import json

import meta
import server
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config, file, http

PLAIN = {"http://localhost:8080", "https://example.org"}
HOSTS = ["http://localhost:8080", "https://example.org", "http://127.0.0.1", "http://[::1]:81"]
REMOVABLE = {server.AAS_SERVICE: "/aas", server.SM_SERVICE: "/submodel"}


def known_key(suite, op):
    return f"{suite.split('/')[-2]}:{op}"


def compliant(pop):
    shells, sms, cds = pop
    env = {"assetAdministrationShells": shells, "submodels": sms}
    if cds:
        env["conceptDescriptions"] = cds
    return file.check_json_data(env).ok()


def make(src, suite, extended, rich=None, budget=None):
    pop = server.gen_population(src, suite, rich=rich, budget=budget)
    if not compliant(pop):
        raise Discard()  # C01
    opts = server.Options(src)
    if opts.skip_unvalued:
        for sm in pop[1]:
            els = sm.get("submodelElements")
            if els and els[-1]["modelType"] in server.NO_VALUE:
                els.append({"modelType": "Property", "idShort": "LastOne", "valueType": "xs:int", "value": "1"})
                server.unique(els)
    removed = REMOVABLE.get(suite, "") if src.bool(0.2) else ""
    srv = server.Server(suite, pop, opts, extended, removed)
    host = src.pick(HOSTS) + opts.base + src.pick(["", "/"])
    client = http.HttpClient(host, verify=src.bool(), remove_path_prefix=removed, additional_headers=src.pick([{}, {"X-Api-Key": "k"}]))
    return srv, client


def run(srv, client, suite, **kw):
    with server.network(lambda n, req: srv.answer(req.url)) as calls:
        r, mat = sut(api.execute_tests, client, config.CheckApiConfig(suite, **kw))
    return r, mat, calls


def conforming(src, index, extended):
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, extended)
    r, mat, calls = run(srv, client, suite)
    ops = server.operations(r)
    names = [o for o, _ in ops]
    if sorted(names) != sorted(server.OPERATIONS[suite]):
        raise Violation(f"tested operations of {suite}: {names}", names)
    known = []
    for op, res in ops:
        if not res.ok():
            key = known_key(suite, op)
            if not extended and key in KNOWN and len(res.sub_results) == 1 and any("404" in m for m in meta.errors(res)):
                known.append(key)
                continue
            raise Violation(f"{op} of {suite.split('/')[-2]} fails on a conforming server: {meta.errors(res)[:2]}", {"report": res.to_dict(), "population": srv.shells + srv.submodels, "options": vars(srv.opts)})
    if extended or not known:
        if not r.ok():
            raise Violation(f"result is {r.level} although every operation passed", r.to_dict())
        if mat.invalid_accepted or mat.valid_rejected:
            raise Violation(f"matrix counts failures: {mat.invalid_accepted}, {mat.valid_rejected}")
    kinds = {e["modelType"] for s in srv.submodels for e in s.get("submodelElements", [])}
    return Case((suite, json.dumps([srv.shells, srv.submodels], sort_keys=True), repr(vars(srv.opts))), True,
                [suite.split("/")[-2]] + [f"kind:{k}" for k in kinds], {"suite": suite, "submodels": len(srv.submodels), "requests": len(calls)}, known=known)


KNOWN = {known_key(s, "GenerateSerializationByIds") for s in (server.SM_REPO, server.AAS_SERVICE, server.SM_SERVICE)}


def strict(src, index):
    return conforming(src, index, False)


def extended(src, index):
    """the server additionally answers where the known finding makes the tool look: then everything passes"""
    return conforming(src, index, True)


CHECK = Check(
    "C17",
    [
        Group("strict", strict, 240, 6000),
        Group("extended", extended, 400, 12000),
    ],
    rule="a run of a whole suite against a reference server with a generated compliant population (shells, submodels, elements of all kinds, identifiers, cursors, page sizes, error bodies, base paths, removed prefixes); every run is non-trivial; distinct by suite, population and server options",
    assumptions=[
        "the reference server is harness/server.py; value-only content of scalars is wrapped in an object, metadata keeps the mandatory attributes of an element",
        "the first shell has an idShort and a submodel with an element, the first two submodels have an element",
        "GenerateSerializationByIds outside of the shell repository is a known finding in the strict group; in the extended group the server also offers the paths the tool uses there",
    ],
)
