"""
Reference server: an in-process implementation of the read operations of the four profiles over a generated
population. It is put in place of the network (requests' transport adapter), so every request the tool sends is
seen and answered here.
"""

import base64
import contextlib
import copy
import http.server
import io
import json
import os
import threading
from urllib.parse import parse_qsl, unquote, urlsplit

import requests

import lex
import meta
from pbt import Discard

# settings of the sandbox which would show up in the requests
for _v in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "http_proxy", "https_proxy", "all_proxy", "NETRC"):
    os.environ.pop(_v, None)
os.environ["NETRC"] = "/dev/null"

PREFIX = "https://admin-shell.io/aas/API/3/0/"
AAS_REPO = PREFIX + "AssetAdministrationShellRepositoryServiceSpecification/SSP-002"
SM_REPO = PREFIX + "SubmodelRepositoryServiceSpecification/SSP-002"
AAS_SERVICE = PREFIX + "AssetAdministrationShellServiceSpecification/SSP-002"
SM_SERVICE = PREFIX + "SubmodelServiceSpecification/SSP-002"
SUITES = [AAS_REPO, SM_REPO, AAS_SERVICE, SM_SERVICE]

_SUBMODEL_ELEMENTS = [
    "GetAllSubmodelElements", "GetAllSubmodelElements-Metadata", "GetAllSubmodelElements-ValueOnly", "GetAllSubmodelElements-Reference",
    "GetAllSubmodelElements-Path", "GetSubmodelElementByPath", "GetSubmodelElementByPath-Metadata", "GetSubmodelElementByPath-ValueOnly",
    "GetSubmodelElementByPath-Reference", "GetSubmodelElementByPath-Path", "GetFileByPath",
]
_BY_ID = ["GetSubmodelById", "GetSubmodelById-Metadata", "GetSubmodelById-ValueOnly", "GetSubmodelById-Reference", "GetSubmodelById-Path"]
# the read operations of each profile (as a set: the order of a run is the order of its dry run, see C22)
OPERATIONS = {
    AAS_REPO: [
        "GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference", "GetAssetAdministrationShellById",
        "GetAssetAdministrationShellById-Reference", "GetAssetInformation", "GetThumbnail", "GetAllSubmodelReferences",
    ] + _BY_ID + _SUBMODEL_ELEMENTS + ["GenerateSerializationByIds", "GetDescription"],
    SM_REPO: ["GetAllSubmodels", "GetAllSubmodels-Metadata", "GetAllSubmodels-ValueOnly", "GetAllSubmodels-Reference", "GetAllSubmodels-Path"]
    + _BY_ID + _SUBMODEL_ELEMENTS + ["GenerateSerializationByIds", "GetDescription"],
    AAS_SERVICE: ["GetAssetAdministrationShell", "GetAssetAdministrationShell-Reference", "GetAssetInformation", "GetThumbnail", "GetAllSubmodelReferences"]
    + _BY_ID + _SUBMODEL_ELEMENTS + ["GenerateSerializationByIds", "GetDescription"],
    SM_SERVICE: ["GetSubmodel", "GetSubmodel-Metadata", "GetSubmodel-ValueOnly", "GetSubmodel-Reference", "GetSubmodel-Path"]
    + _SUBMODEL_ELEMENTS + ["GenerateSerializationByIds", "GetDescription"],
}


class Bad(Exception):
    def __init__(self, status, text):
        self.status = status
        self.text = text


def b64url_decode(s):
    """strict base64url, padding optional"""
    body = s.rstrip("=")
    pad = len(s) - len(body)
    if not body or any(c not in lex.ALNUM + "-_" for c in body) or len(body) % 4 == 1 or (pad and (len(body) + pad) % 4 != 0) or pad > 2:
        raise Bad(400, "not base64url")
    try:
        return base64.urlsafe_b64decode(body + "=" * (-len(body) % 4)).decode()
    except ValueError:
        raise Bad(400, "not base64url")


# ------------------------------------------------------------------ population


def gen_population(src, suite, budget=None, rich=None):
    """shells, submodels, concept descriptions: compliant, and such that every operation can be tested"""
    budget = src.pick([4, 12, 25]) if budget is None else budget
    g = meta.Gen(src, budget=budget)
    n_sm = src.size(1, 4, 0.5)
    submodels = []
    for i in range(n_sm):
        sm = sane_submodel(src, budget, i)
        if i < 2 and not sm.get("submodelElements"):
            sm["submodelElements"] = [simple_element(src)]
        submodels.append(sm)
    if src.bool(0.35) if rich is None else rich:
        sm = submodels[0]
        els = sm.get("submodelElements", [])
        have = {e["modelType"] for e in els}
        for kind in meta.SMES:
            if kind not in have and src.bool(0.8):
                e = fresh_element(src, kind)
                e["idShort"] = f"E{kind}"
                els.insert(src.draw(len(els)), e)
        sm["submodelElements"] = unique(els)
    shells = []
    for i in range(src.size(1, 4, 0.5)):
        sh = meta.Gen(src, budget=3).obj("AssetAdministrationShell", ())
        refs = src.sample(submodels, src.int(1 if i == 0 else 0, len(submodels)))
        if suite in (AAS_REPO, AAS_SERVICE) and i == 0:
            refs = [r for r in refs if r.get("submodelElements")] or [submodels[0]]
        if refs:
            sh["submodels"] = [{"type": "ModelReference", "keys": [{"type": "Submodel", "value": r["id"]}]} for r in refs]
        else:
            sh.pop("submodels", None)
        if i == 0 and "idShort" not in sh:
            sh["idShort"] = src.pick(["Shell", "a", "A1_b"])
        shells.append(sh)
    cds = [meta.Gen(src, budget=2).obj("ConceptDescription", ()) for _ in range(src.size(0, 2, 0.4))]
    for l in (shells, submodels, cds):
        ids = set()
        for x in l:
            while x["id"] in ids:
                x["id"] = (x["id"] + "x")[-1900:]
            ids.add(x["id"])
    # references by the final identifiers
    for sh in shells:
        known = {s["id"] for s in submodels}
        for r in sh.get("submodels", []):
            if r["keys"][0]["value"] not in known:
                r["keys"][0]["value"] = submodels[0]["id"]
    return shells, submodels, cds


def sane_submodel(src, budget, i):
    for _ in range(4):
        sm = meta.Gen(src, budget=budget).obj("Submodel", (), [("submodelElements", None)] if i < 2 else None)
        # templates impose further rules (C10)
        s = sm.get("semanticId")
        if not s:
            return sm
        del sm["semanticId"]
        sm.pop("supplementalSemanticIds", None)
        return sm
    raise Discard()


def simple_element(src):
    return {"modelType": "Property", "idShort": src.pick(["p", "Prop", "a1"]), "valueType": "xs:string", "value": "x"}


def fresh_element(src, kind):
    g = meta.Gen(src, budget=2)
    env = g.obj("Environment", (), [("submodels", "Submodel"), ("submodelElements", kind)])
    return meta.get(env, g.focus)


def unique(els):
    seen = set()
    out = []
    for e in els:
        k = e["idShort"].lower()
        while k in seen:
            e["idShort"] += "x"
            k = e["idShort"].lower()
        seen.add(k)
        out.append(e)
    return out


# ------------------------------------------------------------------ serialisations

CHILDREN = {"SubmodelElementCollection": "value", "SubmodelElementList": "value", "Entity": "statements"}
VALUE_ATTRS = {
    "SubmodelElementCollection": ["value"], "SubmodelElementList": ["value"], "Entity": ["statements"], "Property": ["value"],
    "MultiLanguageProperty": ["value"], "Range": ["min", "max"], "Blob": ["value"], "File": ["value"], "ReferenceElement": ["value"],
    "Operation": ["inputVariables", "outputVariables", "inoutputVariables"], "AnnotatedRelationshipElement": ["annotations"],
}
NO_VALUE = {"Capability", "Operation"}


def element_metadata(e):
    return {k: v for k, v in e.items() if k not in VALUE_ATTRS.get(e["modelType"], [])}


def submodel_metadata(sm):
    return {k: v for k, v in sm.items() if k != "submodelElements"}


def without_blobs(o):
    if isinstance(o, dict):
        return {k: without_blobs(v) for k, v in o.items() if not (o.get("modelType") == "Blob" and k == "value")}
    if isinstance(o, list):
        return [without_blobs(x) for x in o]
    return o


def core(o, depth=0):
    """the element with its direct children only"""
    attr = "submodelElements" if o["modelType"] == "Submodel" else CHILDREN.get(o["modelType"])
    if attr is None or attr not in o:
        return o
    out = dict(o)
    if depth >= 1:
        del out[attr]
    else:
        out[attr] = [core(c, depth + 1) for c in o[attr]]
    return out


def value_of(e):
    k = e["modelType"]
    if k == "SubmodelElementCollection":
        return values(e.get("value", []))
    if k == "SubmodelElementList":
        return [value_of(c) for c in e.get("value", []) if c["modelType"] not in NO_VALUE]
    if k == "Entity":
        return {"statements": values(e.get("statements", [])), "entityType": e["entityType"]}
    if k == "Range":
        return {a: e[a] for a in ("min", "max") if a in e}
    if k == "MultiLanguageProperty":
        return [{l["language"]: l["text"]} for l in e.get("value", [])]
    if k in ("File", "Blob"):
        return {a: e[a] for a in ("contentType", "value") if a in e}
    if k in ("RelationshipElement", "AnnotatedRelationshipElement"):
        out = {"first": e["first"], "second": e["second"]}
        if k[0] == "A":
            out["annotations"] = [values([a]) for a in e.get("annotations", [])]
        return out
    if k == "BasicEventElement":
        return {"observed": e["observed"]}
    return e.get("value")


def values(els):
    return {e.get("idShort", str(i)): value_of(e) for i, e in enumerate(els) if e["modelType"] not in NO_VALUE}


def paths_of(els, prefix="", in_list=False):
    out = []
    for i, e in enumerate(els):
        p = f"{prefix}[{i}]" if in_list else (prefix + "." if prefix else "") + e["idShort"]
        out.append(p)
        attr = CHILDREN.get(e["modelType"])
        if attr and attr in e:
            out += paths_of(e[attr], p, e["modelType"] == "SubmodelElementList")
    return out


def ref(keys):
    return {"type": "ModelReference", "keys": [{"type": t, "value": v} for t, v in keys]}


def find_element(els, path):
    """-> (element, keys of the reference)"""
    tokens = []
    for part in path.split("."):
        name, *idx = part.split("[")
        tokens.append(name)
        for i in idx:
            if not i.endswith("]") or not lex.digits(i[:-1]):
                raise Bad(400, "malformed idShortPath")
            tokens.append(int(i[:-1]))
    cur, keys, e = els, [], None
    for t in tokens:
        if isinstance(t, int):
            if not e or e["modelType"] != "SubmodelElementList" or t >= len(cur):
                raise Bad(404, "no such element")
            e = cur[t]
            keys.append((e["modelType"], str(t)))
        else:
            if e and e["modelType"] == "SubmodelElementList":
                raise Bad(404, "no such element")
            e = next((x for x in cur if x.get("idShort") == t), None)
            if e is None:
                raise Bad(404, "no such element")
            keys.append((e["modelType"], t))
        cur = e.get(CHILDREN.get(e["modelType"], ""), [])
    return e, keys


# ------------------------------------------------------------------ the server


class Options:
    def __init__(self, src=None):
        pick = (lambda xs: src.pick(xs)) if src else (lambda xs: xs[0])
        self.cursor = pick(["{}", "c{}", "cur sor&{}=?/#+%", "eyJ{}", "\u00e4{}", "{}=="])
        self.page = pick([1000, 1, 2, 100])
        self.status = pick([400, 404, 422, 400, 405])
        self.error = pick(["full", "text", "none", "two"])
        self.skip_unvalued = pick([False, True])
        self.ascii = pick([True, False])
        self.thumbnail = pick([True, False])
        self.attachment = pick([True, False])
        self.root_status = pick([200, 404, 401, 500])
        self.profiles = pick(["one", "many", "other"])
        self.base = pick(["", "/api", "/API/v3.0", "/a b", "/~x/Y", ""])
        self.cds_missing = pick([False, True])


class Server:
    def __init__(self, suite, population, opts, extended=False, removed=""):
        self.suite = suite
        self.shells, self.submodels, self.cds = population
        self.opts = opts
        self.extended = extended
        self.removed = removed

    # --- helpers
    def page(self, items, q, after=None):
        """after: position in `items` a cursor n (an index into the unfiltered list) means"""
        limit = self.opts.page
        if "limit" in q:
            if not lex.digits(q["limit"]) or int(q["limit"]) < 1:
                raise Bad(self.opts.status, "limit must be a positive number")
            limit = min(limit, int(q["limit"]))
        start = 0
        if "cursor" in q:
            start = next((i for i in range(0, 10000) if self.opts.cursor.format(i) == q["cursor"]), None)
            if start is None:
                raise Bad(self.opts.status, "unknown cursor")
        out = [(i, x) for i, x in items if i >= start]
        meta_ = {}
        if len(out) > limit:
            meta_["cursor"] = self.opts.cursor.format(out[limit][0])
        return {"paging_metadata": meta_, "result": [x for _, x in out[:limit]]}

    def modifiers(self, q):
        if q.get("level", "deep") not in ("core", "deep"):
            raise Bad(self.opts.status, "unknown level")
        if q.get("extent", "withBlobValue") not in ("withBlobValue", "withoutBlobValue"):
            raise Bad(self.opts.status, "unknown extent")

    def modified(self, o, q):
        self.modifiers(q)
        if q.get("extent") == "withoutBlobValue":
            o = without_blobs(o)
        if q.get("level") == "core":
            o = core(o)
        return o

    # --- resources
    def handle(self, path, q):
        """-> JSON value or bytes; raises Bad"""
        segs = [unquote(s) for s in path.split("/")[1:]] if path else []
        if self.removed:
            roots = {"description", "serialization", "shells", "submodels", "aas", "submodel"} - {self.removed[1:]}
            if not segs or segs[0] not in roots or (self.suite == AAS_SERVICE and segs[0] == "submodels"):
                segs = [self.removed[1:]] + segs
        if not segs:
            raise Bad(self.opts.root_status, "nothing here") if self.opts.root_status != 200 else Root()
        head, rest = segs[0], segs[1:]
        if self.removed and self.extended and segs == ["shells"]:
            return self.all_shells([], q)
        if head == "description" and not rest:
            return {"profiles": {"one": [self.suite], "many": SUITES, "other": ["urn:x"]}[self.opts.profiles]}
        if head == "serialization" and not rest:
            return self.serialization(q)
        if head == "shells" and (self.suite == AAS_REPO or (self.extended and self.suite == SM_REPO)):
            return self.all_shells(rest, q)
        if head == "submodels" and self.suite == SM_REPO:
            return self.all_submodels(rest, q)
        if head == "aas" and self.suite == AAS_SERVICE:
            if self.extended and rest == ["shells"]:
                return self.all_shells([], q)
            if self.extended and rest == ["serialization"]:
                return self.serialization(q)
            return self.shell(self.shells[0], rest, q)
        if head == "submodel" and self.suite == SM_SERVICE:
            if self.extended and rest == ["shells"]:
                return self.all_shells([], q)
            if self.extended and rest == ["serialization"]:
                return self.serialization(q)
            return self.submodel(self.submodels[0], rest, q)
        raise Bad(404, "no such resource")

    def all_shells(self, rest, q):
        if rest and rest != ["$reference"]:
            id = b64url_decode(rest[0])
            sh = next((s for s in self.shells if s["id"] == id), None)
            if sh is None:
                raise Bad(404, "no such shell")
            return self.shell(sh, rest[1:], q)
        items = list(enumerate(self.shells))
        if "idShort" in q:
            items = [(i, s) for i, s in items if s.get("idShort") == q["idShort"]]
        if "assetIds" in q:
            try:
                a = json.loads(b64url_decode(q["assetIds"]))
                name, value = a["name"], a["value"]
            except (ValueError, KeyError, TypeError):
                raise Bad(self.opts.status, "malformed asset id")

            def has(s):
                ai = s["assetInformation"]
                if name == "globalAssetId":
                    return ai.get("globalAssetId") == value
                return any(x["name"] == name and x["value"] == value for x in ai.get("specificAssetIds", []))

            items = [(i, s) for i, s in items if has(s)]
        if rest:
            items = [(i, ref([("AssetAdministrationShell", s["id"])])) for i, s in items]
        return self.page(items, q)

    def shell(self, sh, rest, q):
        if not rest:
            return sh
        if rest == ["$reference"]:
            return ref([("AssetAdministrationShell", sh["id"])])
        if rest == ["asset-information"]:
            return sh["assetInformation"]
        if rest == ["asset-information", "thumbnail"]:
            if self.opts.thumbnail:
                return b"\x89PNG\r\n\x00\xff"
            raise Bad(404, "no thumbnail")
        if rest == ["submodel-refs"]:
            return self.page(list(enumerate(sh.get("submodels", []))), q)
        if rest[0] == "submodels" and len(rest) >= 2:
            id = b64url_decode(rest[1])
            if not any(r["keys"][0]["value"] == id for r in sh.get("submodels", [])):
                raise Bad(404, "no such submodel")
            return self.submodel(next(s for s in self.submodels if s["id"] == id), rest[2:], q)
        raise Bad(404, "no such resource")

    def all_submodels(self, rest, q):
        suffix = rest[0] if rest and rest[0].startswith("$") and len(rest) == 1 else None
        if rest and suffix is None:
            id = b64url_decode(rest[0])
            sm = next((s for s in self.submodels if s["id"] == id), None)
            if sm is None:
                raise Bad(404, "no such submodel")
            return self.submodel(sm, rest[1:], q)
        sms = list(enumerate(self.submodels))
        if suffix is None:
            return self.page([(i, self.modified(s, q)) for i, s in sms], q)
        if suffix == "$metadata":
            return self.page([(i, submodel_metadata(s)) for i, s in sms], q)
        if suffix == "$value":
            self.modifiers(q)
            return self.page([(i, values(s.get("submodelElements", []))) for i, s in sms], q)
        if suffix == "$reference":
            return self.page([(i, ref([("Submodel", s["id"])])) for i, s in sms], q)
        if suffix == "$path":
            self.modifiers(q)
            return self.page(list(enumerate(p for _, s in sms for p in paths_of(s.get("submodelElements", [])))), q)
        raise Bad(404, "no such resource")

    def submodel(self, sm, rest, q):
        if not rest:
            return self.modified(sm, q)
        els = sm.get("submodelElements", [])
        if rest == ["$metadata"]:
            return submodel_metadata(sm)
        if rest == ["$value"]:
            self.modifiers(q)
            return values(els)
        if rest == ["$reference"]:
            return ref([("Submodel", sm["id"])])
        if rest == ["$path"]:
            self.modifiers(q)
            return paths_of(els)
        if rest[0] != "submodel-elements":
            raise Bad(404, "no such resource")
        rest = rest[1:]
        items = list(enumerate(els))
        if not rest:
            self.modifiers(q)
            return self.page([(i, self.modified(e, q)) for i, e in items], q)
        if rest == ["$metadata"]:
            return self.page([(i, element_metadata(e)) for i, e in items], q)
        if rest == ["$value"]:
            self.modifiers(q)
            return self.page([(i, {e["idShort"]: value_of(e)}) for i, e in items if not (self.opts.skip_unvalued and e["modelType"] in NO_VALUE)], q)
        if rest == ["$reference"]:
            return self.page([(i, ref([("Submodel", sm["id"]), (e["modelType"], e["idShort"])])) for i, e in items], q)
        if rest == ["$path"]:
            self.modifiers(q)
            return self.page(list(enumerate(paths_of(els))), q)
        e, keys = find_element(els, rest[0])
        suffix = rest[1:]
        if not suffix:
            return self.modified(e, q)
        if suffix == ["$metadata"]:
            if e["modelType"] in NO_VALUE:
                raise Bad(404, "no metadata")
            return element_metadata(e)
        if suffix == ["$value"]:
            self.modifiers(q)
            if e["modelType"] in NO_VALUE:
                raise Bad(404, "no value")
            v = value_of(e)
            return v if isinstance(v, (dict, list)) else {e["idShort"]: v}
        if suffix == ["$reference"]:
            return ref([("Submodel", sm["id"])] + keys)
        if suffix == ["$path"]:
            self.modifiers(q)
            if e["modelType"] not in CHILDREN:
                raise Bad(404, "no paths")
            attr = CHILDREN[e["modelType"]]
            return [rest[0]] + paths_of(e.get(attr, []), rest[0], e["modelType"] == "SubmodelElementList")
        if suffix == ["attachment"]:
            if e["modelType"] == "File" and self.opts.attachment:
                return b"\x00\x01binary\xff"
            raise Bad(404, "no attachment")
        raise Bad(404, "no such resource")

    def serialization(self, q):
        if q.get("includeConceptDescriptions", "true") not in ("true", "false"):
            raise Bad(self.opts.status, "not a boolean")
        out = {}
        shells, sms = self.shells, self.submodels
        if "aasIds" in q:
            id = b64url_decode(q["aasIds"])
            shells = [s for s in shells if s["id"] == id]
        if "submodelIds" in q:
            id = b64url_decode(q["submodelIds"])
            sms = [s for s in sms if s["id"] == id]
        if shells:
            out["assetAdministrationShells"] = shells
        if sms:
            out["submodels"] = sms
        if self.cds and q.get("includeConceptDescriptions", "true") == "true" and not self.opts.cds_missing:
            out["conceptDescriptions"] = self.cds
        return out

    # --- HTTP
    def error_body(self, status, text):
        m = {"code": str(status), "correlationId": "c-1", "messageType": "Error", "text": text, "timestamp": "2024-01-01T00:00:00Z"}
        return {
            "full": {"messages": [m]}, "text": {"messages": [{"text": text}]}, "none": {},
            "two": {"messages": [{"messageType": "Exception", "text": text}, m]},
        }[self.opts.error]

    def answer(self, url):
        """-> (status, content type, body bytes)"""
        u = urlsplit(url)
        base = "".join(self.opts.base.replace(" ", "%20"))
        path = u.path
        if path == "/":
            path = ""
        if base:
            if path == base or path.startswith(base + "/"):
                path = path[len(base) :]
            else:
                return 404, "application/json", self.dump(self.error_body(404, "outside of the base path"))
        q = dict(parse_qsl(u.query, keep_blank_values=True))
        try:
            v = self.handle(path, q)
        except Root:
            return 200, "text/html", b"<html>hello</html>"
        except Bad as e:
            return e.status, "application/json", self.dump(self.error_body(e.status, e.text))
        if isinstance(v, bytes):
            return 200, "image/png", v
        return 200, "application/json", self.dump(v)

    def dump(self, v):
        return json.dumps(v, ensure_ascii=self.opts.ascii).encode("utf-8", "surrogatepass")


class Root(Exception):
    pass


# ------------------------------------------------------------------ in place of the network


class Call:
    __slots__ = ("method", "url", "headers", "body", "verify", "status", "answer", "repeated")

    def __init__(self, request, kw):
        self.method = request.method
        self.url = request.url
        self.headers = dict(request.headers)
        self.body = request.body
        self.verify = kw.get("verify")
        self.status = None


def make_response(request, status, ctype, body, headers=None):
    r = requests.models.Response()
    r.status_code = status
    r._content = body
    r._content_consumed = True
    r.headers = requests.structures.CaseInsensitiveDict({"Content-Type": ctype} if ctype else {})
    r.headers.update(headers or {})
    r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    r.url = request.url
    r.request = request
    r.reason = "reason"
    r.raw = io.BytesIO(b"")
    return r


@contextlib.contextmanager
def network(answer):
    """answer(n, request) -> (status, content type, body) or raises; yields the list of calls"""
    calls = []
    broken = []

    def send(self, request, **kw):
        c = Call(request, kw)
        calls.append(c)
        try:
            out = answer(len(calls) - 1, request)
        except requests.exceptions.RequestException:
            raise
        except Exception as e:
            broken.append(e)  # not a planned failure: the harness is wrong
            raise
        if isinstance(out, requests.models.Response):
            c.status = out.status_code
            return out
        status, ctype, body = out
        c.status = status
        return make_response(request, status, ctype, body)

    orig = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = send
    try:
        yield calls
    finally:
        requests.adapters.HTTPAdapter.send = orig
        if broken:
            raise RuntimeError("the reference server failed") from broken[0]


class Wire:
    """a real HTTP server on the loopback interface; one per process, answers as told and records what it gets"""

    _one = None

    @classmethod
    def get(cls):
        if cls._one is None or cls._one.pid != os.getpid():
            cls._one = cls()
        return cls._one

    def __init__(self):
        self.pid = os.getpid()
        self.calls = []
        self.plan = lambda n: (200, {}, b"{}")
        wire = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def handle_one_request(self):
                self.raw_requestline = self.rfile.readline(65537)
                if not self.raw_requestline:
                    self.close_connection = True
                    return
                if not self.parse_request():
                    return
                n = int(self.headers.get("Content-Length") or 0)
                c = Call.__new__(Call)
                c.method, c.url, c.body = self.command, self.path, self.rfile.read(n)
                c.headers, c.verify, c.status = dict(self.headers), None, None
                c.repeated = len(self.headers.keys()) != len({k.lower() for k in self.headers.keys()})
                wire.calls.append(c)
                answer = wire.plan(len(wire.calls) - 1)
                if answer is None:
                    self.close_connection = True
                    return
                status, headers, body = answer
                c.status = status
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                if status < 200 or status in (204, 304):
                    body = b""
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                if self.command != "HEAD":
                    self.wfile.write(body)

            def log_message(self, *args):
                pass

        class Server(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *args):
                pass

        self.server = Server(("127.0.0.1", 0), Handler)
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()


def operations(result):
    """[(operation, result)] of the report of a server check"""
    out = []
    for r in result.sub_results:
        if r.message.startswith("Checking "):
            out.append((r.message[len("Checking ") :], r))
    return out
