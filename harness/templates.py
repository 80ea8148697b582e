"""
The supported submodel templates as tables (from the IDTA submodel template specifications 02002-1-0 and
02006-2-0), a judge that decides a submodel against them, and a generator.
"""

import copy

import lex
import meta

CI = "https://admin-shell.io/zvei/nameplate/1/0/ContactInformations"
NP = "https://admin-shell.io/zvei/nameplate/2/0/Nameplate"
C = CI + "/ContactInformation"
P = "0173-1#02-"


def _enum(*codes):
    return ("enum", ["0173-1#07-AAS%d#001" % c for c in codes])


# field: (semantic id, kind, min, max)   kind: "mlp", "str", "date", ("enum", values), ("smc", fields)
INF = 10**9
PHONE = [
    (P + "AAO136#002", "mlp", 1, 1),
    (P + "AAO137#003", _enum(754, 755, 756, 757, 758, 759), 0, 1),
    (C + "/AvailableTime/", "mlp", 0, 1),
]
FAX = [(P + "AAO195#002", "mlp", 1, 1), (P + "AAO196#003", _enum(754, 756, 758), 0, 1)]
EMAIL = [
    (P + "AAO198#002", "str", 1, 1),
    (P + "AAO200#002", "mlp", 0, 1),
    (P + "AAO199#003", _enum(754, 756, 757, 758), 0, 1),
    (P + "AAO201#002", "mlp", 0, 1),
]
IP = [
    (P + "AAQ326#002", "str", 1, 1),
    (C + "/IPCommunication/TypeOfCommunication", "str", 0, 1),
    (C + "/AvailableTime/", "str", 0, 1),
]
CONTACT = [
    (P + "AAO204#003", _enum(927, 928, 929, 930, 931), 0, 1),
    (P + "AAO134#002", "mlp", 0, 1),
    (C + "/Language", "str", 0, INF),
    (C + "/TimeZone", "str", 0, 1),
    (P + "AAO132#002", "mlp", 0, 1),
    (P + "AAW001#001", "mlp", 0, 1),
    (P + "AAO127#003", "mlp", 0, 1),
    (C + "/Phone", ("smc", PHONE), 0, 1),
    (P + "AAQ834#005", ("smc", FAX), 0, 1),
    (P + "AAQ836#005", ("smc", EMAIL), 0, 1),
    (C + "/IPCommunication", ("smc", IP), 0, INF),
    (P + "AAO128#002", "mlp", 0, 1),
    (P + "AAO129#002", "mlp", 0, 1),
    (P + "AAO130#002", "mlp", 0, 1),
    (P + "AAO131#002", "mlp", 0, 1),
    (P + "AAO133#002", "mlp", 0, 1),
    (P + "AAO205#002", "mlp", 0, 1),
    (P + "AAO206#002", "mlp", 0, 1),
    (P + "AAO207#002", "mlp", 0, 1),
    (P + "AAO208#003", "mlp", 0, 1),
    (P + "AAO209#003", "mlp", 0, 1),
    (P + "AAO210#002", "mlp", 0, 1),
    (P + "AAQ326#002", "str", 0, 1),
]
FAMILY, TYPE = P + "AAU731#001", P + "AAO057#002"
NAMEPLATE = [
    (P + "AAY811#001", "str", 1, 1),
    (P + "AAO677#002", "mlp", 1, 1),
    (P + "AAW338#001", "mlp", 1, 1),
    (C, ("smc", CONTACT), 1, 1),
    (P + "AAU732#001", "mlp", 0, 1),
    (FAMILY, "mlp", 0, 1),
    (TYPE, "mlp", 0, 1),
    (P + "AAO227#002", "mlp", 0, 1),
    (P + "AAO676#003", "mlp", 0, 1),
    (P + "AAM556#002", "str", 0, 1),
    (P + "AAP906#001", "str", 1, 1),
    (P + "AAR972#002", "date", 0, 1),
    (P + "AAN270#002", "mlp", 0, 1),
    (P + "AAM985#002", "mlp", 0, 1),
    (P + "AAM737#002", "mlp", 0, 1),
    (P + "AAO259#004", "str", 0, 1),
]
TEMPLATES = {CI: [(C, ("smc", CONTACT), 1, INF)], NP: NAMEPLATE}
ALL_IDS = sorted({f[0] for l in (PHONE, FAX, EMAIL, IP, CONTACT, NAMEPLATE) for f in l} | {C})


def _levels(fields, chain):
    out = []
    for f in fields:
        out.append((chain, f))
        if isinstance(f[1], tuple) and f[1][0] == "smc":
            out += _levels(f[1][1], chain + (f[0],))
    return out


# every field at every place: (template, chain of semantic ids, field)
SITES = [(t, chain, f) for t, fields in TEMPLATES.items() for chain, f in _levels(fields, ())]


def sid(o):
    s = o.get("semanticId")
    return s["keys"][0]["value"] if s else None


# ------------------------------------------------------------------ judge


def judge_elements(fields, elements):
    for s, kind, lo, hi in fields:
        found = [e for e in elements if sid(e) == s]
        if not lo <= len(found) <= hi:
            return f"{len(found)} elements with {s}"
        for e in found:
            why = judge_element(kind, e)
            if why:
                return f"{s}: {why}"
    return None


def judge_element(kind, e):
    mt = e["modelType"]
    if kind == "mlp":
        if mt != "MultiLanguageProperty":
            return "not a MultiLanguageProperty"
        return None if e.get("value") else "no value"
    if isinstance(kind, tuple) and kind[0] == "smc":
        if mt != "SubmodelElementCollection":
            return "not a collection"
        if e.get("value") is None:
            return "no value"
        return judge_elements(kind[1], e["value"])
    if mt != "Property":
        return "not a Property"
    if e.get("value") is None:
        return "no value"
    if e["valueType"] != ("xs:date" if kind == "date" else "xs:string"):
        return "wrong value type"
    if isinstance(kind, tuple) and e["value"] not in kind[1]:
        return "not an allowed value"
    return None


def judge(submodel):
    """None if the submodel obeys its template, else a reason"""
    fields = TEMPLATES.get(sid(submodel))
    if fields is None:
        return None
    elements = submodel.get("submodelElements") or []
    why = judge_elements(fields, elements)
    if why is None and fields is NAMEPLATE and not any(sid(e) in (FAMILY, TYPE) for e in elements):
        why = "neither family nor type"
    return why


# ------------------------------------------------------------------ generator


def ref_to(src, s):
    if src.bool(0.6):
        return {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": s}]}
    return {"type": "ModelReference", "keys": [{"type": src.pick(["Submodel", "ConceptDescription"]), "value": s}]}


class TGen:
    def __init__(self, src, force=(), p_optional=None):
        self.src = src
        self.force = force  # set of (chain, semantic id)
        self.p = src.pick([0.1, 0.0, 0.3, 0.9]) if p_optional is None else p_optional
        self.g = meta.Gen(src, density=src.pick([0.0, 0.1]), budget=6, wild=src.bool(0.3))
        self.places = []  # (chain, field, element, siblings)

    def base(self, kind, s, used):
        e = self.g.obj(kind, (), None, depth=99, used=used)
        e.pop("semanticId", None)
        e.pop("supplementalSemanticIds", None)
        if s is not None:
            e["semanticId"] = ref_to(self.src, s)
        return e

    def value(self, kind, s, used, chain=()):
        src = self.src
        if kind == "mlp":
            e = self.base("MultiLanguageProperty", s, used)
            e["value"] = [{"language": l, "text": lex.gen_text(src, 1, 8, False)} for l in src.sample(["en", "de", "fr-FR"], src.int(1, 2))]
        elif isinstance(kind, tuple) and kind[0] == "smc":
            e = self.base("SubmodelElementCollection", s, used)
            e["value"] = self.elements(kind[1], chain + (s,))
            if not e["value"]:
                # a collection cannot have an empty array
                e["value"] = [self.noise(set(), kind[1])]
        else:
            e = self.base("Property", s, used)
            e["valueType"] = "xs:string"
            if kind == "str":
                e["value"] = lex.gen_text(src, 1, 8, False)
            elif kind == "date":
                e["valueType"] = "xs:date"
                e["value"] = src.pick(["2024-02-29", "2023-01-31Z", "2023-12-31+14:00", "-0044-03-15", "12022-02-03-05:00", "1999-10-10"])
            else:
                e["value"] = src.pick(kind[1])
        return e

    def noise(self, used, fields):
        """an element whose semantic id is none of the fields"""
        src = self.src
        own = {f[0] for f in fields}
        s = src.pick([None, "foo", "0173-1#02-AAO677", CI, NP, "", "known"])
        if s == "known":
            s = src.pick(ALL_IDS)
        elif s == "":
            f = src.pick(ALL_IDS)
            s = src.pick([f + "/", f.lower(), f[:-1] + "9", " " + f, f.upper(), f[1:]])
        if s in own:
            s = None
        e = self.base(src.pick(meta.SMES), s, used)
        if e["modelType"] == "SubmodelElementCollection" and src.bool():
            e["value"] = [self.base(src.pick(["Property", "Capability"]), src.pick(ALL_IDS), set())]
        if s is not None and src.bool(0.3):
            e["supplementalSemanticIds"] = [ref_to(src, src.pick(sorted(own)))]
        return e

    def elements(self, fields, chain):
        src = self.src
        out = []
        used = set()
        for f in fields:
            s, kind, lo, hi = f
            n = lo
            if n == 0 and ((chain, s) in self.force or src.bool(self.p)):
                n = 1
            if n and hi > 1:
                n = src.size(n, 4, 0.4)
            for _ in range(n):
                e = self.value(kind, s, used, chain)
                self.places.append((chain, f, e, out))
                out.append(e)
        if fields is NAMEPLATE and not any(sid(e) in (FAMILY, TYPE) for e in out):
            s = src.pick([FAMILY, TYPE])
            f = next(f for f in fields if f[0] == s)
            e = self.value("mlp", f[0], used)
            self.places.append((chain, f, e, out))
            out.append(e)
        for _ in range(src.size(0, 3, 0.3)):
            out.append(self.noise(used, fields))
        order = src.shuffle(range(len(out)))
        out[:] = [out[i] for i in order]
        return out

    def submodel(self, tid):
        sm = {"modelType": "Submodel", "id": "urn:sm:" + str(len(self.places)), "semanticId": ref_to(self.src, tid)}
        if self.src.bool(0.3):
            sm["idShort"] = "sm"
        if self.src.bool(0.2):
            sm["kind"] = self.src.pick(["Instance", "Template"])
        els = self.elements(TEMPLATES[tid], ())
        if els:
            sm["submodelElements"] = els
        return sm


def fresh_id(siblings):
    used = {e["idShort"] for e in siblings}
    i = 0
    while "dup%d" % i in used:
        i += 1
    return "dup%d" % i


DAMAGES = ["drop", "duplicate", "kind", "no-value", "value-type", "enum", "lose-id", "foreign-id"]


def damage(src, t, place, how):
    """changes the element in place; what it means is decided by the judge"""
    chain, f, e, siblings = place
    if how == "drop":
        siblings[:] = [x for x in siblings if x is not e]
    elif how == "duplicate":
        d = copy.deepcopy(e)
        d["idShort"] = fresh_id(siblings)
        siblings.insert(src.draw(len(siblings)), d)
    elif how == "kind":
        new = t.base(src.pick([k for k in meta.SMES if k != e["modelType"]]), f[0], None)
        new["idShort"] = e["idShort"]
        if new["modelType"] == "Property":
            new["valueType"] = "xs:string"
            new["value"] = "x"
        elif new["modelType"] == "MultiLanguageProperty":
            new["value"] = [{"language": "en", "text": "x"}]
        elif new["modelType"] == "SubmodelElementList" and src.bool():
            new["typeValueListElement"] = "Capability"
            new.pop("value", None)
        e.clear()
        e.update(new)
    elif how == "no-value":
        e.pop("value", None)
    elif how == "value-type":
        if e["modelType"] == "Property":
            e["valueType"] = src.pick(["xs:string", "xs:date", "xs:anyURI", "xs:int", "xs:dateTime", "xs:boolean", "xs:gYear"])
            e["value"] = {"xs:date": "2024-01-01", "xs:int": "1", "xs:dateTime": "2024-01-01T00:00:00", "xs:boolean": "true", "xs:gYear": "2024"}.get(e["valueType"], e.get("value", "x"))
            if e["valueType"] == "xs:anyURI":
                e["value"] = "http://x"
    elif how == "enum":
        if e["modelType"] == "Property" and e["valueType"] == "xs:string":
            codes = ["0173-1#07-AAS%d#001" % c for c in list(range(753, 761)) + list(range(926, 933))]
            v = src.pick(codes)
            e["value"] = src.pick([v, v + " ", v.lower(), "Office", "x", v[:-1] + "2", "Technical"])
    elif how == "lose-id":
        e.pop("semanticId", None)
        e.pop("supplementalSemanticIds", None)
    elif how == "foreign-id":
        e["semanticId"] = ref_to(src, src.pick(ALL_IDS + [f[0] + "x"]))


def cleanup(o):
    """empty arrays do not exist in valid JSON; dropping the last element drops the attribute"""
    if isinstance(o, dict):
        for k in ("value", "submodelElements"):
            if isinstance(o.get(k), list):
                for x in o[k]:
                    cleanup(x)
                if not o[k]:
                    del o[k]
    return o


def gen_case(src, index):
    """-> (environment, description, expected reasons per submodel, submodels with a template)"""
    tid, chain, f = SITES[index % len(SITES)]
    t = TGen(src, force={(chain[:i], s) for i, s in enumerate(chain + (f[0],))})
    subject = t.submodel(tid)
    # the path to the field must exist
    what = "valid"
    if src.bool(0.75):
        cands = [p for p in t.places if p[0] == chain and p[1] is f] if src.bool(0.75) else list(t.places)
        place = cands[src.draw(len(cands) - 1)]
        how = src.pick(DAMAGES)
        what = f"{place[1][0]} {how}"
        damage(src, t, place, how)
        if src.bool(0.15):
            place = t.places[src.draw(len(t.places) - 1)]
            how = src.pick(["duplicate", "kind", "no-value"])
            if any(e is place[2] for e in place[3]):
                damage(src, t, place, how)
    cleanup(subject)
    sms = [subject]
    for _ in range(src.size(0, 2, 0.3)):
        k = src.draw(2)
        if k == 0:
            other = TGen(src).submodel(src.pick([CI, NP]))
        elif k == 1:
            # broken with respect to the template, but with another semantic id
            other = copy.deepcopy(subject)
            new = src.pick([CI + "/", NP.upper(), "https://admin-shell.io/zvei/nameplate/1/0/Nameplate", "x", C, None, NP + " "])
            if new is None:
                other.pop("semanticId")
            else:
                other["semanticId"] = ref_to(src, new)
        else:
            other = meta.Gen(src, budget=5).obj("Submodel", (), None)
        sms.insert(src.draw(len(sms)), cleanup(other))
    for i, sm in enumerate(sms):
        sm["id"] = "urn:sm:%d" % i
    reasons = [judge(sm) for sm in sms]
    env = {"submodels": sms}
    if src.bool(0.2):
        env.update({k: v for k, v in meta.Gen(src, budget=4).obj("Environment").items() if k != "submodels"})
    return env, what, reasons, [sid(sm) in TEMPLATES for sm in sms]
