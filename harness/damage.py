"""
Catalogue of single violations: structural damages of JSON objects and violations of constraints.
"""

import copy

import lex
import meta
from pbt import Discard

# ------------------------------------------------------------------ structural damages

KINDS = {
    "null": lambda s: None,
    "true": lambda s: True,
    "false": lambda s: False,
    "zero": lambda s: 0,
    "number": lambda s: s.pick([1, -1, 42, 1.5, 1e300]),
    "string": lambda s: s.pick(["x", "", "true", "0"]),
    "object": lambda s: s.pick([{}, {"x": 1}, {"value": "x"}]),
    "list": lambda s: s.pick([[], ["x"], [{}], [[]]]),
}
ACCEPTS = {"str": {"string"}, "typed": {"string"}, "enum": set(), "bool": {"true", "false"}, "obj": set(), "list": {"list"}}
WRONG_LITERALS = ["", " ", "unknown", "None", "null"]


def _catalogue():
    out = []
    for cls, attrs in meta.CLASSES.items():
        out.append((cls, None, "unknown", None))
        out.append((cls, None, "unknown-similar", None))
        if cls != "Environment":
            for k in ("null", "true", "zero", "number", "string", "list"):
                out.append((cls, None, "not-an-object", k))
        if cls in meta.MODEL_TYPED:
            for k in ("missing", "foreign", "abstract", "unknown", "case", "kind"):
                out.append((cls, None, "model-type", k))
        for name, typ, required in attrs:
            if required:
                out.append((cls, name, "missing", None))
            for k in KINDS:
                if k not in ACCEPTS[typ[0]] and not (typ[0] == "list" and k == "list"):
                    if typ[0] == "obj" and k == "object":
                        continue  # an object without the mandatory attributes is covered elsewhere
                    out.append((cls, name, "kind", k))
            if typ[0] == "list":
                out.append((cls, name, "empty", None))
                out.append((cls, name, "unwrapped", None))
                out.append((cls, name, "item", "null"))
                out.append((cls, name, "item", "list"))
                out.append((cls, name, "item", "string"))
            if typ[0] == "obj":
                out.append((cls, name, "wrapped", None))
            if typ[0] == "enum":
                for k in ("literal", "case", "space", "other-enum"):
                    out.append((cls, name, "enum", k))
    return out


STRUCTURAL = _catalogue()


def structural_case(src, site, **kw):
    """-> (valid environment, damaged environment, offending path, description)"""
    cls, attr, kind, variant = site
    g = meta.Gen(src, **kw)
    plan = meta.plan_to(src, cls, src.pick([0, 2, 4]))
    if attr:
        plan = plan + [(attr, None)]
    env = g.obj("Environment", (), plan)
    path = g.focus if g.focus is not None else ()
    bad = copy.deepcopy(env)
    o = meta.get(bad, path)
    if attr and kind not in ("missing",) and attr not in o:
        raise Discard()
    typ = meta.ATTRS[cls][attr][0] if attr else None
    at = path + (attr,) if attr else path

    def replace(p, v):
        nonlocal bad
        if not p:
            bad = v
        else:
            meta.get(bad, p[:-1])[p[-1]] = v

    if kind == "missing":
        del o[attr]
        at = path
    elif kind == "unknown":
        name = src.pick(["x", "foo", "unknown", "", "modeltype", "@id", "ä", "a b", "$ref", "a/b", "__class__", "self", "check_aasd_022"])
        o[name] = KINDS[src.pick(list(KINDS))](src)
    elif kind == "unknown-similar":
        own = list(meta.ATTRS[cls])
        cands = [meta.snake(n) for n in own] + [n.capitalize() for n in own] + [n.lower() for n in own] + [n + "s" for n in own]
        cands += [n for c in meta.CLASSES.values() for n, _, _ in c] + ["idShortPath", "id_short_path", "modelTypes"]
        cands = sorted({c for c in cands if c not in own and c != "modelType"})
        name = src.pick(cands)
        o[name] = copy.deepcopy(o[src.pick([k for k in o])]) if o and src.bool() else KINDS[src.pick(list(KINDS))](src)
    elif kind == "not-an-object":
        replace(path, KINDS[variant](src))
    elif kind == "model-type":
        if variant == "missing":
            del o["modelType"]
        elif variant == "abstract":
            o["modelType"] = src.pick(["SubmodelElement", "DataElement", "EventElement", "DataSpecificationContent", "Referable", "Identifiable", "HasSemantics"])
        elif variant == "foreign":
            allowed = {cls}
            parent = path[-2] if path and isinstance(path[-1], int) else (path[-1] if path else None)
            if cls in meta.SMES:
                # some other submodel element would be fine structurally, unless only data elements are allowed
                allowed = set(meta.DATA_ELEMENTS) if parent == "annotations" else set(meta.SMES)
            o["modelType"] = src.pick([c for c in meta.CLASSES if c not in allowed])
        elif variant == "unknown":
            o["modelType"] = src.pick(["Foo", "", " " + cls, cls + " ", "SubmodelElementStruct", cls + "s", "*"])
        elif variant == "case":
            o["modelType"] = src.pick([cls.lower(), cls.upper(), cls[0].lower() + cls[1:]])
        else:
            o["modelType"] = src.pick([None, 0, True, [cls], {"name": cls}, 1.5])
    elif kind == "kind":
        o[attr] = KINDS[variant](src)
    elif kind == "empty":
        o[attr] = []
    elif kind == "unwrapped":
        o[attr] = o[attr][0]
    elif kind == "wrapped":
        o[attr] = [o[attr]]
    elif kind == "item":
        i = src.draw(len(o[attr]))
        o[attr].insert(i, KINDS[variant](src))
        at = at + (i,)
    elif kind == "enum":
        literals = meta.ENUMS[typ[1]]
        old = o[attr]
        if variant == "literal":
            new = src.pick(["unknown", "", "None", "0", "x" * 50, "xs:foo", old + old, old[:-1], "ä"])
        elif variant == "case":
            new = src.pick([old.upper(), old.lower(), old.capitalize(), old.swapcase()])
        elif variant == "space":
            new = src.pick([" " + old, old + " ", old + "\n", "\t" + old])
        else:
            new = src.pick([l for e in meta.ENUMS.values() for l in e] + [l[3:] for l in lex.XSD_TYPES] + ["INSTANCE", "NOT_APPLICABLE", "OFF", "ON", "INPUT", "OUTPUT"])
        if new in literals:
            raise Discard()
        o[attr] = new
    else:
        raise AssertionError(site)
    return env, bad, at, f"{cls}.{attr or ''} {kind} {variant or ''}"


# ------------------------------------------------------------------ violations of constraints

SEMANTIC_CLASSES = [c for c in meta.CLASSES if "supplementalSemanticIds" in meta.ATTRS[c]]
CONTAINERS = [("Submodel", "submodelElements"), ("SubmodelElementCollection", "value"), ("Entity", "statements"), ("AnnotatedRelationshipElement", "annotations")]
NOT_ENGLISH = ["de", "fr", "es", "de-AT", "x-en", "zh-Hans-CN", "i-enochian", "eng", "enm", "de-en", "fr-EN", "x-en-US", "engl", "english", "sgn-EN", "ang", "de-x-en", "ENG", "Eng-GB"]


def ext_ref(v="x"):
    return {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": v}]}


def model_ref(v="x"):
    return {"type": "ModelReference", "keys": [{"type": "Submodel", "value": v}]}


class Ctx:
    """the place where a constraint is to be violated"""

    def __init__(self, src, env, path, gen):
        self.src, self.env, self.path, self.gen = src, env, path, gen
        self.o = meta.get(env, path)

    def element(self, kind, in_list=None, id_short=None):
        e = self.gen.obj(kind, (), None, depth=99, used=set(), **({"in_list": in_list} if in_list else {}))
        if id_short is not None:
            e["idShort"] = id_short
        return e


# each violation: fn(ctx) -> (container path, offending path); both relative to the environment


def v002(c):
    c.o["idShort"] = c.src.pick(["1a", "_a", "a-b", "a b", "ä", "a.b", "a$", "aä", "a\n", "9", " ", "a/b", "aé1", "\u0130a", "-", "a "])
    return c.path, c.path


def v005(c):
    c.o.pop("version", None)
    c.o["revision"] = c.src.pick(["0", "1", "12"])
    return c.path, c.path


def v014(c):
    k = c.src.draw(2)
    c.o.pop("globalAssetId", None)
    c.o.pop("specificAssetIds", None)
    if k == 0:
        c.o["entityType"] = "SelfManagedEntity"
    else:
        c.o["entityType"] = "CoManagedEntity"
        if k == 1:
            c.o["globalAssetId"] = "x"
        else:
            c.o["specificAssetIds"] = [{"name": "n", "value": "v"}]
    return c.path, c.path


def v022(attr):
    def fn(c):
        src = c.src
        els = c.o[attr]
        i = src.draw(len(els) - 1)
        kinds = meta.DATA_ELEMENTS if attr == "annotations" else meta.SMES
        if src.bool():
            e = copy.deepcopy(els[i])
        else:
            e = c.element(src.pick(kinds), id_short=els[i]["idShort"])
        j = src.draw(len(els))
        els.insert(j, e)
        return c.path, c.path

    return fn


def v090(c):
    c.o["category"] = c.src.pick(["FOO", "constant", "PARAMETER ", "VALUE", "VARIABLES", "Variable", "PROPERTY"])
    return c.path, c.path


def near_text(src, s):
    """another text, but hard to tell from s"""
    if s.isdigit():
        return s[:1990] + "01"  # a list index stays one
    i = src.draw(len(s) - 1)
    k = src.draw(8)
    cand = {
        7: s[:i] + (chr(ord(s[i]) + 0xFEE0) if "!" <= s[i] <= "~" else s[i] + "\u200b") + s[i + 1 :],  # the same under compatibility normalisation
        8: s.replace("K", "\u212a").replace(";", "\u037e") if "K" in s or ";" in s else s[:i] + "\u200b" + s[i:1990],  # canonically equivalent
        0: s[:1990] + "01",
        1: s[:i] + s[i].swapcase() + s[i + 1 :],
        2: s.swapcase(),
        3: s[:1990] + src.pick(["/", " ", "\n", "#", "\u00a0", "\u0301"]),
        4: src.pick([" ", "\t", "x"]) + s[:1990],
        5: s[:i] + s[i + 1 :],
        6: s[:i] + s[i] + s[i:1990],
    }[k]
    if not cand or cand == s or len(cand) > 2000 or cand.isdigit():
        return s[:1990] + "01"
    return cand


def other_ref(src, ref):
    """a valid reference that differs from ref"""
    new = copy.deepcopy(ref)
    k = src.draw(3)
    if k == 0:
        key = new["keys"][src.draw(len(new["keys"]) - 1)]
        key["value"] = near_text(src, key["value"])
    elif k == 1:
        new = ext_ref("other") if ref["type"] == "ModelReference" else model_ref("other")
    elif k == 2:
        if new["type"] == "ExternalReference":
            new["keys"].insert(0, {"type": "GlobalReference", "value": "more"})
        else:
            i = 1
            new["keys"].insert(i, {"type": "SubmodelElementCollection", "value": "more"})
    else:
        if new["type"] == "ModelReference":
            t = new["keys"][0]["type"]
            new["keys"][0]["type"] = src.pick([x for x in meta.IDENTIFIABLE_KEYS if x != t])
        else:
            new["keys"].append({"type": "GlobalReference", "value": "more"})
    return new


def v107(c):
    els = c.o["value"]
    ref = c.o.setdefault("semanticIdListElement", els[0].get("semanticId") or c.gen.ref())
    for e in els:
        e.pop("semanticId", None)
        e.pop("supplementalSemanticIds", None)
    i = c.src.draw(len(els) - 1)
    els[i]["semanticId"] = other_ref(c.src, ref)
    return c.path, c.path


def v114(c):
    els = c.o["value"]
    c.o.pop("semanticIdListElement", None)
    while len(els) < 2 or (len(els) < 5 and c.src.bool(0.3)):
        els.insert(c.src.draw(len(els)), copy.deepcopy(els[0]))
    ref = c.gen.ref()
    for e in els:
        e.pop("supplementalSemanticIds", None)
        if c.src.bool():
            e["semanticId"] = copy.deepcopy(ref)
        else:
            e.pop("semanticId", None)
    i, j = c.src.sample(range(len(els)), 2)
    els[i]["semanticId"] = copy.deepcopy(ref)
    els[j]["semanticId"] = other_ref(c.src, ref)
    return c.path, c.path


def v108(c):
    src = c.src
    els = c.o["value"]
    kind = c.o["typeValueListElement"]
    others = [k for k in meta.SMES if k != kind and not (kind == "RelationshipElement" and k == "AnnotatedRelationshipElement")]
    new = src.pick(others)
    vt = c.o.get("valueTypeListElement")
    if new in ("Property", "Range") and vt is None:
        vt = c.o["valueTypeListElement"] = "xs:int"
    sem = next((e["semanticId"] for e in els if "semanticId" in e), None) or c.o.get("semanticIdListElement") or ext_ref()
    e = c.element(new, in_list={"value_type": vt, "semantic": sem})
    if src.bool(0.3):
        els[src.draw(len(els) - 1)] = e
    else:
        els.insert(src.draw(len(els)), e)
    return c.path, c.path


def v109_missing(c):
    c.o["typeValueListElement"] = kind = c.src.pick(["Property", "Range"])
    c.o.pop("valueTypeListElement", None)
    c.o.pop("value", None)
    if c.src.bool():
        c.o["value"] = [{"modelType": kind, "valueType": "xs:int"} for _ in range(c.src.int(1, 3))]
    return c.path, c.path


def v109_mismatch(c):
    kind = c.src.pick(["Property", "Range"])
    t = c.src.pick(lex.XSD_TYPES)
    c.o["typeValueListElement"] = kind
    c.o["valueTypeListElement"] = t
    n = c.src.int(1, 4)
    c.o["value"] = [{"modelType": kind, "valueType": t} for _ in range(n)]
    c.o["value"][c.src.draw(n - 1)]["valueType"] = c.src.pick([x for x in lex.XSD_TYPES if x != t])
    return c.path, c.path


def v_list_type(c):
    c.o["typeValueListElement"] = c.src.pick(["Submodel", "GlobalReference", "Referable", "Identifiable", "AssetAdministrationShell", "ConceptDescription", "FragmentReference"])
    c.o.pop("value", None)
    return c.path, c.path


def v116(c):
    ids = c.o.setdefault("specificAssetIds", [])
    name = c.src.pick(["globalAssetId", "globalassetid", "GLOBALASSETID", "GlobalAssetId", "globalAssetID"])
    ids.insert(c.src.draw(len(ids)), {"name": name, "value": "v"})
    return c.path, c.path


def v117(attr):
    def fn(c):
        els = c.o[attr]
        i = c.src.draw(len(els) - 1)
        del els[i]["idShort"]
        return c.path, c.path + (attr, i)

    return fn


def v117_var(c):
    del c.o["value"]["idShort"]
    return c.path, c.path + ("value",)


def v118(c):
    c.o.pop("semanticId", None)
    c.o["supplementalSemanticIds"] = [c.gen.ref() for _ in range(c.src.int(1, 2))]
    return c.path, c.path


def template_qualifier(c):
    q = {"type": "t-new", "valueType": "xs:int", "kind": "TemplateQualifier"}
    qs = c.o.setdefault("qualifiers", [])
    qs.insert(c.src.draw(len(qs)), q)


def set_instance(c, submodel):
    if c.src.bool():
        submodel["kind"] = "Instance"
    else:
        submodel.pop("kind", None)


def v119(c):
    template_qualifier(c)
    set_instance(c, c.o)
    return c.path, c.path


def v120(c):
    els = c.o["value"]
    i = c.src.draw(len(els) - 1)
    els[i]["idShort"] = "a%d" % i
    return c.path, c.path + ("value", i)


def v129(c):
    # remove all other template qualifiers of the submodel, so that this one decides
    sm = c.env["submodels"][c.path[1]]
    for _, k, o in meta.walk("Submodel", sm):
        if k == "Qualifier" and o.get("kind") == "TemplateQualifier":
            o["kind"] = "ValueQualifier"
    template_qualifier(c)
    set_instance(c, sm)
    return c.path[:2], c.path


def v131(c):
    c.o.pop("globalAssetId", None)
    c.o.pop("specificAssetIds", None)
    return c.path, c.path


def v133(c):
    c.o["externalSubjectId"] = c.gen.ref(kind="ModelReference")
    return c.path, c.path


def v134(c):
    names = ["inputVariables", "outputVariables", "inoutputVariables"]
    used = [v["value"]["idShort"] for n in names for v in c.o.get(n, [])] or ["dup"]
    if used == ["dup"]:
        c.o["inputVariables"] = [{"value": c.element("Capability", id_short="dup")}]
    e = {"value": c.element(c.src.pick(meta.SMES), id_short=c.src.pick(used))}
    l = c.o.setdefault(c.src.pick(names), [])
    l.insert(c.src.draw(len(l)), e)
    return c.path, c.path


def v3a002(c):
    start = c.src.draw(len(NOT_ENGLISH) - 1)
    for i, e in enumerate(c.o["preferredName"]):
        e["language"] = NOT_ENGLISH[(start + i) % len(NOT_ENGLISH)]
    return c.path, c.path


def cd_specs(c):
    """the data specifications of a concept description, made neutral; one of them is chosen"""
    l = c.o.setdefault("embeddedDataSpecifications", [])
    while len(l) < 1 or (len(l) < 3 and c.src.bool(0.4)):
        l.insert(c.src.draw(len(l)), c.gen.obj("EmbeddedDataSpecification", (), None, need_definition=True))
    for e in l:
        d = e["dataSpecificationContent"]
        d["unit"] = "m"
        if "value" not in d and "definition" not in d:
            d["definition"] = [{"language": "en", "text": "x"}]
    i = c.src.draw(len(l) - 1)
    return l, i, l[i]["dataSpecificationContent"]


def v3a_type(categories, missing_too):
    def fn(c):
        cat = c.src.pick(categories)
        c.o["category"] = cat
        l, i, d = cd_specs(c)
        for e in l:
            e["dataSpecificationContent"]["dataType"] = c.src.pick(meta.CD_TYPES[cat])
        wrong = [t for t in meta.ENUMS["DataTypeIec61360"] if t not in meta.CD_TYPES[cat]]
        if missing_too and (not wrong or c.src.bool(0.25)):
            d.pop("dataType")
        else:
            d["dataType"] = c.src.pick(wrong)
        return c.path, c.path + ("embeddedDataSpecifications", i, "dataSpecificationContent")

    return fn


def v3a008(c):
    l, i, d = cd_specs(c)
    c.o.pop("category", None)
    d.pop("value", None)
    if c.src.bool():
        d.pop("definition", None)
    else:
        d["definition"] = [{"language": x, "text": "x"} for x in c.src.sample(NOT_ENGLISH, c.src.int(1, 3))]
    return c.path, c.path + ("embeddedDataSpecifications", i, "dataSpecificationContent")


def v3a009(c):
    c.o["dataType"] = c.src.pick(meta.MEASURES)
    c.o.pop("unit", None)
    c.o.pop("unitId", None)
    return c.path, c.path


def v3a010(c):
    c.o["value"] = "x"
    c.o["valueList"] = {"valueReferencePairs": [{"value": "x", "valueId": ext_ref()}]}
    return c.path, c.path


def v_model_ref(attr):
    def fn(c):
        if attr == "submodels":
            l = c.o.setdefault("submodels", [])
            l.insert(c.src.draw(len(l)), c.gen.ref(kind="ExternalReference"))
        else:
            c.o[attr] = c.gen.ref(kind="ExternalReference")
        return c.path, c.path

    return fn


def ref_violation(name):
    def fn(c):
        src, o = c.src, c.o
        o.pop("referredSemanticId", None)

        def key(t, v="x"):
            return {"type": t, "value": v}

        sme = src.pick([k for k in meta.SME_KEYS if k != "SubmodelElementList"])
        plain = [k for k in meta.SME_KEYS if k not in ("SubmodelElementList", "File", "Blob")]
        ident = src.pick(meta.IDENTIFIABLE_KEYS)
        if name == "AASd-121":
            if src.bool():
                o["type"] = "ModelReference"
                o["keys"] = [key(src.pick(meta.SME_KEYS + ["FragmentReference", "Referable"]))]
            else:
                o["type"] = "ExternalReference"
                o["keys"] = [key(src.pick(meta.SME_KEYS + ["FragmentReference", "Referable"])), key("GlobalReference")]
        elif name == "AASd-122":
            o["type"] = "ExternalReference"
            o["keys"] = [key(ident)] + [key("GlobalReference")] * src.int(0, 2) + [key("FragmentReference")] * src.int(0, 1)
        elif name == "AASd-123":
            o["type"] = "ModelReference"
            o["keys"] = [key("GlobalReference")] + [key(sme)] * src.int(0, 2)
        elif name == "AASd-124":
            o["type"] = "ExternalReference"
            o["keys"] = [key("GlobalReference")] * src.int(1, 2) + [key(src.pick(meta.SME_KEYS + meta.IDENTIFIABLE_KEYS + ["Referable"]))]
        elif name == "AASd-125":
            o["type"] = "ModelReference"
            o["keys"] = [key(ident)] + [key(sme)] * src.int(0, 2) + [key(src.pick(meta.IDENTIFIABLE_KEYS + ["GlobalReference", "Referable"]))] + [key(sme)] * src.int(0, 2)
        elif name == "AASd-126":
            o["type"] = "ModelReference"
            o["keys"] = [key(ident)] + [key(sme)] * src.int(0, 1) + [key(src.pick(["File", "Blob"])), key("FragmentReference"), key(sme)] + [key(sme)] * src.int(0, 1)
        elif name == "AASd-127":
            o["type"] = "ModelReference"
            o["keys"] = [key(ident)] + [key(src.pick(plain))] * src.int(0, 2) + [key("FragmentReference")]
        elif name == "AASd-128":
            o["type"] = "ModelReference"
            bad = src.pick(["x", "1.5", "-1", "1e3", "a1", "[0]", "0x1", "1 2", "٣", "-", "i", "one"])
            o["keys"] = [key(ident)] + [key(sme)] * src.int(0, 1) + [key("SubmodelElementList"), key(sme, bad)] + [key(sme)] * src.int(0, 1)
        # every position of a reference is inside its parent, which may have rules about the kind of reference
        return c.path, c.path

    return fn


def v130(attr):
    def fn(c):
        s = c.o[attr]
        s = s[: len(s) - 1] if len(s) > 1 else ""
        i = c.src.draw(len(s))
        c.o[attr] = s[:i] + c.src.pick(lex.NON_XML) + s[i:]
        return c.path, c.path + (attr,)

    return fn


def _constraints():
    """[(name to appear in the report or None, label, host: ("cls", class, forced attr) or ("edge", parent, attr), fn)]"""
    out = []

    def add(name, cls, fn, force=None, label=None):
        out.append((name, label or name, ("cls", cls, force), fn))

    for cls in meta.REFERABLES:
        add("AASd-002", cls, v002, "idShort")
    add("AASd-005", "AdministrativeInformation", v005)
    add("AASd-014", "Entity", v014)
    for cls, attr in CONTAINERS:
        add("AASd-022", cls, v022(attr), attr)
        add("AASd-117", cls, v117(attr), attr)
    for cls in meta.DATA_ELEMENTS:
        add("AASd-090", cls, v090)
    add("AASd-107", "SubmodelElementList", v107, "value")
    add("AASd-108", "SubmodelElementList", v108, "value")
    add("AASd-109", "SubmodelElementList", v109_missing)
    add("AASd-109", "SubmodelElementList", v109_mismatch)
    add("AASd-114", "SubmodelElementList", v114, "value")
    add("AASd-120", "SubmodelElementList", v120, "value")
    add(None, "SubmodelElementList", v_list_type, label="typeValueListElement")
    add("AASd-116", "AssetInformation", v116)
    add("AASd-131", "AssetInformation", v131)
    add("AASd-117", "OperationVariable", v117_var)
    for cls in SEMANTIC_CLASSES:
        add("AASd-118", cls, v118)
    add("AASd-119", "Submodel", v119)
    for cls in meta.SMES:
        add("AASd-129", cls, v129)
    add("AASd-133", "SpecificAssetId", v133)
    add("AASd-134", "Operation", v134)
    add("AASc-3a-002", "DataSpecificationIec61360", v3a002)
    add("AASc-3a-009", "DataSpecificationIec61360", v3a009)
    add("AASc-3a-010", "DataSpecificationIec61360", v3a010)
    add("AASc-3a-004", "ConceptDescription", v3a_type(["PROPERTY", "VALUE"], True))
    add("AASc-3a-005", "ConceptDescription", v3a_type(["REFERENCE"], False))
    add("AASc-3a-006", "ConceptDescription", v3a_type(["DOCUMENT"], False))
    add("AASc-3a-007", "ConceptDescription", v3a_type(["QUALIFIER_TYPE"], True))
    add("AASc-3a-008", "ConceptDescription", v3a008)
    add(None, "AssetAdministrationShell", v_model_ref("derivedFrom"), label="derivedFrom")
    add(None, "AssetAdministrationShell", v_model_ref("submodels"), label="submodels")
    add(None, "BasicEventElement", v_model_ref("observed"), label="observed")
    add(None, "BasicEventElement", v_model_ref("messageBroker"), label="messageBroker")
    for parent, attr, child in meta.EDGES:
        if child == "Reference":
            for n in range(121, 129):
                out.append((f"AASd-{n}", f"AASd-{n}", ("edge", parent, attr), ref_violation(f"AASd-{n}")))
    return out


CONSTRAINTS = _constraints()
XML_CHARS = [
    (cls, attr) for cls, attrs in meta.CLASSES.items() for attr, typ, _ in attrs if typ[0] in ("str", "typed") and typ != ("str", "lang")
]


def constraint_case(src, entry, **kw):
    """-> (valid environment, violating environment, container path, offending path)"""
    name, label, host, fn = entry
    g = meta.Gen(src, **kw)
    kind, cls, attr = host
    extra = src.pick([0, 2, 4])
    if kind == "cls":
        plan = meta.plan_to(src, cls, extra)
        if attr:
            plan = plan + [(attr, None)]
    else:
        plan = meta.plan_to(src, cls, extra) + [(attr, "Reference")]
    env = g.obj("Environment", (), plan)
    path = g.focus
    bad = copy.deepcopy(env)
    c = Ctx(src, bad, path, g)
    if kind == "cls" and attr and attr not in c.o:
        raise Discard()
    container, at = fn(c)
    return env, bad, container, at
