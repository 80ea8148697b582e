"""
The AAS meta-model V3.0 (Part 1, and Part 3a for IEC 61360) as tables, written from the specification and
independent of /repo, plus a generator of environments that are valid by construction.
"""

import copy

import lex

# attribute type: ("str", rule) ("bool",) ("enum", name) ("obj", cls) ("list", cls) ("typed",)
# ("typed",) is a string whose form depends on a value type

ENUMS = {
    "KeyType": ["AnnotatedRelationshipElement", "AssetAdministrationShell", "BasicEventElement", "Blob", "Capability", "ConceptDescription", "DataElement", "Entity", "EventElement", "File", "FragmentReference", "GlobalReference", "Identifiable", "MultiLanguageProperty", "Operation", "Property", "Range", "Referable", "ReferenceElement", "RelationshipElement", "Submodel", "SubmodelElement", "SubmodelElementCollection", "SubmodelElementList"],
    "ReferenceType": ["ExternalReference", "ModelReference"],
    "DataTypeDefXsd": lex.XSD_TYPES,
    "DataTypeIec61360": ["BLOB", "BOOLEAN", "DATE", "FILE", "HTML", "INTEGER_COUNT", "INTEGER_CURRENCY", "INTEGER_MEASURE", "IRDI", "IRI", "RATIONAL", "RATIONAL_MEASURE", "REAL_COUNT", "REAL_CURRENCY", "REAL_MEASURE", "STRING", "STRING_TRANSLATABLE", "TIME", "TIMESTAMP"],
    "ModellingKind": ["Instance", "Template"],
    "QualifierKind": ["ConceptQualifier", "TemplateQualifier", "ValueQualifier"],
    "AssetKind": ["Instance", "NotApplicable", "Type"],
    "StateOfEvent": ["on", "off"],
    "Direction": ["input", "output"],
    "EntityType": ["CoManagedEntity", "SelfManagedEntity"],
}

REF = ("obj", "Reference")
REFS = ("list", "Reference")

_ext = [("extensions", ("list", "Extension"), False)]
_referable = _ext + [
    ("category", ("str", "name"), False),
    ("idShort", ("str", "idshort"), False),
    ("displayName", ("list", "LangName"), False),
    ("description", ("list", "LangText"), False),
]
_identifiable = _referable + [("administration", ("obj", "AdministrativeInformation"), False), ("id", ("str", "id"), True)]
_kind = [("kind", ("enum", "ModellingKind"), False)]
_semantics = [("semanticId", REF, False), ("supplementalSemanticIds", REFS, False)]
_qualifiable = [("qualifiers", ("list", "Qualifier"), False)]
_ds = [("embeddedDataSpecifications", ("list", "EmbeddedDataSpecification"), False)]
_sme = _referable + _semantics + _qualifiable + _ds
_data_element = [(n, ("str", "category_data") if n == "category" else t, r) for n, t, r in _sme]


def _lang(rule):
    return [("language", ("str", "lang"), True), ("text", ("str", rule), True)]


CLASSES = {
    "Environment": [
        ("assetAdministrationShells", ("list", "AssetAdministrationShell"), False),
        ("submodels", ("list", "Submodel"), False),
        ("conceptDescriptions", ("list", "ConceptDescription"), False),
    ],
    "AssetAdministrationShell": _identifiable + _ds + [
        ("derivedFrom", REF, False),
        ("assetInformation", ("obj", "AssetInformation"), True),
        ("submodels", REFS, False),
    ],
    "Submodel": _identifiable + _kind + _semantics + _qualifiable + _ds + [
        ("submodelElements", ("list", "SubmodelElement"), False),
    ],
    "ConceptDescription": _identifiable + _ds + [("isCaseOf", REFS, False)],
    "AssetInformation": [
        ("assetKind", ("enum", "AssetKind"), True),
        ("globalAssetId", ("str", "id"), False),
        ("specificAssetIds", ("list", "SpecificAssetId"), False),
        ("assetType", ("str", "id"), False),
        ("defaultThumbnail", ("obj", "Resource"), False),
    ],
    "Resource": [("path", ("str", "path"), True), ("contentType", ("str", "ctype"), False)],
    "SpecificAssetId": _semantics + [
        ("name", ("str", "label"), True),
        ("value", ("str", "id"), True),
        ("externalSubjectId", REF, False),
    ],
    "AdministrativeInformation": _ds + [
        ("version", ("str", "version"), False),
        ("revision", ("str", "revision"), False),
        ("creator", REF, False),
        ("templateId", ("str", "id"), False),
    ],
    "Extension": _semantics + [
        ("name", ("str", "name"), True),
        ("valueType", ("enum", "DataTypeDefXsd"), False),
        ("value", ("typed",), False),
        ("refersTo", REFS, False),
    ],
    "Qualifier": _semantics + [
        ("kind", ("enum", "QualifierKind"), False),
        ("type", ("str", "name"), True),
        ("valueType", ("enum", "DataTypeDefXsd"), True),
        ("value", ("typed",), False),
        ("valueId", REF, False),
    ],
    "Reference": [
        ("type", ("enum", "ReferenceType"), True),
        ("referredSemanticId", REF, False),
        ("keys", ("list", "Key"), True),
    ],
    "Key": [("type", ("enum", "KeyType"), True), ("value", ("str", "id"), True)],
    "LangName": _lang("text128"),
    "LangText": _lang("text1023"),
    "LangDefinition": _lang("text1023"),
    "LangPreferredName": _lang("text255"),
    "LangShortName": _lang("text18"),
    "EmbeddedDataSpecification": [
        ("dataSpecification", REF, True),
        ("dataSpecificationContent", ("obj", "DataSpecificationContent"), True),
    ],
    "DataSpecificationIec61360": [
        ("preferredName", ("list", "LangPreferredName"), True),
        ("shortName", ("list", "LangShortName"), False),
        ("unit", ("str", "nonempty"), False),
        ("unitId", REF, False),
        ("sourceOfDefinition", ("str", "nonempty"), False),
        ("symbol", ("str", "nonempty"), False),
        ("dataType", ("enum", "DataTypeIec61360"), False),
        ("definition", ("list", "LangDefinition"), False),
        ("valueFormat", ("str", "nonempty"), False),
        ("valueList", ("obj", "ValueList"), False),
        ("value", ("str", "value2000"), False),
        ("levelType", ("obj", "LevelType"), False),
    ],
    "ValueList": [("valueReferencePairs", ("list", "ValueReferencePair"), True)],
    "ValueReferencePair": [("value", ("str", "id"), True), ("valueId", REF, True)],
    "LevelType": [(n, ("bool",), True) for n in ("min", "nom", "typ", "max")],
    "RelationshipElement": _sme + [("first", REF, True), ("second", REF, True)],
    "AnnotatedRelationshipElement": _sme + [("first", REF, True), ("second", REF, True), ("annotations", ("list", "DataElement"), False)],
    "BasicEventElement": _sme + [
        ("observed", REF, True),
        ("direction", ("enum", "Direction"), True),
        ("state", ("enum", "StateOfEvent"), True),
        ("messageTopic", ("str", "topic"), False),
        ("messageBroker", REF, False),
        ("lastUpdate", ("str", "datetime"), False),
        ("minInterval", ("str", "duration"), False),
        ("maxInterval", ("str", "duration"), False),
    ],
    "Blob": _data_element + [("value", ("str", "blob"), False), ("contentType", ("str", "ctype"), True)],
    "Capability": _sme,
    "Entity": _sme + [
        ("statements", ("list", "SubmodelElement"), False),
        ("entityType", ("enum", "EntityType"), True),
        ("globalAssetId", ("str", "id"), False),
        ("specificAssetIds", ("list", "SpecificAssetId"), False),
    ],
    "File": _data_element + [("value", ("str", "path"), False), ("contentType", ("str", "ctype"), True)],
    "MultiLanguageProperty": _data_element + [("value", ("list", "LangText"), False), ("valueId", REF, False)],
    "Operation": _sme + [
        ("inputVariables", ("list", "OperationVariable"), False),
        ("outputVariables", ("list", "OperationVariable"), False),
        ("inoutputVariables", ("list", "OperationVariable"), False),
    ],
    "OperationVariable": [("value", ("obj", "SubmodelElement"), True)],
    "Property": _data_element + [("valueType", ("enum", "DataTypeDefXsd"), True), ("value", ("typed",), False), ("valueId", REF, False)],
    "Range": _data_element + [("valueType", ("enum", "DataTypeDefXsd"), True), ("min", ("typed",), False), ("max", ("typed",), False)],
    "ReferenceElement": _data_element + [("value", REF, False)],
    "SubmodelElementCollection": _sme + [("value", ("list", "SubmodelElement"), False)],
    "SubmodelElementList": _sme + [
        ("orderRelevant", ("bool",), False),
        ("semanticIdListElement", REF, False),
        ("typeValueListElement", ("enum", "KeyType"), True),
        ("valueTypeListElement", ("enum", "DataTypeDefXsd"), False),
        ("value", ("list", "SubmodelElement"), False),
    ],
}

DATA_ELEMENTS = ["Property", "MultiLanguageProperty", "Range", "Blob", "File", "ReferenceElement"]
SMES = DATA_ELEMENTS + ["Capability", "SubmodelElementCollection", "SubmodelElementList", "Entity", "Operation", "RelationshipElement", "AnnotatedRelationshipElement", "BasicEventElement"]
ABSTRACT = {"SubmodelElement": SMES, "DataElement": DATA_ELEMENTS, "DataSpecificationContent": ["DataSpecificationIec61360"]}
MODEL_TYPED = set(SMES) | {"AssetAdministrationShell", "Submodel", "ConceptDescription", "DataSpecificationIec61360"}
REFERABLES = SMES + ["AssetAdministrationShell", "Submodel", "ConceptDescription"]
ATTRS = {c: {n: (t, r) for n, t, r in attrs} for c, attrs in CLASSES.items()}
XML_ITEM = {
    "LangName": "langStringNameType", "LangText": "langStringTextType", "LangDefinition": "langStringDefinitionTypeIec61360",
    "LangPreferredName": "langStringPreferredNameTypeIec61360", "LangShortName": "langStringShortNameTypeIec61360",
}
# class names as the API of the SUT knows them
SUT_NAME = {
    "LangName": "MultiLanguageNameType", "LangText": "MultiLanguageTextType", "LangDefinition": "DefinitionTypeIec61360",
    "LangPreferredName": "PreferredNameTypeIec61360", "LangShortName": "ShortNameTypeIec61360",
}

SME_KEYS = ["AnnotatedRelationshipElement", "BasicEventElement", "Blob", "Capability", "DataElement", "Entity", "EventElement", "File", "MultiLanguageProperty", "Operation", "Property", "Range", "ReferenceElement", "RelationshipElement", "SubmodelElement", "SubmodelElementCollection", "SubmodelElementList"]
IDENTIFIABLE_KEYS = ["AssetAdministrationShell", "ConceptDescription", "Identifiable", "Submodel"]

MEASURES = ["INTEGER_MEASURE", "REAL_MEASURE", "RATIONAL_MEASURE", "INTEGER_CURRENCY", "REAL_CURRENCY"]
CD_TYPES = {
    "PROPERTY": ["DATE", "STRING", "STRING_TRANSLATABLE", "INTEGER_MEASURE", "INTEGER_COUNT", "INTEGER_CURRENCY", "REAL_MEASURE", "REAL_COUNT", "REAL_CURRENCY", "BOOLEAN", "RATIONAL", "RATIONAL_MEASURE", "TIME", "TIMESTAMP"],
    "REFERENCE": ["STRING", "IRI", "IRDI"],
    "DOCUMENT": ["FILE", "BLOB", "HTML"],
    "QUALIFIER_TYPE": ENUMS["DataTypeIec61360"],
}
CD_TYPES["VALUE"] = CD_TYPES["PROPERTY"]
IEC_REF = "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"


def concrete(cls):
    return ABSTRACT.get(cls, [cls])


def edges_of(cls):
    """[(attr, child class)] for all object valued attributes, child classes concrete"""
    out = []
    for n, t, _ in CLASSES[cls]:
        if t[0] in ("obj", "list"):
            for c in concrete(t[1]):
                out.append((n, c))
    return out


EDGES = [(c, a, d) for c in CLASSES for a, d in edges_of(c)]
_reach_cache = {}


def _reach(target, k):
    """classes from which target is reached in exactly k edges"""
    key = (target, k)
    if key not in _reach_cache:
        if k == 0:
            _reach_cache[key] = {target}
        else:
            prev = _reach(target, k - 1)
            _reach_cache[key] = {c for c, _, d in EDGES if d in prev}
    return _reach_cache[key]


def plan_to(src, target, extra=3, root="Environment"):
    """A random chain of edges [(attr, child)] from the root class to an object of class target"""
    feasible = [k for k in range(0, 9) if root in _reach(target, k)]
    k = feasible[0]
    more = [x for x in feasible if x <= feasible[0] + extra]
    k = more[src.draw(len(more) - 1)]
    plan = []
    cur = root
    while k > 0:
        ok = _reach(target, k - 1)
        options = [(a, d) for a, d in edges_of(cur) if d in ok]
        # attributes first, so that containers with many kinds of children do not dominate
        names = []
        for a, _ in options:
            if a not in names:
                names.append(a)
        a = src.pick(names)
        d = src.pick([d for a2, d in options if a2 == a])
        plan.append((a, d))
        cur = d
        k -= 1
    return plan


class Gen:
    """
    Generator of valid objects.  `plan` forces a chain of attributes so that an object of a chosen class exists at
    a random place; its path is stored in self.focus.
    """

    def __init__(self, src, density=None, budget=60, wild=True, max_depth=4, unique_ids=True):
        self.src = src
        self.density = density if density is not None else src.pick([0.15, 0.0, 0.4, 0.8, 1.0])
        self.budget = budget
        self.wild = wild
        self.max_depth = max_depth
        self.focus = None
        self.template = False
        self.n_ids = 0
        self.value_types = lex.XSD_TYPES

    # -- helpers

    def want(self, name, plan):
        if plan and plan[0][0] == name:
            return True
        if self.budget <= 0:
            return False
        return self.src.bool(self.density)

    def string(self, rule):
        return lex.gen_rule(self.src, rule, self.wild)

    def identifier(self):
        self.n_ids += 1
        s = self.string("id")
        suffix = "-%d" % self.n_ids
        return s[: 2000 - len(suffix)] + suffix

    def child_plan(self, name, plan):
        # an edge (name, None) only forces the attribute, the focus is the object which has it
        return plan[1:] if plan and plan[0][0] == name and plan[0][1] is not None else None

    def forced(self, name, plan):
        return bool(plan) and plan[0][0] == name

    def count(self, lo=1):
        if self.budget <= 0:
            return lo
        return self.src.size(lo, lo + 3, 0.4)

    def mark(self, plan, path):
        self.budget -= 1
        if plan is not None and (len(plan) == 0 or plan[0][1] is None):
            self.focus = path

    # -- generic objects

    def obj(self, cls, path=(), plan=None, **kw):
        fn = getattr(self, "gen_" + cls, None)
        self.mark(plan, path)
        if fn:
            return fn(path, plan, **kw)
        return self.plain(cls, path, plan, **kw)

    def plain(self, cls, path, plan, skip=(), **kw):
        out = {}
        self.fill(out, cls, path, plan, skip)
        return out

    def fill(self, out, cls, path, plan, skip=(), only=None):
        for name, typ, required in CLASSES[cls]:
            if name in skip or name in out or (only and name not in only):
                continue
            if not required and not self.want(name, plan):
                continue
            out[name] = self.attr(typ, path + (name,), self.child_plan(name, plan), plan[0][1] if plan and plan[0][0] == name else None)

    def attr(self, typ, path, plan, child=None):
        src = self.src
        k = typ[0]
        if k == "str":
            return self.string(typ[1])
        if k == "bool":
            return src.bool()
        if k == "enum":
            return src.pick(ENUMS[typ[1]])
        if k == "obj":
            cls = child or src.pick(concrete(typ[1]))
            if cls == "Reference":
                return self.ref(path, plan)
            return self.obj(cls, path, plan)
        if k == "list":
            return self.list(typ[1], path, plan, child)
        raise AssertionError(typ)

    def list(self, cls, path, plan=None, child=None, n=None):
        """homogeneous list of objects without further relations among them"""
        n = n or self.count()
        at = self.src.draw(n - 1) if plan is not None else None
        out = []
        for i in range(n):
            p = plan if i == at else None
            c = child if i == at and child else self.src.pick(concrete(cls))
            if c == "Reference":
                out.append(self.ref(path + (i,), p))
            else:
                out.append(self.obj(c, path + (i,), p))
        if cls.startswith("Lang"):
            seen = []
            for i, e in enumerate(out):
                if e["language"] in seen:
                    e["language"] = "x-l%d" % i
                seen.append(e["language"])
        return out

    # -- references

    def ref(self, path=(), plan=None, kind=None):
        src = self.src
        self.mark(plan, path)
        kind = kind or src.pick(["ExternalReference", "ModelReference"])
        out = {"type": kind}
        keys = []
        if kind == "ExternalReference":
            keys.append("GlobalReference")
            for _ in range(src.size(0, 2, 0.25)):
                keys.append("GlobalReference")
            if src.bool(0.2):
                keys.append("FragmentReference")
        else:
            keys.append(src.pick(["Submodel"] + IDENTIFIABLE_KEYS))
            for _ in range(src.size(0, 3, 0.4)):
                keys.append(src.pick(SME_KEYS))
            if keys[-1] in ("File", "Blob") and src.bool():
                keys.append("FragmentReference")
        ks = []
        at = src.draw(len(keys) - 1) if self.child_plan("keys", plan) is not None else None
        for i, t in enumerate(keys):
            if i and kind == "ModelReference" and keys[i - 1] == "SubmodelElementList":
                v = str(src.pick([0, 1, 7, 12345678901234567890123]))
            else:
                v = self.string("id")
            ks.append({"type": t, "value": v})
            self.mark(plan[1:] if i == at else None, path + ("keys", i))
        out["keys"] = ks
        if (plan and plan[0][0] == "referredSemanticId") or (self.budget > 0 and src.bool(self.density * 0.15)):
            out["referredSemanticId"] = self.ref(path + ("referredSemanticId",), self.child_plan("referredSemanticId", plan))
        return out

    # -- mixins

    def semantics(self, out, path, plan, forced=None):
        """semanticId and supplementalSemanticIds; forced: None, or the reference to use"""
        want_sup = self.want("supplementalSemanticIds", plan)
        want_sem = self.want("semanticId", plan)
        if want_sem or want_sup:
            if forced is not None:
                out["semanticId"] = copy.deepcopy(forced)
                p = self.child_plan("semanticId", plan)
                if p is not None:
                    self.locate(out["semanticId"], path + ("semanticId",), p)
            else:
                out["semanticId"] = self.ref(path + ("semanticId",), self.child_plan("semanticId", plan))
        if want_sup:
            out["supplementalSemanticIds"] = self.list("Reference", path + ("supplementalSemanticIds",), self.child_plan("supplementalSemanticIds", plan), "Reference")

    def locate(self, obj, path, plan):
        """follow a plan through an existing object (a copied reference), extending it where needed"""
        while plan:
            name, child = plan[0]
            if child is None:
                if name == "referredSemanticId" and name not in obj:
                    obj[name] = self.ref()
                break
            if name == "keys":
                path, obj, plan = path + ("keys", 0), obj["keys"][0], plan[1:]
            else:
                if name not in obj:
                    obj[name] = self.ref()
                path, obj, plan = path + (name,), obj[name], plan[1:]
        self.focus = path

    def qualifiers(self, out, path, plan):
        if self.want("qualifiers", plan):
            qs = self.list("Qualifier", path + ("qualifiers",), self.child_plan("qualifiers", plan), "Qualifier")
            for i, q in enumerate(qs):
                q["type"] = q["type"][:120] + "-%d" % i
            out["qualifiers"] = qs

    def extensions(self, out, path, plan):
        if self.want("extensions", plan):
            es = self.list("Extension", path + ("extensions",), self.child_plan("extensions", plan), "Extension")
            for i, e in enumerate(es):
                e["name"] = e["name"][:120] + "-%d" % i
            out["extensions"] = es

    def data_specs(self, out, path, plan, **kw):
        if self.want("embeddedDataSpecifications", plan):
            p = self.child_plan("embeddedDataSpecifications", plan)
            n = self.src.size(1, 2, 0.2)
            at = self.src.draw(n - 1) if p is not None else None
            out["embeddedDataSpecifications"] = [
                self.obj("EmbeddedDataSpecification", path + ("embeddedDataSpecifications", i), p if i == at else None, **kw)
                for i in range(n)
            ]

    def gen_Qualifier(self, path, plan, **kw):
        out = {}
        src = self.src
        self.semantics(out, path, plan)
        out["type"] = self.string("name")
        t = src.pick(self.value_types)
        out["valueType"] = t
        if self.want("kind", plan):
            out["kind"] = src.pick(["ConceptQualifier", "ValueQualifier"] + (["TemplateQualifier"] * 2 if self.template else []))
        if self.want("value", plan) or src.bool(0.3):
            out["value"] = lex.gen_xsd(src, t, self.wild)
        self.fill(out, "Qualifier", path, plan, only=["valueId"])
        return out

    def gen_Extension(self, path, plan, **kw):
        out = {}
        src = self.src
        self.semantics(out, path, plan)
        out["name"] = self.string("name")
        t = None
        if self.want("valueType", plan):
            t = src.pick(self.value_types)
            out["valueType"] = t
        if self.want("value", plan):
            # without a value type the default xs:string applies
            out["value"] = lex.gen_xsd(src, t or "xs:string", self.wild)
        self.fill(out, "Extension", path, plan, only=["refersTo"])
        return out

    def gen_AdministrativeInformation(self, path, plan, **kw):
        out = {}
        self.data_specs(out, path, plan)
        rev = self.want("revision", plan)
        if rev or self.want("version", plan):
            out["version"] = self.string("version")
        if rev:
            out["revision"] = self.string("revision")
        self.fill(out, "AdministrativeInformation", path, plan, only=["creator", "templateId"])
        return out

    def gen_EmbeddedDataSpecification(self, path, plan, **kw):
        src = self.src
        p = self.child_plan("dataSpecification", plan)
        if p is None and src.bool(0.8):
            ds = {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": IEC_REF}]}
        else:
            ds = self.ref(path + ("dataSpecification",), p)
        return {
            "dataSpecification": ds,
            "dataSpecificationContent": self.obj("DataSpecificationIec61360", path + ("dataSpecificationContent",), self.child_plan("dataSpecificationContent", plan), **kw),
        }

    def english_first(self, items):
        if not any(i["language"] in ("en", "EN") or i["language"].startswith(("en-", "EN-")) for i in items):
            k = self.src.draw(len(items) - 1)
            items[k]["language"] = self.src.pick(["en", "en-US", "EN", "en-GB-oed", "en-x-a", "EN-us", "en-Latn-GB"])

    def gen_DataSpecificationIec61360(self, path, plan, types=None, type_required=False, need_definition=False, **kw):
        src = self.src
        out = {"modelType": "DataSpecificationIec61360"}
        value = value_list = False
        if self.forced("value", plan):
            value = True
        elif self.want("valueList", plan):
            value_list = True
        elif self.want("value", plan):
            value = True
        out["preferredName"] = self.list("LangPreferredName", path + ("preferredName",), self.child_plan("preferredName", plan), "LangPreferredName")
        self.english_first(out["preferredName"])
        self.fill(out, "DataSpecificationIec61360", path, plan, only=["shortName", "unit", "unitId", "sourceOfDefinition", "symbol"])
        if type_required or self.want("dataType", plan):
            out["dataType"] = src.pick(types or ENUMS["DataTypeIec61360"])
            if out["dataType"] in MEASURES and "unit" not in out and "unitId" not in out:
                if src.bool(0.6):
                    out["unit"] = self.string("nonempty")
                else:
                    out["unitId"] = self.ref()
        if (need_definition and not value) or self.want("definition", plan):
            out["definition"] = self.list("LangDefinition", path + ("definition",), self.child_plan("definition", plan), "LangDefinition")
            if need_definition and not value:
                self.english_first(out["definition"])
        self.fill(out, "DataSpecificationIec61360", path, plan, only=["valueFormat", "levelType"])
        if value_list:
            out["valueList"] = self.obj("ValueList", path + ("valueList",), self.child_plan("valueList", plan))
        if value:
            out["value"] = self.string("value2000")
        return out

    def gen_SpecificAssetId(self, path, plan, **kw):
        out = {}
        self.semantics(out, path, plan)
        out["name"] = self.string("label")
        if out["name"].lower() == "globalassetid":
            out["name"] = "x"
        out["value"] = self.string("id")
        if self.want("externalSubjectId", plan):
            out["externalSubjectId"] = self.ref(path + ("externalSubjectId",), self.child_plan("externalSubjectId", plan), "ExternalReference")
        return out

    def gen_AssetInformation(self, path, plan, **kw):
        out = {"assetKind": self.src.pick(ENUMS["AssetKind"])}
        self.fill(out, "AssetInformation", path, plan)
        if "globalAssetId" not in out and "specificAssetIds" not in out:
            if self.src.bool(0.7):
                out["globalAssetId"] = self.string("id")
            else:
                out["specificAssetIds"] = self.list("SpecificAssetId", path + ("specificAssetIds",))
        return out

    # -- identifiables

    def gen_Environment(self, path, plan, **kw):
        out = {}
        for name, cls in (("assetAdministrationShells", "AssetAdministrationShell"), ("submodels", "Submodel"), ("conceptDescriptions", "ConceptDescription")):
            p = self.child_plan(name, plan)
            if not self.forced(name, plan) and not self.src.bool(0.5):
                continue
            out[name] = self.list(cls, path + (name,), p, cls)
        return out

    def identifiable(self, out, cls, path, plan, category=True):
        out["modelType"] = cls
        out["id"] = self.identifier()
        self.extensions(out, path, plan)
        self.fill(out, cls, path, plan, only=["idShort", "displayName", "description", "administration"] + (["category"] if category else []))

    def gen_AssetAdministrationShell(self, path, plan, **kw):
        out = {}
        self.identifiable(out, "AssetAdministrationShell", path, plan)
        self.data_specs(out, path, plan)
        out["assetInformation"] = self.obj("AssetInformation", path + ("assetInformation",), self.child_plan("assetInformation", plan))
        if self.want("derivedFrom", plan):
            out["derivedFrom"] = self.ref(path + ("derivedFrom",), self.child_plan("derivedFrom", plan), "ModelReference")
        if self.want("submodels", plan):
            p = self.child_plan("submodels", plan)
            n = self.count()
            at = self.src.draw(n - 1) if p is not None else None
            out["submodels"] = [self.ref(path + ("submodels", i), p if i == at else None, "ModelReference") for i in range(n)]
        return out

    def gen_ConceptDescription(self, path, plan, **kw):
        src = self.src
        out = {}
        category = None
        if src.bool(0.6) or self.forced("category", plan):
            category = src.pick(["PROPERTY", "VALUE", "REFERENCE", "DOCUMENT", "QUALIFIER_TYPE", "CAPABILITY", "FUNCTION", "VIEW", "property"])
        self.identifiable(out, "ConceptDescription", path, plan, category=False)
        if category:
            out["category"] = category
        self.data_specs(out, path, plan, types=CD_TYPES.get(category), type_required=category in CD_TYPES, need_definition=True)
        self.fill(out, "ConceptDescription", path, plan, only=["isCaseOf"])
        return out

    def gen_Submodel(self, path, plan, **kw):
        src = self.src
        out = {}
        saved = self.template
        kind = src.pick(["Instance", "Template"] if self.forced("kind", plan) else [None, "Instance", "Template"])
        self.template = kind == "Template"
        self.identifiable(out, "Submodel", path, plan)
        if kind:
            out["kind"] = kind
        self.semantics(out, path, plan)
        self.qualifiers(out, path, plan)
        self.data_specs(out, path, plan)
        if self.want("submodelElements", plan) or (plan is None and self.budget > 0 and src.bool(0.5)):
            out["submodelElements"] = self.elements("SubmodelElement", path + ("submodelElements",), self.child_plan("submodelElements", plan), plan and plan[0], depth=1)
        self.template = saved
        return out

    # -- submodel elements

    def pick_kind(self, abstract, depth):
        kinds = concrete(abstract)
        if depth >= self.max_depth or self.budget <= 0:
            kinds = [k for k in kinds if k not in ("SubmodelElementCollection", "SubmodelElementList", "Entity", "Operation", "AnnotatedRelationshipElement")]
        return self.src.pick(kinds)

    def elements(self, abstract, path, plan, edge, depth, used=None, n=None):
        """elements of one name space: all have idShorts, all different"""
        src = self.src
        n = n or self.count()
        at = src.draw(n - 1) if plan is not None else None
        used = used if used is not None else set()
        out = []
        for i in range(n):
            kind = edge[1] if i == at else self.pick_kind(abstract, depth)
            e = self.obj(kind, path + (i,), plan if i == at else None, depth=depth, used=used)
            out.append(e)
        return out

    def new_id_short(self, used):
        s = self.string("idshort")
        if used is not None:
            if used and self.src.bool(0.08):
                s = self.src.pick(sorted(used)).swapcase()  # idShorts are case-sensitive
            while s in used:
                s = s[:100] + "_" + str(len(used))
            used.add(s)
        return s

    def sme(self, cls, path, plan, depth=1, used=None, in_list=None, **kw):
        """the common part of all submodel elements"""
        src = self.src
        out = {"modelType": cls}
        self.extensions(out, path, plan)
        if self.want("category", plan):
            out["category"] = self.string("category_data" if cls in DATA_ELEMENTS else "name")
        if in_list is None:
            out["idShort"] = self.new_id_short(used)
        self.fill(out, cls, path, plan, only=["displayName", "description"])
        if in_list is not None:
            self.semantics(out, path, plan, forced=in_list["semantic"])
        else:
            self.semantics(out, path, plan)
        self.qualifiers(out, path, plan)
        self.data_specs(out, path, plan)
        return out

    def _simple(cls):
        def fn(self, path, plan, **kw):
            out = self.sme(cls, path, plan, **kw)
            self.fill(out, cls, path, plan, skip=["idShort", "category", "semanticId", "supplementalSemanticIds", "qualifiers", "extensions", "displayName", "description", "embeddedDataSpecifications"])
            return out

        return fn

    gen_Capability = _simple("Capability")
    gen_Blob = _simple("Blob")
    gen_File = _simple("File")
    gen_MultiLanguageProperty = _simple("MultiLanguageProperty")
    gen_ReferenceElement = _simple("ReferenceElement")
    gen_RelationshipElement = _simple("RelationshipElement")

    def gen_AnnotatedRelationshipElement(self, path, plan, depth=1, **kw):
        out = self.sme("AnnotatedRelationshipElement", path, plan, depth=depth, **kw)
        for n in ("first", "second"):
            out[n] = self.ref(path + (n,), self.child_plan(n, plan))
        if self.want("annotations", plan):
            out["annotations"] = self.elements("DataElement", path + ("annotations",), self.child_plan("annotations", plan), plan and plan[0], depth + 1)
        return out

    def gen_BasicEventElement(self, path, plan, **kw):
        out = self.sme("BasicEventElement", path, plan, **kw)
        out["observed"] = self.ref(path + ("observed",), self.child_plan("observed", plan), "ModelReference")
        if self.want("messageBroker", plan):
            out["messageBroker"] = self.ref(path + ("messageBroker",), self.child_plan("messageBroker", plan), "ModelReference")
        self.fill(out, "BasicEventElement", path, plan, only=["direction", "state", "messageTopic", "lastUpdate", "minInterval", "maxInterval"])
        return out

    def gen_Entity(self, path, plan, depth=1, **kw):
        src = self.src
        out = self.sme("Entity", path, plan, depth=depth, **kw)
        force = plan and plan[0][0] in ("globalAssetId", "specificAssetIds")
        if force or src.bool():
            out["entityType"] = "SelfManagedEntity"
            self.fill(out, "Entity", path, plan, only=["globalAssetId", "specificAssetIds"])
            if "globalAssetId" not in out and "specificAssetIds" not in out:
                if src.bool(0.7):
                    out["globalAssetId"] = self.string("id")
                else:
                    out["specificAssetIds"] = self.list("SpecificAssetId", path + ("specificAssetIds",))
        else:
            out["entityType"] = "CoManagedEntity"
        if self.want("statements", plan) or (depth < self.max_depth and self.budget > 0 and src.bool(0.3)):
            out["statements"] = self.elements("SubmodelElement", path + ("statements",), self.child_plan("statements", plan), plan and plan[0], depth + 1)
        return out

    def gen_Operation(self, path, plan, depth=1, **kw):
        out = self.sme("Operation", path, plan, depth=depth, **kw)
        used = set()
        for name in ("inputVariables", "outputVariables", "inoutputVariables"):
            if self.want(name, plan) or (depth < self.max_depth and self.budget > 0 and self.src.bool(0.2)):
                p = self.child_plan(name, plan)
                n = self.count()
                at = self.src.draw(n - 1) if p is not None else None
                out[name] = [self.obj("OperationVariable", path + (name, i), p if i == at else None, depth=depth + 1, used=used) for i in range(n)]
        return out

    def gen_OperationVariable(self, path, plan, depth=1, used=None, **kw):
        p = self.child_plan("value", plan)
        kind = plan[0][1] if p is not None else self.pick_kind("SubmodelElement", depth)
        return {"value": self.obj(kind, path + ("value",), p, depth=depth, used=used)}

    def value_type(self, in_list):
        return in_list["value_type"] if in_list and in_list["value_type"] else self.src.pick(self.value_types)

    def gen_Property(self, path, plan, in_list=None, **kw):
        out = self.sme("Property", path, plan, in_list=in_list, **kw)
        out["valueType"] = self.value_type(in_list)
        if self.want("value", plan) or self.src.bool(0.3):
            out["value"] = lex.gen_xsd(self.src, out["valueType"], self.wild)
        self.fill(out, "Property", path, plan, only=["valueId"])
        return out

    def gen_Range(self, path, plan, in_list=None, **kw):
        out = self.sme("Range", path, plan, in_list=in_list, **kw)
        out["valueType"] = self.value_type(in_list)
        for n in ("min", "max"):
            if self.want(n, plan) or self.src.bool(0.3):
                out[n] = lex.gen_xsd(self.src, out["valueType"], self.wild)
        return out

    def gen_SubmodelElementCollection(self, path, plan, depth=1, **kw):
        out = self.sme("SubmodelElementCollection", path, plan, depth=depth, **kw)
        if self.want("value", plan) or (depth < self.max_depth and self.budget > 0 and self.src.bool(0.5)):
            out["value"] = self.elements("SubmodelElement", path + ("value",), self.child_plan("value", plan), plan and plan[0], depth + 1)
        return out

    def gen_SubmodelElementList(self, path, plan, depth=1, **kw):
        src = self.src
        out = self.sme("SubmodelElementList", path, plan, depth=depth, **kw)
        p = self.child_plan("value", plan)
        kind = plan[0][1] if p is not None else self.pick_kind("SubmodelElement", depth + 1)
        out["typeValueListElement"] = kind
        value_type = None
        if kind in ("Property", "Range"):
            value_type = src.pick(self.value_types)
            out["valueTypeListElement"] = value_type
        elif self.want("valueTypeListElement", plan):
            out["valueTypeListElement"] = src.pick(self.value_types)
        common = self.ref() if src.bool(0.5) or p is not None else None
        if self.want("semanticIdListElement", plan):
            out["semanticIdListElement"] = self.ref(path + ("semanticIdListElement",), self.child_plan("semanticIdListElement", plan))
            common = out["semanticIdListElement"]
        if common is None:
            common = self.ref()
        self.fill(out, "SubmodelElementList", path, plan, only=["orderRelevant"])
        if p is not None or self.want("value", plan) or (depth < self.max_depth and self.budget > 0 and src.bool(0.5)):
            n = self.count()
            at = src.draw(n - 1) if p is not None else None
            info = {"value_type": value_type, "semantic": common}
            out["value"] = [self.obj(kind, path + ("value", i), p if i == at else None, depth=depth + 1, in_list=info) for i in range(n)]
        return out


def gen_env(src, target=None, extra=3, last=None, **kw):
    """-> (environment, path of the object of class `target` or None)
    last = (parent class, attr, child class): the object is reached through this attribute"""
    g = Gen(src, **kw)
    if last:
        plan = plan_to(src, last[0], extra) + [(last[1], last[2])]
    elif target:
        plan = plan_to(src, target, extra)
    else:
        plan = None
    env = g.obj("Environment", (), plan)
    if plan:
        assert g.focus is not None, plan
    return env, g.focus


# ---------------------------------------------------------------- access


def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def walk(cls, obj, path=()):
    """yields (path, class, object) for every object of the (valid) document"""
    yield path, cls, obj
    for name, typ, _ in CLASSES[cls]:
        if name not in obj or typ[0] not in ("obj", "list"):
            continue
        items = [(path + (name,), obj[name])] if typ[0] == "obj" else [(path + (name, i), x) for i, x in enumerate(obj[name])]
        for p, x in items:
            c = x["modelType"] if typ[1] in ABSTRACT else typ[1]
            yield from walk(c, x, p)


def json_path(path):
    return "/" + "/".join(str(p) for p in path)


def snake(name):
    return "".join("_" + c.lower() if c.isupper() else c for c in name)


def snake_path(path):
    return "/" + "/".join(snake(p) if isinstance(p, str) else str(p) for p in path)


# ---------------------------------------------------------------- results of the SUT


def flatten(result):
    """[(level 0..3, message, depth)] of a result tree, in order"""
    out = []

    def rec(r, depth):
        out.append((r.level.value, r.message, depth))
        for s in r.sub_results:
            rec(s, depth + 1)

    rec(result, 0)
    return out


def errors(result):
    """messages at error level or above which are not only summaries of their sub-results"""
    out = []

    def rec(r):
        if r.level.value >= 2 and not any(s.level.value >= 2 for s in r.sub_results):
            out.append(r.message)
        for s in r.sub_results:
            rec(s)

    rec(result)
    return out
