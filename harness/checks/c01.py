"""C01: valid-by-construction environments are accepted"""
import json

import docs
import meta
from pbt import Case, Check, Group, Violation, sut
from aas_test_engines import file


def verdict(src, env, what="environment"):
    r = docs.check_json(src, env)
    if not r.ok():
        raise Violation(f"compliant {what} rejected: " + "; ".join(meta.errors(r)[:3]), env)
    if any(l >= 2 for l, _, _ in meta.flatten(r)):
        raise Violation(f"compliant {what} has an error level entry although the result is ok", env)


def size(env):
    return sum(1 for _ in meta.walk("Environment", env))


def case(env, labels):
    text = json.dumps(env, sort_keys=True)
    n = size(env)
    return Case(text, n >= 3, labels + ["objects>=10"] * (n >= 10) + ["objects>=50"] * (n >= 50), env if len(text) < 1500 else None)


EDGES = meta.EDGES


def by_edge(src, index):
    """every (class, attribute, child class) of the meta-model, at a random place"""
    edge = EDGES[index % len(EDGES)]
    env, path = meta.gen_env(src, last=edge, budget=src.pick([10, 40, 120]))
    verdict(src, env)
    return case(env, ["edge"])


ENUM_SITES = [(c, n, v) for c, attrs in meta.CLASSES.items() for n, t, _ in attrs if t[0] == "enum" for v in meta.ENUMS[t[1]]]
OPT = [(c, n) for c, attrs in meta.CLASSES.items() for n, t, r in attrs if not r]


def random_env(src, index):
    env, _ = meta.gen_env(src, budget=src.pick([5, 30, 100, 300]))
    verdict(src, env)
    return case(env, ["random"])


def deep(src, index):
    """deep nesting through all kinds of containers"""
    env, path = meta.gen_env(src, target=src.pick(meta.SMES), extra=6, budget=src.pick([5, 40]))
    verdict(src, env)
    return case(env, ["depth%d" % min(9, len(path) // 2)])


def attributes(src, index):
    """every optional attribute, forced, with everything else sparse or dense"""
    cls, name = OPT[index % len(OPT)]
    density = src.pick([0.0, 0.3, 1.0])
    g = meta.Gen(src, density=density, budget=30)
    plan = meta.plan_to(src, cls, 2)
    plan = plan + [(name, None)]
    env = g.obj("Environment", (), plan)
    verdict(src, env)
    return case(env, [f"{cls}.{name}"] if name in meta.get(env, g.focus) else ["attribute not possible there"])


def literals(src, index):
    """every enumeration literal at a random place (where it does not interact with a constraint)"""
    cls, name, value = ENUM_SITES[index % len(ENUM_SITES)]
    env, path = meta.gen_env(src, target=cls, budget=15)
    o = meta.get(env, path)
    if (cls, name) in (("Qualifier", "valueType"), ("Extension", "valueType"), ("Property", "valueType"), ("Range", "valueType")):
        import lex

        parent = meta.get(env, path[:-2])
        if cls in ("Property", "Range") and isinstance(parent, dict) and parent.get("modelType") == "SubmodelElementList":
            for e in parent["value"]:
                e["valueType"] = value
                for k in ("value", "min", "max"):
                    if k in e:
                        e[k] = lex.gen_xsd(src, value)
            parent["valueTypeListElement"] = value
        else:
            o["valueType"] = value
            for k in ("value", "min", "max"):
                if k in o:
                    o[k] = lex.gen_xsd(src, value)
    elif (cls, name) == ("Key", "type"):
        ref = meta.get(env, path[:-2])
        if value in meta.IDENTIFIABLE_KEYS:
            ref["type"] = "ModelReference"
            ref["keys"] = [{"type": value, "value": "x"}]
        elif value in meta.SME_KEYS:
            ref["type"] = "ModelReference"
            ref["keys"] = [{"type": "Submodel", "value": "x"}, {"type": value, "value": "y"}]
        elif value == "FragmentReference":
            ref["type"] = "ModelReference"
            ref["keys"] = [{"type": "Submodel", "value": "x"}, {"type": src.pick(["File", "Blob"]), "value": "y"}, {"type": value, "value": "z"}]
        else:
            return Case(None, False)
        # equal references elsewhere (lists) must stay equal
        env = relax(env)
    elif (cls, name) == ("Reference", "type"):
        o["type"] = value
        o["keys"] = [{"type": "GlobalReference" if value.startswith("Ext") else "Submodel", "value": "x"}]
        env = relax(env)
    elif (cls, name) == ("Qualifier", "kind"):
        o["kind"] = value
        if value == "TemplateQualifier":
            if path[0] == "submodels":
                env["submodels"][path[1]]["kind"] = "Template"
    elif (cls, name) == ("Submodel", "kind"):
        if value == "Instance" and "TemplateQualifier" in json.dumps(o):
            value = "Template"
        o["kind"] = value
    elif (cls, name) == ("DataSpecificationIec61360", "dataType"):
        o["dataType"] = value
        o["unit"] = "m"
        if path[0] == "conceptDescriptions":
            cat = next((c for c in ("PROPERTY", "REFERENCE", "DOCUMENT", "QUALIFIER_TYPE") if value in meta.CD_TYPES[c]), None)
            cd = env["conceptDescriptions"][path[1]]
            if cat is None:
                cd.pop("category", None)
            else:
                cd["category"] = cat
                for e in cd.get("embeddedDataSpecifications", []):
                    e["dataSpecificationContent"]["dataType"] = value
                    e["dataSpecificationContent"]["unit"] = "m"
    elif (cls, name) == ("Entity", "entityType"):
        o["entityType"] = value
        if value == "CoManagedEntity":
            o.pop("globalAssetId", None)
            o.pop("specificAssetIds", None)
        else:
            o.setdefault("globalAssetId", "x")
    elif (cls, name) == ("SubmodelElementList", "typeValueListElement"):
        if value not in meta.SMES:
            return Case(None, False)
        o["typeValueListElement"] = value
        o["valueTypeListElement"] = "xs:int"
        o.pop("value", None)
    elif (cls, name) == ("SubmodelElementList", "valueTypeListElement"):
        o["valueTypeListElement"] = value
        o.pop("value", None)
    else:
        o[name] = value
    verdict(src, env)
    return case(env, [f"{cls}.{name}={value}"])


def relax(env):
    """restore the relations that changing one reference may break (list semantics, reference kinds)"""
    for p, c, o in meta.walk("Environment", env):
        if c == "SubmodelElementList":
            o.pop("semanticIdListElement", None)
            for e in o.get("value", []):
                e.pop("semanticId", None)
                e.pop("supplementalSemanticIds", None)
        for n in ("derivedFrom", "observed", "messageBroker"):
            if n in o:
                o[n] = {"type": "ModelReference", "keys": [{"type": "Submodel", "value": "x"}]}
        if c == "AssetAdministrationShell" and "submodels" in o:
            o["submodels"] = [{"type": "ModelReference", "keys": [{"type": "Submodel", "value": "x"}]}]
        if "externalSubjectId" in o:
            o["externalSubjectId"]["type"] = "ExternalReference"
            o["externalSubjectId"]["keys"] = [{"type": "GlobalReference", "value": "x"}]
    return env


CHECK = Check(
    "C01",
    [
        Group("edges", by_edge, len(EDGES) * 30, len(EDGES) * 200),
        Group("attributes", attributes, len(OPT) * 40, len(OPT) * 300),
        Group("literals", literals, len(ENUM_SITES) * 15, len(ENUM_SITES) * 100),
        Group("random", random_env, 10000, 60000),
        Group("deep", deep, 6000, 40000),
    ],
    rule="environments built valid by construction from independent meta-model tables: every (class, attribute, child class) edge, every optional attribute, every enumeration literal, random and deeply nested ones; non-trivial = at least 3 meta-model objects, distinct by JSON text",
    assumptions=["the harness's meta-model tables are read from the specification; nesting of submodel elements up to about 10 levels", "grey zones of DESIGN.md are not generated"],
)
