"""C11: reported problems point at the offending place"""
import json

import damage
import docs
import lex
import meta
import xmlr
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file


def tokens(location):
    """'/submodels/0/semantic_id' -> ('submodels', '0', 'semantic_id')"""
    return tuple(meta.snake(t) for t in location[1:].split("/")) if location != "/" else ()


def norm(path):
    return tuple(meta.snake(p) if isinstance(p, str) else str(p) for p in path)


def below(p, q):
    """p is q or below q"""
    return p[: len(q)] == q


def related(p, q):
    return below(p, q) or below(q, p)


def id_short_paths(env, path):
    """'a.b.0 in Submodel x[id]' of the innermost submodel element at or above the path, or None"""
    if len(path) < 4 or path[0] != "submodels" or path[2] != "submodelElements":
        return None
    sm = env["submodels"][path[1]]
    cur, out, in_list = sm, [], False
    for i, p in enumerate(path[2:]):
        is_list = isinstance(cur, dict) and cur.get("modelType") == "SubmodelElementList"
        if isinstance(cur, dict) and p == "value" and is_list:
            in_list = True
        cur = cur[p] if isinstance(p, int) or (isinstance(cur, dict) and p in cur) else None
        if cur is None:
            break
        if isinstance(cur, dict) and cur.get("modelType") in meta.SMES:
            if in_list:
                out.append(str(p))
            else:
                out.append(cur.get("idShort", "?"))
            in_list = False
    return f"{'.'.join(out)} in Submodel {sm.get('idShort', '')}[{sm['id']}]"


def id_short_path_of(message):
    i = message.rfind(" @ /")
    m = message[:i] if i >= 0 else message
    j = m.rfind(" in Submodel ")
    if j < 0:
        return None
    k = m.rfind(" @ ", 0, j)
    return m[k + 3 :] if k >= 0 else None


def structural(src, index):
    site = damage.STRUCTURAL[index % len(damage.STRUCTURAL)]
    env, bad, at, what = damage.structural_case(src, site, budget=src.pick([3, 20, 60]), wild=False)
    r = docs.check_json(src, bad)
    errs = [m for m in meta.errors(r)]
    locs = [xmlr.location(m) for m in errs]
    want = meta.json_path(at)
    if want not in locs:
        raise Violation(f"{what} at {want}: not named, only {errs[:3]}", bad)
    for m, l in zip(errs, locs):
        if l is not None and not related(tokens(l), norm(at)):
            raise Violation(f"{what} at {want}: the report also blames {l}: {m}", bad)
    return Case(json.dumps(bad, sort_keys=True), len(at) > 0, [site[2], "depth>=6" if len(at) >= 6 else "depth<6"], {"damage": what, "at": want})


def constraint(entry, src, **kw):
    env, bad, container, at = damage.constraint_case(src, entry, wild=False, **kw)
    return judge(src, entry[1], bad, container, at)


def judge(src, what, bad, container, at):
    r = docs.check_json(src, bad)
    errs = meta.errors(r)
    c, a = norm(container), norm(at)
    found = False
    ids = {id_short_paths(bad, container), id_short_paths(bad, at)} - {None}
    for m in errs:
        l = xmlr.location(m)
        if l is not None:
            t = tokens(l)
            if not related(t, c) and not related(t, a):
                raise Violation(f"{what} at {meta.json_path(at)}: the report also blames {l}: {m}", bad)
            found = found or below(t, c) or below(t, a)
        p = id_short_path_of(m)
        if p is not None and p not in ids:
            raise Violation(f"{what} at {meta.json_path(at)}: wrong idShort path {p!r}, expected one of {sorted(ids)}", bad)
    if not found:
        raise Violation(f"{what} at {meta.json_path(at)}: no error points there: {errs[:3]}", bad)
    has = any(id_short_path_of(m) for m in errs)
    return Case(json.dumps(bad, sort_keys=True), True, [what, "with idShort path" if has else "without idShort path"], {"constraint": what, "at": meta.json_path(at), "message": errs[0]})


OBJS = [e for e in damage.CONSTRAINTS if e[2][0] == "cls"]
REFS = [e for e in damage.CONSTRAINTS if e[2][0] == "edge"]


def objects(src, index):
    return constraint(OBJS[index % len(OBJS)], src, budget=src.pick([3, 20, 60]))


def references(src, index):
    entry = REFS[index % len(REFS)]
    env, bad, container, at = damage.constraint_case(src, entry, wild=False, budget=src.pick([3, 20]))
    for i in range(len(at)):
        if at[i] in ("semanticId", "semanticIdListElement"):
            owner = meta.get(bad, at[: i - 2]) if at[i] == "semanticId" and i >= 2 and at[i - 2 : i - 1] == ("value",) else meta.get(bad, at[:i])
            if isinstance(owner, list):
                owner = meta.get(bad, at[: i - 3]) if i >= 3 else None
            if isinstance(owner, dict) and owner.get("modelType") == "SubmodelElementList":
                raise Discard()  # also violates the constraints about the semantic ids of list elements
    return judge(src, entry[1], bad, container, at)


VALUES = [("Property", "value"), ("Range", "min"), ("Range", "max"), ("Qualifier", "value"), ("Extension", "value")]


def values(src, index):
    cls, attr = VALUES[index % len(VALUES)]

    def fn(c):
        t = src.pick([t for t in lex.XSD_TYPES if t != "xs:string"])
        if cls in ("Property", "Range"):
            # inside of a list the type is given
            t = c.o["valueType"]
        bad = {"xs:anyURI": "a b<>"}.get(t, "nothing of that kind!")
        if lex.xsd_ok(t, bad) or t == "xs:string":
            raise Discard()
        c.o["valueType"] = t
        for n in ("min", "max", "value"):
            if n in c.o:
                del c.o[n]
        c.o[attr] = bad
        return c.path, c.path + (attr,)

    return constraint((None, f"{cls}.{attr} value", ("cls", cls, attr), fn), src, budget=src.pick([3, 20]))


CHECK = Check(
    "C11",
    [
        Group("structural", structural, len(damage.STRUCTURAL) * 15, len(damage.STRUCTURAL) * 200),
        Group("objects", objects, len(OBJS) * 120, len(OBJS) * 2000),
        Group("references", references, len(REFS) * 12, len(REFS) * 200),
        Group("values", values, 3000, 40000),
    ],
    rule="an environment with exactly one structural or constraint violation whose place is known by construction; an error location must equal it (constraints: be the responsible object or below), all other error locations must be on the same branch and idShort paths must be those of the element concerned; distinct by JSON text",
)
