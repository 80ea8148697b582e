"""C05: restricted strings against independent recognisers"""
import json

import docs
import lex
import meta
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file

SITES = [(cls, attr, typ[1]) for cls, attrs in meta.CLASSES.items() for attr, typ, _ in attrs if typ[0] == "str"]


def coupled(env, path, attr, cls, s):
    """whether changing this string would touch a constraint that relates it to other objects"""
    o = meta.get(env, path)
    if attr == "idShort":
        return json.dumps({"idShort": s})[1:-1] in json.dumps(env)
    if cls == "Key":
        ref = meta.get(env, path[:-2])
        if path[-1] and ref["keys"][path[-1] - 1]["type"] == "SubmodelElementList":
            return True
        # references that have to equal each other
        for i in range(len(path)):
            if path[i] == "semanticIdListElement":
                return True
            if path[i] == "semanticId" and i >= 3:
                parent = meta.get(env, path[: i - 2])
                if isinstance(parent, dict) and parent.get("modelType") == "SubmodelElementList":
                    return True
    if cls == "SpecificAssetId" and attr == "name" and s.lower() == "globalassetid":
        return True
    if cls == "ConceptDescription" and attr == "category" and s in meta.CD_TYPES:
        return True
    return False


def place(src, cls, attr, s, deep):
    g = meta.Gen(src, budget=src.pick([3, 20]) if deep else 0, density=None if deep else 0.0)
    env = g.obj("Environment", (), meta.plan_to(src, cls, 3 if deep else 0) + [(attr, None)])
    o = meta.get(env, g.focus)
    if attr not in o or coupled(env, g.focus, attr, cls, s):
        raise Discard()
    path = g.focus
    if cls in ("LangPreferredName", "LangDefinition") and attr == "language":
        l = meta.get(env, path[:-1])
        i = src.draw(len(l))
        l.insert(i, {"language": s, "text": "x"})
        path = path[:-1] + (i,)
    else:
        o[attr] = s
    return env, path


def judge(src, site, s, deep):
    cls, attr, rule = site
    want = lex.rule_ok(rule, s)
    if want is None:
        raise Discard()
    env, path = place(src, cls, attr, s, deep)
    r = docs.check_json(src, env)
    if r.ok() != want:
        raise Violation(f"{cls}.{attr} {'rejects' if want else 'accepts'} {s[:80]!r} (length {len(s)}) at {meta.json_path(path)}: {meta.errors(r)[:2]}", {"attribute": f"{cls}.{attr}", "value": s, "expected": want, "env": env})
    return Case((cls, attr, s), True, [f"{rule} {'valid' if want else 'invalid'}", f"{cls}.{attr}"], {"attribute": f"{cls}.{attr}", "value": s[:200], "compliant": want})


def near(src, index):
    site = SITES[index % len(SITES)]
    return judge(src, site, lex.gen_rule_near(src, site[2]), False)


def anywhere(src, index):
    site = SITES[index % len(SITES)]
    return judge(src, site, lex.gen_rule_near(src, site[2]), True)


LENGTHS = {"idshort": 128, "ctype": 100, "path": 2000, "version": 4, "revision": 4, **{k: v for k, v in lex.TEXT_RULES.items() if v}}


def lengths(src, index):
    """exact length boundaries, with characters of all planes"""
    sites = [s for s in SITES if s[2] in LENGTHS]
    site = sites[index % len(sites)]
    rule = site[2]
    top = LENGTHS[rule]
    n = [top, top + 1, top - 1, 1, 0, top * 2][index // len(sites) % 6]
    if rule in ("version", "revision"):
        s = "1" * n
    elif rule == "ctype":
        s = "a/" + "b" * (n - 2) if n > 2 else "a" * n
    elif rule in ("idshort", "path"):
        s = "a" * n
    else:
        s = src.pick(["a", "é", "中", "\U0001F600", "\ud7ff", "<", "e\u0301", "\u1100\u1161", "\r\n", "a ", "\U0001F468\u200d"]) * n
        s = s[:n]
    return judge(src, site, s, False)


def charset(src, index):
    """one character anywhere in a text"""
    sites = [s for s in SITES if s[2] in lex.TEXT_RULES]
    site = sites[index % len(sites)]
    o = src.pick([src.int(0, 0x7F), src.int(0x80, 0x2FF), src.int(0xD7F0, 0xE010), src.int(0xFFF0, 0x1000F), src.int(0x10FFF0, 0x10FFFF), src.int(0, 0x10FFFF)])
    s = lex.gen_text(src, 1, 6, False)
    i = src.draw(len(s))
    return judge(src, site, s[:i] + chr(o) + s[i:], False)


def long(src, index):
    """very long strings, many of them spoiled"""
    site = SITES[index % len(SITES)]
    return judge(src, site, lex.spoil(src, lex.gen_rule(src, site[2])), False)


def _edges():
    out = []
    for i, rule in enumerate(sorted({s[2] for s in SITES})):
        sites = [s for s in SITES if s[2] == rule]
        out += [(sites[k % len(sites)], s) for k, s in enumerate(dict.fromkeys(lex.rule_edges(rule)))]
    return out


EDGES = _edges()


def edges(src, index):
    """every field at each value, every character class at its ends, every structure up to a size"""
    site, s = EDGES[index % len(EDGES)]
    return judge(src, site, s, False)


def again(src, index):
    """the same string in several attributes with other rules, one after the other"""
    s = lex.gen_rule_near(src, SITES[index % len(SITES)][2])
    seen = []
    for _ in range(src.int(2, 4)):
        site = src.pick(SITES)
        if lex.rule_ok(site[2], s) is None:
            continue
        try:
            judge(src, site, s, src.bool(0.2))
        except Discard:
            continue
        seen.append(f"{site[0]}.{site[1]}")
    if not seen:
        raise Discard()
    return Case((tuple(seen), s), len(seen) > 1, [f"{len(seen)} attributes"], {"value": s[:100], "attributes": seen})


CHECK = Check(
    "C05",
    [
        Group("near", near, len(SITES) * 600, len(SITES) * 4000),
        Group("anywhere", anywhere, len(SITES) * 150, len(SITES) * 800),
        Group("lengths", lengths, len(SITES) * 6 * 3, len(SITES) * 6 * 10),
        Group("charset", charset, 30000, 100000),
        Group("long", long, len(SITES) * 60, len(SITES) * 800),
        Group("edges", edges, len(EDGES), len(EDGES)),
        Group("again", again, 4000, 100000),
    ],
    rule="(attribute, string) for all restricted string attributes of the meta-model: grammar-generated strings, small edits, exact length boundaries in code points, single characters of all planes; expected verdict from hand-written recognisers; grey strings and strings coupled to another constraint are discarded; distinct by (attribute, string)",
)
