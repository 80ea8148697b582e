"""C04: typed values against independent recognisers of the 30 XSD types"""
import json

import docs
import lex
import meta
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import file

HOSTS = [("Property", "value"), ("Range", "min"), ("Range", "max"), ("Qualifier", "value"), ("Extension", "value")]
PAIRS = [(h, t) for h in HOSTS for t in lex.XSD_TYPES]


def place(src, host, t, s, deep):
    """an environment with the value at a random place"""
    cls, attr = host
    g = meta.Gen(src, budget=src.pick([3, 20]) if deep else 0, density=None if deep else 0.0)
    env = g.obj("Environment", (), meta.plan_to(src, cls, 3 if deep else 0) + [(attr, None)])
    o = meta.get(env, g.focus)
    if deep and isinstance(g.focus[-1], int) and cls in ("Property", "Range"):
        parent = meta.get(env, g.focus[:-2])
        if isinstance(parent, dict) and parent.get("modelType") == "SubmodelElementList":
            parent["valueTypeListElement"] = t
            for e in parent["value"]:
                e["valueType"] = t
                for k in ("value", "min", "max"):
                    e.pop(k, None)
    for k in ("value", "min", "max"):
        o.pop(k, None)
    o["valueType"] = t
    o[attr] = s
    return env, g.focus


def judge(src, host, t, s, deep):
    want = lex.xsd_ok(t, s)
    if want is None:
        raise Discard()
    env, path = place(src, host, t, s, deep)
    r = docs.check_json(src, env)
    if r.ok() != want:
        raise Violation(f"{t} {'rejects' if want else 'accepts'} {s[:80]!r} ({host[0]}.{host[1]} at {meta.json_path(path)}): {meta.errors(r)[:2]}", {"type": t, "value": s, "expected": want, "env": env})
    return Case((t, s, host), True, [t + (" valid" if want else " invalid")], {"type": t, "value": s[:200], "compliant": want})


def near(src, index):
    host, t = PAIRS[index % len(PAIRS)]
    return judge(src, host, t, lex.gen_near(src, t), False)


def anywhere(src, index):
    host, t = PAIRS[index % len(PAIRS)]
    return judge(src, host, t, lex.gen_near(src, t), True)


TRICKY = [(t, s) for t in lex.XSD_TYPES for s in lex.TRICKY.get(t[3:], [])] + [(t, s) for t in lex.XSD_TYPES for u in lex.TRICKY for s in lex.TRICKY[u] if len(s) < 50]


def tricky(src, index):
    t, s = TRICKY[index % len(TRICKY)]
    return judge(src, src.pick(HOSTS), t, s, False)


def dates(src, index):
    """every day of month for chosen years: the calendar"""
    years = ["2023", "2024", "1900", "2000", "0004", "-0001", "-0004", "-0005", "-0101", "-0401", "12000", "12100", "100000000004", "2100", "0100", "9999"]
    y = years[index % len(years)]
    m = (index // len(years)) % 14
    d = (index // len(years) // 14) % 33
    base = "%s-%02d-%02d" % (y, m, d)
    tz = lex.gen_tz(src)
    t = src.pick(["xs:date", "xs:dateTime", "xs:gMonthDay"])
    s = {"xs:date": base + tz, "xs:dateTime": base + "T" + lex.gen_hms(src) + tz, "xs:gMonthDay": "--%02d-%02d%s" % (m, d, tz)}[t]
    return judge(src, src.pick(HOSTS), t, s, False)


def numbers(src, index):
    """numeric values around every bound"""
    bounds = sorted({b + k for lo, hi in lex.BOUNDS.values() for b in (lo, hi) if b is not None for k in (-1, 0, 1)})
    v = bounds[index % len(bounds)]
    t = src.pick(["xs:" + n for n in lex.BOUNDS] + ["xs:decimal", "xs:float", "xs:double"])
    s = str(abs(v))
    s = ("-" if v < 0 else src.pick(["", "+"])) + src.pick(["", "0", "000"]) + s
    return judge(src, src.pick(HOSTS), t, s, False)


def long(src, index):
    """literals with very long parts, many of them spoiled"""
    t = lex.XSD_TYPES[index % len(lex.XSD_TYPES)]
    return judge(src, src.pick(HOSTS), t, lex.spoil(src, lex.gen_xsd(src, t)), False)


EDGES = [(t, s) for t in lex.XSD_TYPES for s in dict.fromkeys(lex.edges(t))]


def edges(src, index):
    """every field at each value, every character class at its ends, every structure up to a size"""
    t, s = EDGES[index % len(EDGES)]
    return judge(src, HOSTS[index % len(HOSTS)], t, s, False)


def no_type(src, index):
    """an extension without value type defaults to xs:string: any text is fine"""
    s = lex.gen_near(src, src.pick(lex.XSD_TYPES))
    g = meta.Gen(src, density=0.0, budget=0)
    env = g.obj("Environment", (), meta.plan_to(src, "Extension", 0) + [("value", None)])
    o = meta.get(env, g.focus)
    o["value"] = s
    r = docs.check_json(src, env)
    if r.ok() != lex.xml_string(s):
        raise Violation(f"untyped extension value {s!r}: ok={r.ok()}", env)
    return Case(s, True, ["untyped"], s[:100])


def again(src, index):
    """the same string as a value of several types, one after the other"""
    s = lex.gen_near(src, lex.XSD_TYPES[index % len(lex.XSD_TYPES)])
    seen = []
    for _ in range(src.int(2, 4)):
        t = src.pick(lex.XSD_TYPES)
        if lex.xsd_ok(t, s) is not None:
            judge(src, src.pick(HOSTS), t, s, False)
            seen.append(t)
    if not seen:
        raise Discard()
    return Case((tuple(seen), s), len(seen) > 1, [f"{len(seen)} types"], {"value": s[:100], "types": seen})


CHECK = Check(
    "C04",
    [
        Group("near", near, len(PAIRS) * 700, len(PAIRS) * 6000),
        Group("anywhere", anywhere, len(PAIRS) * 80, len(PAIRS) * 400),
        Group("tricky", tricky, len(TRICKY) * 1, len(TRICKY) * 10),
        Group("dates", dates, 16 * 14 * 33, 16 * 14 * 33 * 10),
        Group("numbers", numbers, 10000, 40000),
        Group("edges", edges, len(EDGES), len(EDGES)),
        Group("long", long, 30 * 200, 30 * 3000),
        Group("untyped", no_type, 500, 5000),
        Group("again", again, 4000, 100000),
    ],
    rule="(type, host attribute, string): literals generated from the grammar of each type, small edits of them, boundary values, tricky strings and literals of other types; the expected verdict comes from hand-written recognisers; non-trivial = the recogniser decides the string (grey zones are discarded), distinct by (type, host, string)",
    assumptions=["XSD 1.0 calendar (no year 0000, -0001 is leap)", "surrounding white space, '+INF', non-canonical base64 and floats within the rounding gap above the maximum are not claimed"],
)
