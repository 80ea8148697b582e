"""C16: filters select exactly the operations their glob patterns describe"""
import json

import server
from checks.c17 import make
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import api, config
from aas_test_engines.exception import InvalidFilterException

ALL_OPERATIONS = sorted({o for s in server.SUITES for o in server.OPERATIONS[s]})


# ------------------------------------------------------------------ reference: shell globs


def tokens(pattern):
    """[("*",) | ("?",) | ("c", char) | ("[", negated, [(lo, hi)])]"""
    out = []
    i = 0
    while i < len(pattern):
        c = pattern[i]
        if c == "*":
            out.append(("*",))
        elif c == "?":
            out.append(("?",))
        elif c == "[":
            # the set ends at the first "]" which is not its first character
            j = i + 1
            if j < len(pattern) and pattern[j] == "!":
                j += 1
            end = pattern.find("]", j + 1)
            if end < 0:
                out.append(("c", "["))
            else:
                out.append(("[", j == i + 2, ranges(pattern[j:end])))
                i = end
        else:
            out.append(("c", c))
        i += 1
    return out


def ranges(s):
    out = []
    i = 0
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == "-":
            out.append((s[i], s[i + 2]))
            i += 3
        else:
            out.append((s[i], s[i]))
            i += 1
    return out


def matches(pattern, name):
    toks = tokens(pattern)
    states = closure({0}, toks)
    for c in name:
        nxt = set()
        for s in states:
            if s == len(toks):
                continue
            t = toks[s]
            if t[0] == "*":
                nxt.add(s)
            elif t[0] == "?" or (t[0] == "c" and t[1] == c) or (t[0] == "[" and t[1] != any(lo <= c <= hi for lo, hi in t[2])):
                nxt.add(s + 1)
        states = closure(nxt, toks)
    return len(toks) in states


def closure(states, toks):
    out = set()
    for s in states:
        while True:
            out.add(s)
            if s < len(toks) and toks[s][0] == "*":
                s += 1
            else:
                break
    return out


def expected(includes, excludes, name):
    inc = [p for p in includes if p]
    if inc and not any(matches(p, name) for p in inc):
        return False
    return not any(matches(p, name) for p in excludes if p)


# ------------------------------------------------------------------ generators


def gen_set(src, c):
    k = src.draw(5)
    if k == 0:
        return f"[{c}]"
    if k == 1:
        return "[" + src.chars("GASdt-", 1, 3) + c + "]"
    if k == 2:
        return src.pick(["[a-z]", "[A-Z]", "[A-Ca-z]", "[!a-z]", "[!A-Z]", "[!-]", "[-a]", "[!-a]", "[A-]", "[0-9]"])
    if k == 3:
        return f"[!{c}]"
    if k == 4:
        return "[!" + src.chars("xyzGA", 1, 3) + "]"
    return src.pick(["[]]", "[!]]", "[]-]", "[!!]", "[]"])


def gen_pattern(src, names):
    """a pattern near to one of the names"""
    k = src.weighted([(3, "mutate"), (1, "exact"), (1, "star"), (1, "free")])
    name = src.pick(names)
    if k == "exact":
        return name
    if k == "free":
        return src.chars("*?[]!-aAbGe.^$(|+\\", 1, 6)
    if k == "star":
        return src.pick(["*", "Get*", "*-*", "*ById", "*ById*", "*Submodel*", "get*", "**", "*?*", "?*", "*-Reference", "GetAll*", "*s", "*[!s]"])
    p = list(name)
    for _ in range(src.size(1, 4, 0.5)):
        if not p:
            break
        i = src.draw(len(p) - 1)
        how = src.draw(7)
        if how == 0:
            p[i : i + src.int(0, 12)] = ["*"]
        elif how == 1:
            p[i] = "?"
        elif how == 2:
            p[i] = gen_set(src, name[i] if i < len(name) else "a")
        elif how == 3:
            p.insert(i, src.pick(["*", "?", "x"]))
        elif how == 4:
            p[i] = p[i].swapcase()
        elif how == 5:
            del p[i:]
        elif how == 6:
            del p[:i]
        else:
            p.append(src.pick(["*", "?", "x", " ", "."]))
    return "".join(p)


def gen_filter(src, names):
    inc = [gen_pattern(src, names) for _ in range(src.size(0, 4, 0.6))]
    exc = [gen_pattern(src, names) for _ in range(src.size(0, 3, 0.5))]
    if src.bool(0.12):  # long lists, most of them plain names
        for l in (inc, exc) if src.bool() else [src.pick([inc, exc])]:
            for _ in range(src.int(4, 40)):
                l.append(src.pick(names) if src.bool(0.8) else gen_pattern(src, names))
    for l in (inc, exc):
        # no separators inside of patterns, no blank patterns
        l[:] = [p for p in (p.replace("~", "").replace(":", "") for p in l) if p.strip()]
        if src.bool(0.15):
            l.insert(src.draw(len(l)), "")
    text = ":".join(inc)
    if exc or src.bool(0.2):
        text += "~" + ":".join(exc)
    return text, inc, exc


def globs(src, index):
    """selects against the reference matcher"""
    names = ALL_OPERATIONS if src.bool(0.7) else [src.chars("aAbB-.[]*?!\n", 0, 6) or "a" for _ in range(6)]
    text, inc, exc = gen_filter(src, names)
    f = sut(config.TestCaseFilter, text)
    other = gen_filter(src, names) if src.bool(0.3) else None
    if other:  # filters do not affect each other
        g = sut(config.TestCaseFilter, other[0])
    chosen = []
    for n in names:
        if other and bool(sut(g.selects, n)) != expected(other[1], other[2], n):
            raise Violation(f"filter {other[0]!r} misjudges {n!r} while {text!r} is in use", {"includes": other[1], "excludes": other[2]})
        got = sut(f.selects, n)
        want = expected(inc, exc, n)
        if bool(got) != want:
            raise Violation(f"filter {text!r} {'selects' if got else 'does not select'} {n!r}", {"includes": inc, "excludes": exc})
        chosen.append(want)
    return Case((text, tuple(names)), any(chosen) and not all(chosen), ["some"] if any(chosen) and not all(chosen) else ["all"] if all(chosen) else ["none"], text)


def refused(src, index):
    """more than one separator"""
    parts = [":".join(gen_pattern(src, ALL_OPERATIONS).replace("~", "") for _ in range(src.size(0, 2))) for _ in range(src.int(3, 5))]
    text = "~".join(parts)
    try:
        config.TestCaseFilter(text)
    except InvalidFilterException:
        return Case(text, True, ["refused"], text)
    except Exception as e:
        raise Violation(f"filter {text!r}: {type(e).__name__} {e}")
    raise Violation(f"filter {text!r} is not refused")


def execute(srv, client, suite, text=None, answer=None):
    conf = config.CheckApiConfig(suite)
    if text is not None:
        conf.filter = config.TestCaseFilter(text)
    with server.network(answer or (lambda n, req: srv.answer(req.url))) as calls:
        r, mat = sut(api.execute_tests, client, conf)
    return [o for o, _ in server.operations(r)], [(c.method, c.url, c.body) for c in calls], r, mat


def runs(src, index):
    """a run with a filter is the selected part of the run without"""
    suite = server.SUITES[index % 4]
    srv, client = make(src, suite, True, budget=4)
    whole, calls, r, _ = execute(srv, client, suite)
    if sorted(whole) != sorted(server.OPERATIONS[suite]):
        raise Discard()  # C17
    solo = {}
    shown = {o: x.to_dict() for o, x in server.operations(r)}
    labels = []
    for _ in range(4):
        text, inc, exc = gen_filter(src, whole)
        want = [o for o in whole if expected(inc, exc, o)]
        ops, log, r, mat = execute(srv, client, suite, text)
        if ops != want:
            raise Violation(f"filter {text!r} runs {ops}, selected are {want}")
        for o in want:
            if o not in solo:
                one, l, _, _ = execute(srv, client, suite, o)
                if one != [o]:
                    raise Violation(f"filter {o!r} runs {one}")
                solo[o] = l
        expect = calls[:1] + [c for o in want for c in solo[o][1:]]
        if log != expect:
            raise Violation(f"filter {text!r}: requests differ from those of the selected operations", {"extra": [c for c in log if c not in expect][:5], "missing": [c for c in expect if c not in log][:5]})
        for o, x in server.operations(r):
            if x.to_dict() != shown[o]:
                raise Violation(f"filter {text!r} changes the report of {o}")
        labels.append("all" if want == whole else "some" if want else "none")
    return Case((suite, text, json.dumps(srv.submodels[0], sort_keys=True)), True, labels + [suite.split("/")[-2]], text)


CHECK = Check(
    "C16",
    [
        Group("globs", globs, 6000, 400000),
        Group("refused", refused, 300, 5000),
        Group("runs", runs, 80, 2500),
    ],
    rule="a filter text generated near to operation names (stars, question marks, sets, negated sets, ranges, case changes, empty patterns, includes and excludes); non-trivial if it selects some but not all of the names, is to be refused, or is executed against a server; distinct by text and names",
    assumptions=[
        "shell globs: * ? [seq] [!seq], a '[' without ']' is literal, there is no escape; blank patterns (only white space) are not generated",
    ],
)
