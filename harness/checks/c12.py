"""C12: a result tree reports its worst level in every output format"""
import contextlib
import io
import json
from html.parser import HTMLParser

from pbt import Case, Check, Group, Violation, sut
from aas_test_engines.result import AasTestResult, Level

LEVELS = [Level.INFO, Level.WARNING, Level.ERROR, Level.CRITICAL]
NAMES = ["info", "warning", "error", "critical"]
PIECES = [
    "a", "x y", "", " ", "  ", "<", ">", "&", '"', "'", "/", "<b>", "</div>", "<div>", '<div class="error">', "&lt;", "&amp;",
    "&#60;", "<!--", "-->", "<!-- CONTENT -->", "<script>alert(1)</script>", "</script>", "<![CDATA[", "]]>", "\\", "\\n",
    "\n", "\t", "%s", "{0}", "{}", "\u00e9", "\u6f22", "\U0001f600", "\x1b[0m", "\x1b[91m", "$1", "\\1", "class=", "sub-results",
    "<img src=x onerror=1>", "\u2028", "0", "None", "@ /submodels/0", "]",
]


def gen_tree(src, depth, budget):
    """(message, own level, [children])"""
    msg = "".join(src.pick(PIECES) for _ in range(src.size(1, 6, 0.5)))
    if src.bool(0.06):  # long texts, around usual limits
        msg += src.pick(["x", "ab ", "&", "\u00e9", "line\n"]) * src.pick([70, 80, 100, 120, 128, 200, 255, 256, 500, 1000, 1024, 4096])
    level = src.draw(3) if src.bool(0.6) else 0
    kids = []
    if depth < 6:
        for _ in range(src.size(0, 5, 0.55)):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            if kids and src.bool(0.1):
                kids.append(kids[src.draw(len(kids) - 1)])  # the same report once more
            else:
                kids.append(gen_tree(src, depth + 1, budget))
    return (msg, level, kids)


def build(t, share=False):
    r = AasTestResult(t[0], LEVELS[t[1]]) if t[1] else AasTestResult(t[0])
    done = {}
    for k in t[2]:
        if share and id(k) in done:
            r.append(done[id(k)])
        else:
            r.append(done.setdefault(id(k), build(k, share)))
    return r


def worst(t):
    return max([t[1]] + [worst(k) for k in t[2]])


def nodes(t, depth=0):
    """[(depth, message, level)] in document order"""
    out = [(depth, t[0], worst(t))]
    for k in t[2]:
        out += nodes(k, depth + 1)
    return out


def plain(t, counter):
    counter[0] += 1
    return (f"q{counter[0]}q", t[1], [plain(k, counter) for k in t[2]])


def model_dict(t):
    return {"m": t[0], "l": worst(t), "s": [model_dict(k) for k in t[2]]}


class Page(HTMLParser):
    VOID = {"meta", "link", "br", "img", "input", "hr"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.entries = []
        self.tags = []

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        self.tags.append((tag, tuple(sorted(attrs.items()))))
        if tag in self.VOID:
            return
        classes = set((attrs.get("class") or "").split())
        entry = None
        if tag == "div" and len(classes & set(NAMES)) == 1:
            depth = sum(1 for _, c, _ in self.stack if "sub-results" in c)
            entry = [depth, "", NAMES.index((classes & set(NAMES)).pop())]
            self.entries.append(entry)
        self.stack.append((tag, classes, entry))

    def handle_startendtag(self, tag, attrs):
        self.tags.append((tag, "empty", tuple(sorted(attrs))))

    def handle_endtag(self, tag):
        self.tags.append(("/", tag))
        while self.stack:
            if self.stack.pop()[0] == tag:
                break

    def handle_comment(self, data):
        self.tags.append(("comment", data))

    def handle_decl(self, decl):
        self.tags.append(("decl", decl))

    def unknown_decl(self, data):
        self.tags.append(("decl", data))

    def handle_data(self, data):
        if self.stack and self.stack[-1][2] is not None:
            self.stack[-1][2][1] += data


def parse_page(text):
    p = Page()
    p.feed(text)
    p.close()
    return p


def check_lines(t, r):
    p = plain(t, [0])
    rp = build(p)
    want, lines, plines = nodes(t), list(sut(r.to_lines)), list(sut(rp.to_lines))
    if len(lines) != len(want) or len(plines) != len(want):
        raise Violation(f"text output has {len(lines)} entries for {len(want)} results")
    indent, colour, tails = {}, {}, set()
    for (depth, msg, level), (_, token, _), line, pline in zip(want, nodes(p), lines, plines):
        if pline.count(token) != 1:
            raise Violation(f"text output does not show {token!r} once at its place: {pline!r}")
        head, tail = pline.split(token)
        if line != head + msg + tail:
            raise Violation(f"text output shows {line!r} for message {msg!r} (level {level}, depth {depth})")
        width = len(head) - len(head.lstrip(" \t"))
        if indent.setdefault(depth, width) != width:
            raise Violation(f"indentation is not a function of the depth: {indent} vs {width} at depth {depth}")
        col = head.strip(" \t")
        if colour.setdefault(level, col) != col:
            raise Violation(f"colour of level {NAMES[level]} is not unique: {colour[level]!r}, {col!r}")
        tails.add(tail)
    if len(tails) != 1:
        raise Violation(f"lines end differently: {tails}")
    ws = [indent[d] for d in sorted(indent)]
    if any(a >= b for a, b in zip(ws, ws[1:])):
        raise Violation(f"nesting is not visible in the text output: indentation {ws}")
    if len(set(colour.values())) != len(colour):
        raise Violation(f"levels share a colour in the text output: {colour}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sut(r.dump)
    if out.getvalue() != "".join(l + "\n" for l in lines):
        raise Violation("dump() does not print the lines of the result")


def check_html(t, r):
    text = sut(r.to_html)
    page, ppage = parse_page(text), parse_page(sut(build(plain(t, [0])).to_html))
    if page.tags != ppage.tags:
        extra = next((i for i, (a, b) in enumerate(zip(page.tags, ppage.tags)) if a != b), min(len(page.tags), len(ppage.tags)))
        raise Violation(f"messages change the markup: {page.tags[extra:extra+3]} instead of {ppage.tags[extra:extra+3]}", t)
    got, want = [tuple(e) for e in page.entries], nodes(t)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"HTML entry {i} is {got[i:i+1]}, expected {want[i:i+1]} (of {len(want)})", t)


def check_dict(t, r):
    want = model_dict(t)
    got = sut(r.to_dict)
    if got != want:
        raise Violation("to_dict does not describe the tree", {"got": got, "want": want})
    for ensure in (True, False):
        data = json.loads(json.dumps(got, ensure_ascii=ensure))
        back = sut(AasTestResult.from_json, data)
        if sut(back.to_dict) != want:
            raise Violation("the dictionary does not survive a JSON round trip", {"got": back.to_dict(), "want": want})
        if back.level != r.level or back.ok() != r.ok() or list(back.to_lines()) != list(r.to_lines()) or back.to_html() != r.to_html():
            raise Violation("a result read back from JSON has another level or output")


def check_level(t, r):
    w = worst(t)
    if r.level != LEVELS[w]:
        raise Violation(f"level is {r.level}, the worst one in the tree is {LEVELS[w]}", t)
    if sut(r.ok) != (w <= 1):
        raise Violation(f"ok() is {r.ok()} for level {LEVELS[w]}", t)
    for (msg, own, kids), sub in ((a, b) for a, b in zip(t[2], r.sub_results)):
        check_level((msg, own, kids), sub)
    if len(r.sub_results) != len(t[2]):
        raise Violation(f"{len(r.sub_results)} sub-results of {len(t[2])}")


def trees(src, index):
    t = gen_tree(src, 0, [src.pick([3, 10, 40])])
    r = build(t, src.bool(0.3))
    check_level(t, r)
    check_lines(t, r)
    check_html(t, r)
    check_dict(t, r)
    check_level(t, r)  # producing output changes nothing
    n = nodes(t)
    return Case(repr(t), len(n) > 1, [f"worst={NAMES[worst(t)]}", f"depth={max(d for d, _, _ in n)}"], {"nodes": len(n), "worst": NAMES[worst(t)], "message": t[0]})


def observe(src, r):
    """somebody looks at the result, and does what they like with what they get"""
    k = src.draw(5)
    if k == 0:
        sut(r.ok)
    elif k == 1:
        d = sut(r.to_dict)
        d["m"] = "changed"
        d["l"] = 0
        d["s"].clear()
    elif k == 2:
        sut(r.to_html)
    elif k == 3:
        list(sut(r.to_lines))
    elif k == 4:
        sut(AasTestResult.from_json, sut(r.to_dict)).append(AasTestResult("changed", Level.CRITICAL))
    else:
        next(iter(sut(r.to_lines)))


def grown(src, index):
    """the same, with output in between: a result grows, and every output shows what it is at that moment"""

    def grow(t):
        r = AasTestResult(t[0], LEVELS[t[1]])
        if src.bool(0.3):
            observe(src, r)
        for i, k in enumerate(t[2]):
            r.append(grow(k))
            if src.bool(0.3):
                observe(src, r)
            if src.bool(0.1):
                check_level((t[0], t[1], t[2][: i + 1]), r)
                check_dict((t[0], t[1], t[2][: i + 1]), r)
        return r

    t = gen_tree(src, 0, [src.pick([3, 10, 25])])
    r = grow(t)
    check_level(t, r)
    check_lines(t, r)
    check_html(t, r)
    check_dict(t, r)
    observe(src, r)
    check_dict(t, r)
    check_level(t, r)
    n = nodes(t)
    return Case(repr(t), len(n) > 1, [f"worst={NAMES[worst(t)]}"], {"nodes": len(n), "worst": NAMES[worst(t)], "message": t[0]})


def wide(src, index):
    """long chains and long lists with one bad node somewhere"""
    deep = src.bool()
    n = src.pick([1, 2, 10, 63, 64, 65, 100, 150] + ([] if deep else [255, 256, 257, 500, 999, 1000, 1001]))
    at = src.draw(n)
    level = src.draw(3)
    if deep:
        t = ("m", level if at == n else 0, [])
        for i in reversed(range(n)):
            before = [("s", 0, [])] * src.draw(1)
            after = [("e", 0, [])] * src.draw(1)
            t = (f"m{i}", level if at == i else 0, before + [t] + after)
    else:
        t = ("root", 0, [(f"m{i}", level if at == i else 0, []) for i in range(n + 1)])
    r = build(t)
    check_level(t, r)
    check_lines(t, r)
    check_html(t, r)
    check_dict(t, r)
    return Case((n, at, level, deep, repr(t)), n > 1, ["chain" if deep else "list"], {"n": n, "bad at": at, "level": NAMES[level]})


def huge(src, index):
    """thousands of findings: as many as a large file can have"""
    n = src.pick([2000, 5000, 10000, 20000])
    at = src.draw(n)
    level = src.draw(3)
    per = src.pick([1, 3, 50])
    kids = [(f"m{i}", level if at == i else i % 3 % 2, []) for i in range(n + 1)]
    if per > 1:
        kids = [(f"g{i}", 0, kids[i : i + per]) for i in range(0, len(kids), per)]
    t = ("root", 0, kids)
    r = build(t)
    check_level(t, r)
    check_lines(t, r)
    check_html(t, r)
    check_dict(t, r)
    return Case((n, at, level, per), True, [f"n={n}"], {"n": n, "bad at": at, "level": NAMES[level]})


def levels(src, index):
    """Level | Level is the worse of both; a node as bad as its worst child whatever the order"""
    seq = [src.draw(3) for _ in range(src.int(2, 8))]
    cur = LEVELS[seq[0]]
    for v in seq[1:]:
        cur = sut(lambda a, b: a | b, cur, LEVELS[v])
    if cur != LEVELS[max(seq)]:
        raise Violation(f"levels {seq} combine to {cur}")
    return Case(tuple(seq), True, [], seq)


CHECK = Check(
    "C12",
    [
        Group("trees", trees, 5000, 120000),
        Group("grown", grown, 2000, 60000),
        Group("wide", wide, 400, 6000),
        Group("huge", huge, 6, 200),
        Group("levels", levels, 800, 5000),
    ],
    rule="a result tree with at least one sub-result (levels: any sequence of levels); distinct by messages, levels and shape",
    assumptions=[
        "trees are built bottom-up: nothing is appended to a result that was already appended to its parent",
        "HTML entries are div elements with the class info/warning/error/critical, nested by div.sub-results; text lines carry the nesting as leading white space and the level as colour",
        "lone surrogates are excluded (they cannot be printed)",
    ],
)
