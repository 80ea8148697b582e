"""C13: nested reporting contexts record exactly what happened"""
from pbt import Case, Check, Discard, Group, Violation, sut
from aas_test_engines import result as R
from aas_test_engines.result import AasTestResult, Level

LEVELS = [Level.INFO, Level.WARNING, Level.ERROR, Level.CRITICAL]


class Foreign(Exception):
    pass


class ForeignValue(ValueError):
    pass


class ForeignBase(BaseException):
    pass


class ForeignPair(Exception):
    """takes and shows several arguments"""

    def __init__(self, text):
        super().__init__(text, 7)


FOREIGN = [
    Foreign, ForeignValue, AssertionError, KeyError, RuntimeError, StopIteration, OSError, TypeError, LookupError, RecursionError, MemoryError, ForeignPair,
    TimeoutError, NotImplementedError, ArithmeticError,
]


class Unspecified(BaseException):
    pass


# ------------------------------------------------------------------ programs
# op = ("write", tree) | ("abort", tree) | ("raise", cls, text) | ("ctx", tree, catch_all, body, own) | ("try", body)
#    | ("return", n) | ("loop", n, body)
# tree = (message, level or None, children); level None: given as plain string


def gen_tree(src, names, level_default):
    names[0] += 1
    msg = f"m{names[0]}" + src.pick(["", " ", "<x>", "\n", "%s", "{}"])
    if src.bool(0.15):
        msg = src.pick(["same", "same", "", " ", "m1", "Internal error: x"])
    if src.bool(0.6):
        return (msg, None, [])
    lvl = src.draw(3)
    kids = [(f"k{names[0]}.{i}", src.draw(3), []) for i in range(src.size(0, 2, 0.4))]
    return (msg, lvl, kids)


def gen_body(src, depth, names, budget):
    body = []
    for _ in range(src.size(0, 6, 0.7)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        kind = src.weighted([
            (5, "write"), (6 if depth < 7 else 0, "ctx"), (2, "abort"), (2, "raise"), (1, "try"), (1, "return"), (1, "loop"), (1, "own"), (1, "finally"), (1, "handler"), (1 if depth < 6 else 0, "early"),
        ])
        if kind in ("write", "abort", "own"):
            body.append((kind, gen_tree(src, names, 0)))
        elif kind == "raise":
            names[0] += 1
            cls = src.weighted([(4, Foreign), (2, ForeignValue), (6, None), (1, ForeignBase)]) or src.pick(FOREIGN)
            body.append(("raise", cls, src.pick([f"boom{names[0]}", "", f"b {names[0]} <"])))
        elif kind == "ctx":
            tree = gen_tree(src, names, 0)
            body.append(("ctx", tree, src.bool(0.35), gen_body(src, depth + 1, names, budget)))
        elif kind == "try":
            body.append(("try", gen_body(src, depth + 1, names, budget)))
        elif kind in ("finally", "handler"):
            body.append((kind, gen_body(src, depth + 1, names, budget), gen_body(src, depth + 1, names, budget)))
        elif kind == "early":
            # contexts which are made first and entered later, in any order
            ctxs = [("ctx", gen_tree(src, names, 0), src.bool(0.35), gen_body(src, depth + 1, names, budget)) for _ in range(src.int(1, 3))]
            body.append(("early", ctxs, src.shuffle(list(range(len(ctxs)))), src.bool()))
        elif kind == "loop":
            body.append(("loop", src.int(0, 3), gen_body(src, depth + 1, names, budget)))
        else:
            body.append(("return", src.int(1, 2)))
    return body


# ------------------------------------------------------------------ the real thing
def real_tree(t):
    if t[1] is None:
        return t[0]
    return real_result(t)


def real_result(t):
    r = AasTestResult(t[0], LEVELS[t[1] or 0])
    for k in t[2]:
        r.append(real_result(k))
    return r


class RealExec:
    def __init__(self, roots, trace):
        self.roots = roots
        self.trace = trace

    def run(self, body, depth, own):
        for op in body:
            kind = op[0]
            self.trace.append((kind, depth))
            if kind == "write":
                R.write(real_tree(op[1]))
            elif kind == "own":
                own.append(real_result(op[1]))
            elif kind == "abort":
                R.abort(real_tree(op[1]))
            elif kind == "raise":
                raise op[1](op[2])
            elif kind == "try":
                try:
                    n = self.run(op[1], depth, own)
                except tuple(FOREIGN):
                    n = 0
                if n:
                    return n
            elif kind == "loop":
                for _ in range(op[1]):
                    n = self.run(op[2], depth, own)
                    if n:
                        return n
            elif kind == "finally":
                try:
                    n = self.run(op[1], depth, own)
                finally:
                    m = self.run(op[2], depth, own)
                if n or m:
                    return n or m
            elif kind == "handler":
                try:
                    n = self.run(op[1], depth, own)
                except tuple(FOREIGN):
                    n = self.run(op[2], depth, own)
                if n:
                    return n
            elif kind == "early":
                n = self.early(op, depth)
                if n:
                    return n
            elif kind == "return":
                return op[1]
            elif kind == "ctx":
                n = self.ctx(op, depth)
                if n:
                    return n
        return 0

    def ctx(self, op, depth):
        args = (True,) if op[2] else ()
        given = real_tree(op[1])
        if op[2] and len(op[3]) % 2:
            cm = R.start(given, catch_all_exceptions=True)
        else:
            cm = R.start(given, *args)
        return self.enter(cm, op, depth, given)

    def early(self, op, depth):
        made = [R.start(real_tree(c[1]), c[2]) for c in op[1]]
        if op[3]:  # one inside of the other
            def nest(order):
                if not order:
                    return 0
                with made[order[0]] as r:
                    n = nest(order[1:]) or self.run(op[1][order[0]][3], depth + 1, r)
                    if n:
                        return n - 1
                return 0
            return nest(op[2])
        for k in op[2]:
            n = self.enter(made[k], op[1][k], depth)
            if n:
                return n
        return 0

    def enter(self, cm, op, depth, given=None):
        with cm as r:
            if depth == 0:  # who hands over a result finds the records there
                self.roots.append(given if isinstance(given, AasTestResult) else r)
            n = self.run(op[3], depth + 1, r)
            if n:
                return n - 1
        return 0


# ------------------------------------------------------------------ the model
class Node:
    def __init__(self, msg, level, kids=()):
        self.msg, self.level, self.kids = msg, level, list(kids)

    def add(self, n):
        self.kids.append(n)
        self.level = max(self.level, n.level)

    def dict(self):
        return {"m": self.msg, "l": self.level, "s": [k.dict() for k in self.kids]}


def model_node(t, default):
    n = Node(t[0], default if t[1] is None else t[1])
    for k in t[2]:
        n.add(model_node(k, 0))
    return n


class Abort(Exception):
    def __init__(self, node):
        self.node = node


class Contains:
    """the message of the critical entry a catch-all context makes: must contain the text of the exception"""

    def __init__(self, text):
        self.text = text


class ModelExec:
    def __init__(self, roots, trace, attach_on_foreign):
        self.roots = roots
        self.trace = trace
        self.attach = attach_on_foreign
        self.unspecified = False

    def run(self, body, depth, cur):
        for op in body:
            kind = op[0]
            self.trace.append((kind, depth))
            if kind == "write":
                cur.add(model_node(op[1], 0))
            elif kind == "own":
                cur.add(model_node(op[1], 0))
            elif kind == "abort":
                raise Abort(model_node(op[1], 2))
            elif kind == "raise":
                raise op[1](op[2])
            elif kind == "try":
                try:
                    n = self.run(op[1], depth, cur)
                except tuple(FOREIGN):
                    n = 0
                if n:
                    return n
            elif kind == "loop":
                for _ in range(op[1]):
                    n = self.run(op[2], depth, cur)
                    if n:
                        return n
            elif kind == "finally":
                try:
                    n = self.run(op[1], depth, cur)
                finally:
                    m = self.run(op[2], depth, cur)
                if n or m:
                    return n or m
            elif kind == "handler":
                try:
                    n = self.run(op[1], depth, cur)
                except tuple(FOREIGN):
                    n = self.run(op[2], depth, cur)
                if n:
                    return n
            elif kind == "early":
                n = self.early(op, depth, cur)
                if n:
                    return n
            elif kind == "return":
                return op[1]
            elif kind == "ctx":
                n = self.ctx(op, depth, cur)
                if n:
                    return n
        return 0

    def early(self, op, depth, parent):
        if op[3]:
            def nest(order, parent):
                if not order:
                    return 0
                c = op[1][order[0]]
                return self.ctx(c, depth, parent, lambda node: nest(order[1:], node) or self.run(c[3], depth + 1, node))
            return nest(op[2], parent)
        for k in op[2]:
            n = self.ctx(op[1][k], depth, parent)
            if n:
                return n
        return 0

    def ctx(self, op, depth, parent, inner=None):
        node = model_node(op[1], 0)
        if depth == 0:
            self.roots.append(node)
        n = 0
        try:
            n = inner(node) if inner else self.run(op[3], depth + 1, node)
        except Abort as a:
            node.add(a.node)
        except Exception as e:
            if op[2]:
                node.add(Node(Contains(str(e)), 3))
            else:
                if parent is not None and self.attach:
                    parent.add(node)
                raise
        except ForeignBase:
            if op[2]:
                self.unspecified = True
                raise Unspecified()
            if parent is not None and self.attach:
                parent.add(node)
            raise
        if parent is not None:
            parent.add(node)
        return max(0, n - 1)


def same(got, want):
    if got["l"] != want["l"] or len(got["s"]) != len(want["s"]):
        return False
    m = want["m"]
    if isinstance(m, Contains):
        if m.text not in got["m"]:
            return False
    elif got["m"] != m:
        return False
    return all(same(a, b) for a, b in zip(got["s"], want["s"]))


def show(d):
    return {"m": d["m"].text if isinstance(d["m"], Contains) else d["m"], "l": d["l"], "s": [show(s) for s in d["s"]]}


def no_context_open(when):
    try:
        R.write("stray")
    except Exception:
        pass
    else:
        raise Violation(f"{when}: a context is still open, a write outside of any context was accepted")
    with R.start("fresh") as r:
        R.write("x")
    if r.to_dict() != {"m": "fresh", "l": 0, "s": [{"m": "x", "l": 0, "s": []}]}:
        raise Violation(f"{when}: a new context records {r.to_dict()}")


def run_program(op):
    """one top-level context"""
    outs = []
    for attach in (False, True):
        roots, trace = [], []
        err = None
        model = ModelExec(roots, trace, attach)
        try:
            model.ctx(op, 0, None)
        except BaseException as e:
            err = e
        if model.unspecified:
            raise Discard()
        outs.append((roots, trace, err))
    roots, trace = [], []
    err = None
    ex = RealExec(roots, trace)
    try:
        ex.ctx(op, 0)
    except (Exception, ForeignBase) as e:
        err = e
    want_err = outs[0][2]
    if type(err) is not type(want_err) or (err is not None and str(err) != str(want_err)):
        raise Violation(f"ended with {err!r}, expected {want_err!r}", repr(op))
    if trace != outs[0][1]:
        i = next((i for i, (a, b) in enumerate(zip(trace, outs[0][1])) if a != b), min(len(trace), len(outs[0][1])))
        raise Violation(f"execution continued at {trace[i:i+1]} instead of {outs[0][1][i:i+1]} (step {i})", repr(op))
    if len(roots) != 1:
        raise Violation("no root")
    got = roots[0].to_dict()
    wants = [o[0][0].dict() for o in outs]
    if not any(same(got, w) for w in wants):
        raise Violation("the recorded tree is not what happened", {"got": got, "want": show(wants[0]), "program": repr(op)})
    return got, err, len(trace)


def programs(src, index):
    names = [0]
    ops = []
    labels = set()
    total = 0
    for _ in range(src.size(1, 3, 0.4)):
        budget = [src.pick([4, 12, 30])]
        ops.append(("ctx", gen_tree(src, names, 0), src.bool(0.35), gen_body(src, 0, names, budget)))
    for op in ops:
        got, err, n = run_program(op)
        total += n
        labels.add("foreign" if err is not None else "returned")
        no_context_open("after the outermost context" + (" was left by an exception" if err is not None else ""))
    text = repr(ops)
    for k in ("abort", "raise", "try", "return", "finally", "handler", "early"):
        if f"('{k}'" in text:
            labels.add(k)
    return Case(text, total >= 2, labels, text[:300])


def flip(src, index):
    """every path to leave a context at every depth: depth d, exit kind at depth k, catch-all at depth c"""
    d = 1 + index % 6 if index % 5 else src.pick([7, 12, 30, 60])
    exits = ["normal", "abort", "abort-critical", "raise", "return", "base"]
    kind = exits[(index // 6) % len(exits)]
    c = src.int(0, d)  # catch-all at this depth (0: none)
    op = {
        "normal": [], "abort": [("abort", ("stop", None, []))], "abort-critical": [("abort", ("stop", 3, [("why", 2, [])]))],
        "raise": [("raise", Foreign, "boom")], "return": [("return", src.int(1, d))], "base": [("raise", ForeignBase, "bye")],
    }[kind]
    body = [("write", ("before", None, []))] + op + [("write", ("unreached", None, []))]
    for i in range(d, 0, -1):
        ctx = ("ctx", (f"c{i}", None, []), i == c, body)
        body = [("write", (f"pre{i}", None, [])), ctx, ("write", (f"post{i}", src.pick([None, 1, 2]), []))]
    top = ("ctx", ("top", None, []), False, body)
    run_program(top)
    no_context_open("afterwards")
    return Case(repr(top), True, [kind], kind)


CHECK = Check(
    "C13",
    [
        Group("programs", programs, 80000, 2000000),
        Group("exits", flip, 3000, 20000),
    ],
    rule="a history of at least two operations (write, abort, raise, nested contexts with or without catch-all, made at once or earlier, try/except/finally, early return, loop), interpreted on the real contexts and on a model; distinct by program",
    assumptions=[
        "whether a context that a foreign exception passes through is attached to its parent is left open, but must be uniform",
        "whether catch-all contexts also stop exceptions outside of Exception is left open",
    ],
)
