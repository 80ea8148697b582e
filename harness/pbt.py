"""
A small property-based testing engine.

Every random decision of a case is drawn from a `Src`, which records it as a bounded integer.  A case is
therefore a pure function of (group, index, list of integers): it can be replayed from a file and shrunk by
deleting, zeroing and lowering integers.  The stream of integers itself is seeded from
(VERIF_SEED, property, group, index) only.

Outcomes of one case:
  * the case function returns a `Case`             -> property held on it
  * it raises `Violation`                          -> the property is broken
  * anything else it raises                        -> error of the harness (exit 2), never a violation
"""

import atexit
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback
from multiprocessing import get_context
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
CPU_LIMIT = 60.0  # seconds of CPU time (not wall clock) one case may take; normal cases take milliseconds
# the quick tier of these properties is cheap, so it runs more cases
BOOST = {"C02": 2, "C06": 2, "C08": 3, "C09": 2, "C12": 5, "C13": 5, "C15": 3, "C16": 3, "C17": 3, "C18": 2, "C19": 1.5, "C20": 4, "C21": 4, "C22": 5}
DEADLINE = {"quick": 420, "thorough": 3 * 3600}  # stop generating then: inconclusive, never a violation


class Violation(Exception):
    def __init__(self, msg, detail=None, known=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail
        self.known = known  # key of a known finding this could be


class Discard(Exception):
    """The generated case is outside of the domain of the property"""


class CpuExceeded(BaseException):
    pass


class Case:
    __slots__ = ("key", "nontrivial", "labels", "sample", "known")

    def __init__(self, key, nontrivial=True, labels=(), sample=None, known=()):
        self.key = key
        self.nontrivial = nontrivial
        self.labels = labels
        self.sample = sample
        self.known = known


class Src:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.choices = []
        self.pos = 0

    def draw(self, n):
        """An integer in 0..n (inclusive); 0 is the simplest one"""
        if n <= 0:
            return 0
        if self.given is None:
            v = self.rng.randint(0, n)
        else:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            v = min(v, n)
            self.pos += 1
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, p=0.5):
        """True with probability p; shrinks to False"""
        if self.given is None:
            v = 1 if self.rng.random() < p else 0
        else:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            v = 1 if v else 0
            self.pos += 1
        self.choices.append(v)
        return bool(v)

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest one"""
        total = sum(w for w, _ in pairs)
        v = self.draw(total - 1)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def size(self, lo, hi, p=0.5):
        """A small number in lo..hi, geometrically distributed"""
        n = lo
        while n < hi and self.bool(p):
            n += 1
        return n

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.draw(len(pool) - 1)))
        return out

    def shuffle(self, seq):
        pool = list(seq)
        out = []
        while pool:
            out.append(pool.pop(self.draw(len(pool) - 1)))
        return out

    def chars(self, alphabet, lo, hi, p=0.8):
        return "".join(self.pick(alphabet) for _ in range(self.size(lo, hi, p)))


class Group:
    """One generator with one oracle. fn(src, index) -> Case"""

    def __init__(self, name, fn, quick, thorough, shrink=True):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shrink = shrink


class Check:
    def __init__(self, prop, groups, rule, assumptions=(), level="exploration", procs=8):
        self.prop = prop
        self.groups = groups
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.procs = procs


def sut(fn, *args, **kwargs):
    """Call the code under test; an exception it lets escape breaks every property that promises an answer"""
    try:
        return fn(*args, **kwargs)
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "aas_test_engines" in f.filename), "?")
        name = getattr(fn, "__name__", str(fn))
        raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:200]} (in {where})") from e


def _seed(seed, prop, group, index):
    h = hashlib.sha256(f"{seed}|{prop}|{group}|{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def _on_cpu(*_):
    raise CpuExceeded()


def run_case(fn, src, index, cpu=None):
    """-> ("ok", Case) | ("bad", Violation) | ("discard", None) | ("error", text)"""
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or CPU_LIMIT)
    try:
        return "ok", fn(src, index)
    except Violation as v:
        return "bad", v
    except Discard:
        return "discard", None
    except CpuExceeded:
        return "bad", Violation(f"did not terminate within {cpu or CPU_LIMIT} s of CPU time")
    except (SystemExit, KeyboardInterrupt) as e:
        return "bad", Violation(f"{type(e).__name__} was raised: {e}")
    except Exception:
        return "error", traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink(fn, index, choices, violation, max_runs=1200, max_seconds=25, new=None):
    """new(choices): is this violation also one which the known findings do not explain?"""
    best, best_v = list(choices), violation
    runs = 0
    t_end = time.time() + max_seconds

    def attempt(cand):
        nonlocal best, best_v, runs
        if runs >= max_runs or time.time() > t_end:
            return False
        runs += 1
        src = Src(choices=cand)
        kind, res = run_case(fn, src, index, cpu=10)
        if kind == "bad" and res.known == violation.known and not res.msg.startswith("did not terminate"):
            used = src.choices
            if (len(used) < len(best) or (len(used) == len(best) and used < best)) and (new is None or new(used)):
                best, best_v = used, res
                return True
        return False

    improved = True
    while improved and runs < max_runs and time.time() < t_end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if runs >= max_runs or time.time() > t_end:
                    break
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                    continue
                if any(best[i : i + size]) and attempt(best[:i] + [0] * len(best[i : i + size]) + best[i + size :]):
                    improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            while i < len(best) and best[i] > 1 and attempt(best[:i] + [best[i] // 2] + best[i + 1 :]):
                improved = True
            if i < len(best) and best[i] > 0 and attempt(best[:i] + [best[i] - 1] + best[i + 1 :]):
                improved = True
    return best, best_v, runs


TWIN = None  # makes a client of the repaired twin, see twin.py
RECORDED = None  # makes a client of the code for which the known findings were recorded
PRISTINE = None  # makes a client of a process which runs /repo itself, but has not run any case yet
COLLECT = False


def _ask_fresh(make, group, index, seed, before=()):
    c = make()
    for i in before:
        c.ask(group, i, seed=seed(i))
    r = c.ask(group, index, seed=seed(index))
    c.close()
    return r


def _explained(group, index, seed, before, clients):
    """A case failed on /repo. Do the known findings explain that, i.e. does it hold with their repairs, and did it
    also fail on the code for which they were recorded? -> (answer, message, note); "ok" if explained"""
    for name, make in (("twin", TWIN), ("recorded", RECORDED)):
        if name not in clients:
            clients[name] = make()
    kind, msg = clients["twin"].ask(group, index, seed=seed(index))
    if kind in ("bad", "error"):
        return kind, msg, None
    if _ask_fresh(PRISTINE, group, index, seed)[0] == "bad":
        # several times, since real connections are never quite repeatable
        if all(clients["recorded"].ask(group, index, seed=seed(index))[0] == "ok" for _ in range(3)) and all(
            _ask_fresh(PRISTINE, group, index, seed)[0] == "bad" for _ in range(3)
        ):
            return "bad", None, None
        return kind, msg, None
    # It only fails after other cases; so the others get the same history
    note = f"(only after the {len(before)} cases before it)"
    kind, msg = _ask_fresh(TWIN, group, index, seed, before)
    if kind in ("bad", "error"):
        return kind, msg, note
    if _ask_fresh(RECORDED, group, index, seed, before)[0] == "ok" and _ask_fresh(PRISTINE, group, index, seed, before)[0] == "bad":
        return "bad", None, note
    return kind, msg, note


def _is_new(ask):
    return ask("twin") == "bad" or ask("recorded") == "ok"


def _worker(args, progress):
    check, gname, seed, indices, t_end = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    group = next(g for g in check.groups if g.name == gname)
    out = _empty(gname)
    seed_of = lambda i: _seed(seed, check.prop, gname, i)
    before = []
    clients = {}
    for index in indices:
        if time.time() > t_end:
            out["skipped"] += 1
            continue
        progress(index)
        src = Src(seed=seed_of(index))
        kind, res = run_case(group.fn, src, index)
        history, before = before, before + [index]
        if kind == "discard":
            out["discard"] += 1
            continue
        if kind == "error":
            out["errors"].append((index, list(src.choices), res))
            if len(out["errors"]) > 3:
                break
            continue
        note = None
        if kind == "bad" and res.known is None and TWIN is not None:
            tkind, tmsg, note = _explained(gname, index, seed_of, history, clients)
            if tkind == "error":
                out["errors"].append((index, list(src.choices), "twin: " + str(tmsg)))
                break
            if tkind == "discard":
                out["discard"] += 1
                continue
            if tkind == "ok":
                out["explained"] += 1
                if COLLECT:
                    out["explained_cases"].append((index, list(src.choices), res.msg))
                continue
        out["n"] += 1
        if kind == "ok":
            for k in res.known:
                out["known"][k] = out["known"].get(k, 0) + 1
            if res.nontrivial:
                out["keys"].append(hashlib.md5(repr(res.key).encode("utf-8", "surrogatepass")).digest()[:8])
            for l in res.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if res.sample is not None and len(out["samples"]) < 2:
                out["samples"].append(res.sample)
        else:
            choices, v, runs = list(src.choices), res, 0
            if group.shrink and not note and not v.msg.startswith("did not terminate"):
                new = None
                if clients:
                    new = lambda c: _is_new(lambda name: clients[name].ask(gname, index, choices=c, cpu=10)[0])
                choices, v, runs = shrink(group.fn, index, choices, res, new=new)
            out["bad"].append({
                "index": index, "choices": choices, "message": v.msg + (" " + note if note else ""), "detail": v.detail,
                "known": v.known, "original_length": len(src.choices), "shrink_runs": runs, "before": history,
            })
            if len(out["bad"]) >= 2:
                break
    return out


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out[d["key"]] = d
    return out


def main(check):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_GROUP")
    t0 = time.time()
    t_end = t0 + DEADLINE[tier]
    jobs = []
    totals = {}
    for g in check.groups:
        if only and g.name not in only.split(","):
            continue
        n = max(1, int((g.quick * BOOST.get(check.prop, 1) if tier == "quick" else g.thorough) * scale))
        totals[g.name] = n
        procs = check.procs
        chunk = max(1, min(400, -(-n // (procs * 6))))
        for lo in range(0, n, chunk):
            jobs.append((check, g.name, seed, range(lo, min(n, lo + chunk)), t_end))
    known_list = load_known(check.prop)
    for key, d in known_list.items():
        if d.get("witness"):
            jobs.append((check, None, key, d["witness"], None))
    missing = _start_twins(check)
    results = []
    bad = []
    errors = []
    n_bad_jobs = 0
    for r in _run_jobs(jobs, check.procs):
        results.append(r)
        if r["errors"]:
            errors += [(r["group"],) + e for e in r["errors"]]
            if len(errors) > 5:
                break
        if [b for b in r["bad"]]:
            n_bad_jobs += 1
            if n_bad_jobs >= 6:
                break
    if COLLECT:
        return results

    seen_known = {}
    for r in results:
        for k, c in r["known"].items():
            seen_known[k] = seen_known.get(k, 0) + c
        for b in r["bad"]:
            b["group"] = r["group"]
            if b["known"] is not None and b["known"] in known_list:
                seen_known[b["known"]] = seen_known.get(b["known"], 0) + 1
            else:
                bad.append(b)
    bad.sort(key=lambda b: (b["group"], b["index"]))

    keys = set()
    labels = {}
    samples = []
    per_group = {}
    evaluations = 0
    for r in sorted(results, key=lambda r: r["group"]):
        evaluations += r["n"]
        keys.update((r["group"], k) for k in r["keys"])
        for l, c in r["labels"].items():
            labels[f"{r['group']}:{l}"] = labels.get(f"{r['group']}:{l}", 0) + c
        if r["group"] not in totals:
            continue
        pg = per_group.setdefault(r["group"], {"explained_by_known_findings": 0, "planned": totals[r["group"]], "run": 0, "discarded": 0, "skipped_for_time": 0, "distinct_nontrivial": 0})
        pg["run"] += r["n"]
        pg["discarded"] += r["discard"]
        pg["skipped_for_time"] += r["skipped"]
        pg["explained_by_known_findings"] += r["explained"]
    for g, _ in keys:
        per_group[g]["distinct_nontrivial"] += 1
    for g in per_group:
        s = [x for r in results if r["group"] == g for x in r["samples"]]
        samples += [{"group": g, "case": jsonable(x)} for x in s[:2]]

    os.makedirs(EVIDENCE, exist_ok=True)
    replays = []
    if bad:
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen_msgs = set()
        for b in bad:
            sig = (b["group"], b["message"][:60])
            if sig in seen_msgs:
                continue
            seen_msgs.add(sig)
            if len(replays) >= 5:
                break
            name = f"{check.prop}-{b['group']}-{b['index']}.json"
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump({
                    "property": check.prop, "group": b["group"], "index": b["index"], "choices": b["choices"],
                    "before": b["before"], "message": b["message"], "detail": jsonable(b["detail"]), "seed": seed,
                    "original_length": b["original_length"], "shrink_runs": b["shrink_runs"],
                    "how": f"sh /verif/check.sh {check.prop} --replay {path}",
                }, f, indent=1)
            replays.append((path, b))
    evidence = {
        "property": check.prop, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": check.rule,
            "samples": samples, "groups": per_group, "classes": dict(sorted(labels.items())),
            "known_findings_met": seen_known, "repairs_without_place": missing,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EVIDENCE, f"{check.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in sorted(seen_known):
        if k in known_list:
            print(f"KNOWN-FINDING: property={check.prop} {known_list[k]['what']}")
    for path, b in replays:
        print(f"VIOLATION property={check.prop} replay={path}")
        print(f"  [{b['group']}] {b['message']}".replace("\n", " ")[:1500])
    if replays:
        sys.stdout.flush()
        return 1
    if errors:
        for g, index, choices, text in errors[:3]:
            print(f"HARNESS ERROR in {g}[{index}]\n{text}", file=sys.stderr)
        return 2
    print(f"{check.prop}: held on {evaluations} cases, {len(keys)} distinct non-trivial, {evidence['wall_s']} s")
    return 0


def _start_twins(check):
    """Servers of the repaired twin and of the untouched code -> names of the repairs which found no place"""
    import twin

    global TWIN, PRISTINE, RECORDED
    overlay, missing = twin.build(REPO)
    atexit.register(shutil.rmtree, overlay, ignore_errors=True)
    repaired = twin.Server.spawn(overlay, check.prop)
    recorded = twin.Server.spawn(os.path.join(VERIF, "recorded"), check.prop)
    untouched = twin.Server.fork(check)
    atexit.register(recorded.close)
    atexit.register(repaired.close)
    atexit.register(untouched.close)
    TWIN, PRISTINE, RECORDED = repaired.client, untouched.client, recorded.client
    return missing


BLOCKED = 100.0  # seconds without using any CPU time until a case counts as blocked; normal cases take milliseconds


def _run_jobs(jobs, procs):
    """Every job in a process of its own, forked from this one, so that it starts without history"""
    ctx = get_context("fork")
    current = ctx.RawArray("q", [-1] * len(jobs))
    todo = list(reversed(range(len(jobs))))
    running = {}  # connection -> [job, process, seen, time]

    def child(i, conn):
        job = jobs[i]
        try:
            if job[1] is None:
                r = _witness(job[0], job[2], job[3])
            else:
                r = _worker(job, lambda index: current.__setitem__(i, index))
        except Exception:
            r = _empty(job[1])
            r["errors"].append((current[i], [], traceback.format_exc()))
        conn.send(r)
        conn.close()
        sys.stdout.flush()
        os._exit(0)

    def lost(i, why):
        check, gname, seed, indices = jobs[i][:4]
        out = _empty(gname if gname else indices["group"])
        index = current[i]
        if index < 0:
            out["errors"].append((-1, [], why))
        else:
            out["bad"].append({
                "index": index, "choices": None, "message": why, "detail": None, "known": None, "original_length": 0,
                "shrink_runs": 0, "before": [k for k in indices if k < index],
            })
        return out

    try:
        while todo or running:
            while todo and len(running) < procs:
                i = todo.pop()
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(i, w))
                p.start()
                w.close()
                running[r] = [i, p, None, time.monotonic()]
            for conn in wait(list(running), timeout=5):
                i, p, _, _ = running.pop(conn)
                try:
                    out = conn.recv()
                    p.join()
                except EOFError:
                    p.join()
                    out = lost(i, f"the process died with exit code {p.exitcode}")
                    if p.exitcode == -signal.SIGKILL:  # probably for lack of memory
                        out["errors"], out["bad"] = [(current[i], [], "the process was killed")], []
                conn.close()
                yield out
            now = time.monotonic()
            if any(now - since > 5 for _, _, _, since in running.values()):
                used = _cpu_by_tree()
                others = sum(c for pid, c in used.items() if pid not in [p.pid for _, p, _, _ in running.values()])
                for conn, entry in list(running.items()):
                    i, p, seen, since = entry
                    state = (current[i], used.get(p.pid), others // 50)  # the servers need a little for waiting
                    if state != seen:
                        entry[2:] = [state, now]
                    elif now - since > BLOCKED:
                        p.kill()
                        p.join()
                        running.pop(conn)
                        conn.close()
                        yield lost(i, f"blocked: no CPU time was used for {BLOCKED} s")
    finally:
        for i, p, _, _ in running.values():
            p.kill()
        for i, p, _, _ in running.values():
            p.join()


def _cpu_by_tree():
    """CPU time used by each child of this process together with its descendants, in clock ticks"""
    parent, used = {}, {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    t = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            parent[int(d)] = int(t[1])
            used[int(d)] = int(t[11]) + int(t[12]) + int(t[13]) + int(t[14])
    me = os.getpid()
    out = {}
    for pid, c in used.items():
        top, hops = pid, 0
        while parent.get(top, 0) not in (0, me) and hops < 100:
            top, hops = parent[top], hops + 1
        if parent.get(top) == me:
            out[top] = out.get(top, 0) + c
    return out


def _empty(group):
    return {
        "group": group, "n": 0, "discard": 0, "keys": [], "labels": {}, "samples": [], "bad": [], "errors": [],
        "known": {}, "skipped": 0, "explained": 0, "explained_cases": [],
    }


def _witness(check, key, w):
    """Does a known finding still show on the input it is listed with?"""
    group = next((g for g in check.groups if g.name == w["group"]), None)
    out = _empty(w["group"])
    if group is not None:
        kind, _ = run_case(group.fn, Src(choices=w["choices"]), w["index"])
        if kind == "bad":
            out["known"][key] = 1
    return out


def replay(check, path):
    d = json.load(open(path))
    _start_twins(check)
    seed = lambda i: _seed(d["seed"], check.prop, d["group"], i)
    how = {"choices": d["choices"]} if d["choices"] is not None else {"seed": seed(d["index"])}

    def run(make, before):
        c = make()
        for i in before:
            c.ask(d["group"], i, seed=seed(i))
        r = c.ask(d["group"], d["index"], **how)
        c.close()
        return r

    for before in ([], d.get("before") or []):
        kind, msg = run(PRISTINE, before)
        if kind == "bad":
            makers = {"twin": TWIN, "recorded": RECORDED}
            if _is_new(lambda name: run(makers[name], before)[0]):
                print(f"VIOLATION property={check.prop} replay={path}")
                print("  " + msg)
                print("  " + json.dumps(d["detail"], indent=1)[:6000])
                return 1
            print(f"explained by the known findings (it failed when they were recorded, but holds with their repairs): {msg}")
            return 0
        if not d.get("before"):
            break
    print(kind, msg)
    return 2 if kind == "error" else 0
