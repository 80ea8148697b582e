"""
Offline tool, not part of any check: find out which repair of /verif/repairs explains which violation on /repo, and
write the shortest input found per (property, repair) to KNOWN_FINDINGS.jsonl.

usage: witness.py C01 [C02 ...]
"""
import importlib
import json
import os
import re
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import pbt  # noqa: E402
import twin  # noqa: E402

NAMES = twin.repairs()
N = int(os.environ.get("WITNESSES", "6"))


class Twins:
    def __init__(self, prop):
        self.prop, self.made = prop, {}

    def get(self, k):
        if k not in self.made:
            root, missing = twin.build(pbt.REPO, upto=k)
            assert not missing, missing
            server = twin.Server.spawn(root, self.prop)
            self.made[k] = (root, server, server.client())
        return self.made[k][2]

    def bad(self, k, group, index, choices):
        kind, _ = self.get(k).ask(group, index, choices=choices, cpu=20)
        return kind == "bad"

    def close(self):
        for root, server, client in self.made.values():
            client.close()
            server.close()
            shutil.rmtree(root)


def attribute(tw, g, i, c):
    lo, hi = 0, len(NAMES)
    if not tw.bad(0, g, i, c) or tw.bad(hi, g, i, c):
        return None
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if tw.bad(mid, g, i, c):
            lo = mid
        else:
            hi = mid
    return hi


def main(prop):
    check = importlib.import_module("checks." + prop.lower()).CHECK
    pbt.COLLECT = True
    results = pbt.main(check)
    cases, per_msg = [], {}
    for r in results:
        for index, choices, msg in r["explained_cases"]:
            sig = (r["group"], re.sub(r"[^A-Za-z ]", "", re.sub(r"'[^']*'", "", msg))[:90])
            per_msg.setdefault(sig, []).append((len(choices), r["group"], index, choices, msg))
    for sig, l in per_msg.items():
        l.sort()
        cases += l[:N] + l[N :: max(1, len(l) // N)]
    cases.sort()
    cases = cases[: 80 * N]
    print(prop, "explained", sum(len(l) for l in per_msg.values()), "to attribute", len(cases), flush=True)
    tw = Twins(prop)
    found = {}
    for _, g, i, c, msg in cases:
        k = attribute(tw, g, i, c)
        if k is not None:
            found.setdefault(k, [])
            found[k].append((len(c), g, i, c, msg))
    out = []
    for k in sorted(found):
        best = None
        for _, g, i, c, msg in sorted(found[k])[:1]:
            grp = next(x for x in check.groups if x.name == g)
            kind, v = pbt.run_case(grp.fn, pbt.Src(choices=c), i)
            if kind != "bad":
                continue
            c2, v2, _ = pbt.shrink(
                grp.fn, i, c, v, max_runs=400, max_seconds=40,
                new=lambda c: tw.bad(k - 1, g, i, c) and not tw.bad(k, g, i, c),
            )
            best = {"group": g, "index": i, "choices": c2, "message": v2.msg[:600], "detail": pbt.jsonable(v2.detail)}
        if best:
            out.append((k, best))
            print(prop, NAMES[k - 1], len(found[k]), best["group"], best["message"][:150].replace("\n", " "), flush=True)
    tw.close()
    os.makedirs("/tmp/w/wit", exist_ok=True)
    json.dump(out, open(f"/tmp/w/wit/{prop}.json", "w"), indent=1)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        main(p)
