#!/usr/bin/env python3
"""Shows that one seed is one execution: runs the same seeds in four processes, in different orders and with and
without the solver's table, and compares the digests of the complete histories.  The interpreter's hash seed belongs to the seed (asta
iterates over sets, so it moves a few steps); replay files record it.

  determinism.py [--runs N] [PROPERTY ...]
"""
import argparse
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402
from sim import kinds  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--runs", type=int, default=60)
    ap.add_argument("--seed", type=int, default=77)
    ap.add_argument("--hashseed", type=int, default=14)
    ap.add_argument("properties", nargs="*", default=sorted(kinds.KINDS))
    args = ap.parse_args()
    jobs = check.Jobs()
    bad = 0
    try:
        for prop in args.properties:
            base = args.seed * 10000000
            seeds = list(range(base, base + args.runs))
            if prop == "C16":
                seeds = seeds[: args.runs // 4]
            handles, orders = [], []
            for w in range(4):
                order = list(seeds)
                if w >= 2:
                    random.Random(w).shuffle(order)
                orders.append(order)
                handles.append(jobs.start({"mode": "search", "profile": prop, "cap": 300, "max": 10 ** 6, "seeds": order,
                                           "explicit": True, "memo": w % 2 == 0}, args.hashseed))
            outs = [jobs.finish(h, 600) for h in handles]
            tables = [dict(zip(o, out["digests"])) for o, out in zip(orders, outs)]
            diff = [s for s in seeds if len({t.get(s) for t in tables}) != 1]
            steps = {out["steps"] for out in outs}
            print("%s: %d seeds, 4 processes, steps %s, %d seeds differ %s" % (prop, len(seeds), sorted(steps), len(diff), diff[:5]))
            bad += len(diff)
    finally:
        jobs.close()
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
