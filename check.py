#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py C01 [--tier quick|thorough] [--seed N] [--workers N] [--runs N]
  check.py C01 --replay FILE

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import kinds, known  # noqa: E402

PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
REAL = [
    "asta/*.py (every module, unmodified, imported afresh from /repo for each simulated process)",
    "CPython interpreter, typing, configparser, toml, oxentiel, numpy",
]
STUBS = [
    "torch: not installed; a stand-in module with Tensor, Size and dtype objects",
    "thread scheduler: real threads, but one runs at a time and the simulator picks which at each traced line or bytecode of asta",
    "sys.stdout during runs: records writes per thread and call, fails on request",
]


class Broken(Exception):
    """ The check itself does not work. """


def env_for(hashseed):
    env = {
        "HOME": "/root", "LANG": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(hashseed), "PYTHONNOUSERSITE": "1",
        "TF_CPP_MIN_LOG_LEVEL": "3", "TF_ENABLE_ONEDNN_OPTS": "0", "CUDA_VISIBLE_DEVICES": "-1",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TMPDIR": tempfile.gettempdir(),
    }
    if "ASTA_SIM_REPO" in os.environ:
        env["ASTA_SIM_REPO"] = os.environ["ASTA_SIM_REPO"]
    return env


class Jobs:
    """ Worker processes with their job files in a scratch directory. """

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="asta_check_")
        self.n = 0

    def start(self, job, hashseed):
        self.n += 1
        path = os.path.join(self.dir, "job%d" % self.n)
        with open(path, "w") as handle:
            json.dump(job, handle)
        log = open(path + ".log", "w")
        proc = subprocess.Popen(
            [PY, os.path.join(HERE, "sim", "worker.py"), path], env=env_for(hashseed), stdout=log,
            stderr=subprocess.STDOUT, cwd=self.dir,
        )
        log.close()
        return {"path": path, "proc": proc, "job": job, "hashseed": hashseed}

    def finish(self, h, timeout):
        try:
            h["proc"].wait(timeout)
        except subprocess.TimeoutExpired:
            h["proc"].kill()
            h["proc"].wait()
            raise Broken("a worker did not end in %ss" % timeout) from None
        try:
            with open(h["path"] + ".out") as handle:
                return json.load(handle)
        except FileNotFoundError:
            with open(h["path"] + ".log") as handle:
                text = handle.read()
            raise Broken("a worker failed:\n%s" % text[-3000:]) from None

    def run(self, job, hashseed, timeout=300):
        return self.finish(self.start(job, hashseed), timeout)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def hashseed(seed, w):
    return (seed * 7919 + w * 104729 + 1) % 4294967295


def searched(jobs, job, hs, deadline):
    """ Runs a search job to its end, restarting after runs that stalled. """
    parts = []
    h = jobs.start(job, hs)
    while True:
        part = jobs.finish(h, max(30, deadline - time.monotonic()))
        part["hashseed"] = hs
        parts.append(part)
        if part["next"] is None or len(parts) > 6:
            return parts
        left = job["cap"] - sum(p.get("wall", 0) for p in parts) - 20 * len(parts)
        if left < 5:
            return parts
        h = jobs.start(dict(job, skip=part["next"], cap=left), hs)


def replay_dir():
    path = os.path.join(HERE, "replays")
    os.makedirs(path, exist_ok=True)
    return path


def save(prop, name, data):
    path = os.path.join(replay_dir(), "%s-%s.json" % (prop, name))
    with open(path, "w") as handle:
        json.dump(data, handle, indent=1, sort_keys=True)
        handle.write("\n")
    return path


def reproduces(jobs, data):
    """ Replays in fresh processes; -> None or (kind, text). """
    prop = data["property"]
    if "hashseeds" in data:
        outs = []
        for i, hs in enumerate(data["hashseeds"]):
            job = {"mode": "replay", "profile": prop, "program": data["program"], "memo": False, "watchdog": 40,
                   "history": data.get("histories", [[], []])[i]}
            outs.append(jobs.run(job, hs))
        if outs[0]["verdicts"] != outs[1]["verdicts"]:
            diff = [(a, b) for a, b in zip(outs[0]["verdicts"], outs[1]["verdicts"]) if a != b]
            return "verdict", "the same program gives different verdicts in two processes: %s" % (diff[:2],), None
        return None
    job = {"mode": "replay", "profile": prop, "program": data["program"], "history": data.get("history", []),
           "memo": prop != "C16"}
    out = jobs.run(job, data["hashseed"])
    for kind, text in out["violations"]:
        if kind == data["kind"]:
            return kind, text, out["digest"]
    return None


def report(jobs, prop, viol, hs, seconds):
    """ Shrinks, confirms and saves a violation; -> path of the replay file or None. """
    base = {"property": prop, "seed": viol["seed"], "kind": viol["kind"], "hashseed": hs}
    cands = []
    try:
        small = jobs.run({"mode": "shrink", "profile": prop, "program": viol["program"], "kind": viol["kind"],
                          "seconds": seconds, "memo": prop != "C16"}, hs, seconds + 90)
        if small["ok"]:
            cands.append(dict(base, program=small["program"], violation=small["text"], digest=small["digest"], minimised=True))
    except Broken as err:
        print("note: shrinking failed: %s" % str(err)[-300:])
    cands.append(dict(base, program=viol["program"], violation=viol["text"], digest=viol["digest"], minimised=False))
    # A violation may need what ran before it in the same interpreter.
    if viol.get("before"):
        for n in (1, 4, 16, 64, 100000):
            if n == 1 or n / 4 < len(viol["before"]):
                cands.append(dict(cands[-1], history=viol["before"][-n:], program=viol["program"], violation=viol["text"],
                                  digest=viol["digest"], minimised=False))
    for cand in cands:
        try:
            first = reproduces(jobs, cand)
            second = reproduces(jobs, cand) if first else None
        except Broken as err:
            print("note: replaying failed: %s" % str(err)[-300:])
            continue
        if first and second and first == second:
            cand["violation"], cand["digest"] = first[1], first[2]
            return save(prop, str(viol["seed"]), cand), cand
    return None, None


def merge(parts):
    tot = {"runs": 0, "steps": 0, "stats": {}, "faults": {}, "foreign": {}, "chain": 0, "switched": 0, "stalled": [],
           "violations": [], "samples": [], "wall": 0.0, "capped": 0}
    digests, nontrivial, pairs = set(), set(), set()
    for p in parts:
        for k in ("runs", "steps", "switched"):
            tot[k] += p[k]
        for table in ("stats", "faults", "foreign"):
            for k, v in p[table].items():
                tot[table][k] = tot[table].get(k, 0) + v
        tot["stalled"] += p["stalled"]
        tot["capped"] += 1 if "capped" in p else 0
        digests.update(p["digests"])
        nontrivial.update(p["nontrivial"])
        pairs.update(p.get("pairlist", []))
        for v in p["violations"]:
            v["hashseed"] = p["hashseed"]
            tot["violations"].append(v)
        tot["samples"] += p["samples"]
        tot["wall"] += p.get("wall", 0)
    for d in digests:
        tot["chain"] ^= d
    tot["distinct"], tot["nontrivial"], tot["pairs"] = len(digests), len(nontrivial), len(pairs)
    return tot


def seed_list(spec):
    return list(range(*spec))


def decide(args, jobs):
    prop, tier, seed = args.property, args.tier, args.seed
    t0 = time.monotonic()
    runs = args.runs or kinds.RUNS[prop][tier == "thorough"]
    cap = kinds.CAP[tier == "thorough"]
    deadline = t0 + cap + 60
    base = (seed % 100000) * 10000000
    nw = args.workers
    hs_list = [hashseed(seed, w) for w in range(nw)]
    known_h = jobs.start({"mode": "known", "profile": prop}, 0) if known.listed(prop) else None
    handles = []
    import threading

    results = [None] * nw
    errors = []

    def drive(w):
        job = {"mode": "search", "profile": prop, "cap": cap, "max": 2}
        if prop == "C16":
            # Every worker runs all programs, each in its own order and under its own hash seed.
            job.update(seeds=[base, base + runs, 1], shuffle=w, logs=True, memo=False, watchdog=20)
        else:
            job.update(seeds=[base + w, base + runs, nw])
        try:
            results[w] = searched(jobs, job, hs_list[w], deadline)
        except Broken as err:
            errors.append(err)

    for w in range(nw):
        th = threading.Thread(target=drive, args=(w,))
        th.start()
        handles.append(th)
    for th in handles:
        th.join()
    if errors:
        raise errors[0]
    tot = merge([p for parts in results for p in parts])
    if prop == "C16":
        compare(prop, tot, results, hs_list, base, runs)
    else:
        for w, parts in enumerate(results):
            for p in parts:
                for v in p["violations"]:
                    v["before"] = list(range(base + w, base + runs, nw))[: v["index"]]
    if len(tot["stalled"]) > (40 if prop == "C16" else 3):
        raise Broken("%d runs did not end" % len(tot["stalled"]))
    findings = jobs.finish(known_h, 120) if known_h else []
    code = 0
    paths = []
    if tot["violations"]:
        viols = sorted(tot["violations"], key=lambda v: v.get("size", 0))
        for v in viols[:3]:
            if "hashseeds" in v:
                path, cand = report_hash(jobs, prop, v)
            else:
                path, cand = report(jobs, prop, v, v["hashseed"], 15 if tier == "quick" else 60)
            if path:
                print("seed %s, kind %s: %s" % (v["seed"], v["kind"], cand["violation"][:1500]))
                print("replay with: %s %s %s --replay %s" % (PY, os.path.join(HERE, "check.py"), prop, path))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                paths.append(path)
                code = 1
                break
        if not paths:
            # Seen on the real code, though something outside the seed (an address, the garbage collector) had a part in it.
            v = viols[0]
            keep = ("seed", "kind", "hashseed", "hashseeds", "program", "digest")
            path = save(prop, str(v["seed"]), dict(
                {k: v[k] for k in keep if k in v}, property=prop, violation=v["text"], minimised=False, reproduced=False))
            print("seed %s, kind %s, seen but not reproduced: %s" % (v["seed"], v["kind"], v["text"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            paths.append(path)
            code = 1
    for ident, what in findings:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, ident, what))
    evidence(args, tot, runs, time.monotonic() - t0, findings, paths, hs_list)
    if not code:
        print("%s held on %d simulated runs (%d steps, %d thread switches, %d faults), seed %d, digest %012x" % (
            prop, tot["runs"], tot["steps"], tot["switched"], faults_total(tot), seed, tot["chain"]))
    return code


def compare(prop, tot, results, hs_list, base, runs):
    """ C16: one program, one list of verdicts, whatever the hash seed and the order. """
    import random

    logs = []
    for w, parts in enumerate(results):
        merged = {}
        for p in parts:
            merged.update(p["logs"])
        logs.append(merged)
    tot["compared"] = 0
    for s in range(base, base + runs):
        key = str(s)
        have = [(w, l[key]) for w, l in enumerate(logs) if key in l]
        if len(have) < 2:
            continue
        tot["compared"] += len(have) - 1
        for w, log in have[1:]:
            if log != have[0][1]:
                a = have[0][0]
                orders = []
                for x in (a, w):
                    order = list(range(base, base + runs))
                    random.Random(x).shuffle(order)
                    orders.append(order[: order.index(s)])
                tot["violations"].append({
                    "seed": s, "kind": "verdict", "hashseeds": [hs_list[a], hs_list[w]], "before": orders, "size": 0,
                    "text": "%s / %s" % (have[0][1], log)})
                break


def report_hash(jobs, prop, v):
    from sim import gen

    prog = gen.generate(prop, v["seed"])
    base = {"property": prop, "seed": v["seed"], "kind": "verdict", "hashseeds": v["hashseeds"], "program": prog}
    cands = [base]
    for n in (2, 16, 100000):
        cands.append(dict(base, histories=[b[-n:] for b in v["before"]]))
    for cand in cands:
        try:
            first = reproduces(jobs, cand)
            if first and "histories" not in cand:
                cand = shrink_hash(jobs, cand)
                first = reproduces(jobs, cand)
            second = reproduces(jobs, cand) if first else None
        except Broken as err:
            print("note: replaying failed: %s" % str(err)[-300:])
            continue
        if first and first == second:
            cand = dict(cand, violation=first[1])
            return save(prop, str(v["seed"]), cand), cand
    return None, None


def shrink_hash(jobs, cand):
    """ Drops operations one by one; every attempt needs two processes. """
    t0 = time.monotonic()
    best = cand
    for key in ("final", "threads"):
        ops = best["program"][key] if key == "final" else best["program"]["threads"][0]
        i = len(ops) - 1
        while i >= 0 and time.monotonic() - t0 < 40:
            prog = json.loads(json.dumps(best["program"]))
            lst = prog[key] if key == "final" else prog["threads"][0]
            del lst[i]
            new = dict(best, program=prog)
            if reproduces(jobs, new):
                best = new
            i -= 1
    return best


def faults_total(tot):
    return sum(tot["faults"].values()) + sum(v for k, v in tot["stats"].items() if k.startswith("fault:library"))


def evidence(args, tot, runs, wall, findings, paths, hs_list):
    prop = args.property
    faults = dict(tot["faults"])
    for k, v in tot["stats"].items():
        if k.startswith("fault:library"):
            faults[k[6:]] = v
    for k, v in tot["stats"].items():
        if k == "retries" or k == "starts":
            faults["process " + ("restart" if k == "starts" else "start retried")] = v
    memo = prop != "C16"
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": (
            "One case is one simulated run: a program of operations in 1 to 3 threads (or a history of process starts), its values, "
            "schedule and faults, all generated from one seed. Distinct: the SHA-256 of its history, output and thread switches "
            "differs. Non-trivial: it had a voluntary thread switch, an injected fault, or more than two operations."),
        "samples": tot["samples"][:3],
        "distinct_executions": tot["distinct"],
        "runs_per_hour": round(tot["runs"] / max(wall, 0.001) * 3600),
        "seeds_per_hour": round((tot["runs"] / (args.workers if prop == "C16" else 1)) / max(wall, 0.001) * 3600),
        "seeds": "%d to %d" % ((args.seed % 100000) * 10000000, (args.seed % 100000) * 10000000 + runs - 1),
        "hash_seeds": hs_list,
        "simulated_steps": tot["steps"],
        "simulated_time": "%d scheduler steps; asta reads no clock and sets no timer, so steps are the only time" % tot["steps"],
        "thread_switches": tot["switched"],
        "distinct_switch_points": tot["pairs"],
        "interleaving_measure": "distinct (code location, from thread, to thread) at which control moved; distinct executions by digest",
        "faults_injected": faults,
        "history_events": {k: v for k, v in sorted(tot["stats"].items())},
        "digest_of_all_runs": "%012x" % tot["chain"],
        "runs_stalled_and_skipped": tot["stalled"],
        "workers_stopped_by_time_cap": tot["capped"],
        "not_counted_here": {"violations of other properties seen": tot["foreign"]},
        "real_code": REAL + ([] if memo else ["sympy (unmodified)"]) + (
            ["tensorflow 2.16 (in the runs that enable it)"] if prop in ("C13", "C14", "C15") else []),
        "stubs": STUBS + (["sympy.solvers.solve: real, but repeated systems are answered from a table (it is a pure function)"]
                          if memo else []),
        "known_findings": [f[0] for f in findings],
        "replays": paths,
    }
    if prop == "C16":
        cov["verdict_lists_compared"] = tot.get("compared", 0)
    data = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "CPython switches threads only between the traced lines or bytecodes of asta; code of libraries it calls runs without a switch",
            "the reference model (sim/model.py) states the documented rules; where it can't decide a system it gives no verdict",
        ],
        "wall_s": round(wall, 2), "violations": len(paths),
    }
    path = os.path.join(HERE, "evidence", "%s.json" % prop)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as handle:
        json.dump(data, handle, indent=1)
        handle.write("\n")
    os.rename(path + ".tmp", path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(kinds.KINDS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    args = ap.parse_args()
    jobs = Jobs()
    try:
        if args.replay:
            with open(args.replay) as handle:
                data = json.load(handle)
            res = reproduces(jobs, data)
            if res is None:
                print("the replay file gives no violation on this tree")
                return 0
            same = data.get("digest") in (None, res[2]) and res[1] == data.get("violation")
            print("%s: %s" % (res[0], res[1]))
            print("digest %s (%s the recorded run)" % (res[2], "same as" if same else "differs from"))
            print("VIOLATION property=%s replay=%s" % (args.property, args.replay))
            return 1
        return decide(args, jobs)
    except Broken as err:
        print("CHECK FAILED: %s" % err)
        return 2
    finally:
        jobs.close()


if __name__ == "__main__":
    sys.exit(main())
