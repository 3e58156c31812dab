"""One worker process: runs a share of the seeds of one check.

Reads a job (JSON) from the file named on the command line and writes the
result beside it.  PYTHONHASHSEED is chosen by whoever starts the process.
"""
import hashlib
import json
import os
import random
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import execu, gen, kinds, sched  # noqa: E402
from sim.sched import HarnessError, Instrument, patch_locks  # noqa: E402
from sim.world import REPO, World  # noqa: E402


def make_world(memo=True):
    # Imported first: their locks and code are not part of the simulation.
    import numpy  # noqa: F401
    import oxentiel  # noqa: F401
    import sympy  # noqa: F401
    import toml  # noqa: F401

    inst = Instrument(os.path.join(REPO, "asta"))
    patch_locks(inst)
    world = World(inst)
    world.memo_solve(memo)
    return world


def run_one(world, prog):
    runner = gen.runner(world, prog)
    world.clock.reset()
    try:
        return runner.execute()
    except Exception as err:  # pylint: disable=broad-except
        # asta raised where no program may make it raise.
        where = from_asta(err)
        if where is None:
            raise
        res = execu.Result()
        res.violations = list(getattr(runner, "viol", [])) + [
            execu.Violation("crash", "%r came from %s where no operation raises" % (err, where))]
        res.digest = hashlib.sha256(repr(err).encode()).hexdigest()
        return res


def from_asta(err):
    """ The innermost place in asta which an unforeseen exception passed, if any. """
    if "watchdog" in str(err):
        return None
    root = os.path.join(REPO, "asta") + os.sep
    seen = set()
    while err is not None and id(err) not in seen:
        seen.add(id(err))
        places = [f.filename + ":" + f.name for f in traceback.extract_tb(err.__traceback__) if f.filename.startswith(root)]
        if places:
            return places[-1]
        hits = re.findall(re.escape(root) + r'[\w/]+\.py", line \d+, in \w+', str(err)) if isinstance(err, HarnessError) else []
        if hits:
            return hits[-1]
        err = err.__cause__ or err.__context__
    return None


def accepted(profile, res):
    return [v for v in res.violations if v.kind in kinds.KINDS[profile]]


def has_faults(prog):
    s = json.dumps(prog)
    return '"fault"' in s or '"raise"' in s


def strip_faults(node):
    """ The program without injected faults and exceptions from bodies. """
    if isinstance(node, dict):
        return {k: strip_faults(v) for k, v in node.items() if k not in ("fault", "raise")}
    if isinstance(node, list):
        return [strip_faults(v) for v in node]
    return node


def traceable_to_abort(world, prog, res):
    """ C06: does the violation need the aborts?  Without them it is another property's. """
    if any(v.kind == "abort-lost" for v in res.violations):
        return True
    if not has_faults(prog):
        return False
    bare = strip_faults(prog)
    for sched in [prog["sched"]] + [dict(policy="random", seed=i, p=0.1) for i in range(3)]:
        r = run_one(world, json.loads(json.dumps(dict(bare, sched=sched))))
        if accepted("C06", r):
            return False
    return True


def search(world, job):
    profile = job["profile"]
    out = {
        "runs": 0, "steps": 0, "stats": {}, "faults": {}, "violations": [], "foreign": {}, "digests": [], "chain": 0,
        "pairs": 0, "switched": 0, "nontrivial": [], "logs": {}, "stalled": [], "next": None, "samples": [],
    }
    pairs = set()
    seeds = job["seeds"]
    seeds = list(range(*seeds)) if isinstance(seeds, list) and len(seeds) == 3 and not job.get("explicit") else seeds
    if job.get("shuffle") is not None:
        random.Random(job["shuffle"]).shuffle(seeds)
    t0 = time.monotonic()
    for i, seed in enumerate(seeds):
        if i < job.get("skip", 0):
            continue
        if time.monotonic() - t0 > job["cap"]:
            out["capped"] = i
            break
        prog = gen.generate(profile, seed)
        try:
            res = run_one(world, prog)
        except HarnessError as err:
            if "watchdog" in str(err):
                out["stalled"].append(seed)
                out["next"] = i + 1
                break
            raise
        out["runs"] += 1
        out["steps"] += res.steps
        for k, v in res.stats.items():
            out["stats"][k] = out["stats"].get(k, 0) + v
        for f in res.faults:
            out["faults"][f[2]] = out["faults"].get(f[2], 0) + 1
        pairs |= getattr(res, "pairs", set()) or set()
        v = sum(1 for s in res.switches if s[0] == "v")
        out["switched"] += v
        short = int(res.digest[:12] or "0", 16)
        out["chain"] ^= short
        out["digests"].append(short)
        if v or res.faults or sum(n for k, n in res.stats.items() if k.startswith("op_") or k == "starts") > 2:
            out["nontrivial"].append(short)
        if len(out["samples"]) < 2 and (v or res.faults):
            out["samples"].append({"seed": seed, "steps": res.steps, "switches": v, "faults": [list(map(str, f)) for f in res.faults],
                                   "digest": res.digest[:16], "program": prog if len(json.dumps(prog)) < 3500 else "(regenerate with gen.generate(%r, %d))" % (profile, seed)})
        if job.get("logs"):
            out["logs"][str(seed)] = getattr(res, "verdicts", [])
        mine = accepted(profile, res)
        for x in res.violations:
            if x.kind not in kinds.KINDS[profile]:
                out["foreign"][x.kind] = out["foreign"].get(x.kind, 0) + 1
        if mine and profile == "C06" and not traceable_to_abort(world, json.loads(json.dumps(prog)), res):
            out["foreign"]["needs no abort"] = out["foreign"].get("needs no abort", 0) + 1
            mine = []
        if mine:
            out["violations"].append({
                "seed": seed, "kind": mine[0].kind, "text": mine[0].text, "program": prog, "digest": res.digest,
                "index": i, "size": len(json.dumps(prog)),
            })
            if len(out["violations"]) >= job.get("max", 2):
                break
        elif time.monotonic() - t0 > job["cap"] / 3 and out["foreign"] and sum(out["foreign"].values()) > 2000:
            break
    out["pairs"] = len(pairs)
    out["pairlist"] = sorted(hash_pair(p) for p in pairs)
    out["wall"] = time.monotonic() - t0
    return out


def hash_pair(p):
    import zlib

    return zlib.crc32(repr(p).encode())


def replay(world, job):
    """ Runs the program of a replay file (after its history, if it has one). """
    for seed in job.get("history", []):
        run_one(world, gen.generate(job["profile"], seed))
    res = run_one(world, json.loads(json.dumps(job["program"])))
    return {
        "digest": res.digest, "verdicts": getattr(res, "verdicts", None),
        "violations": [[v.kind, v.text] for v in accepted(job["profile"], res)],
        "foreign": [[v.kind, v.text] for v in res.violations],
        "switches": res.switches, "steps": res.steps,
    }


def main():
    with open(sys.argv[1]) as handle:
        job = json.load(handle)
    out = sys.argv[1] + ".out"
    sched.WATCHDOG = job.get("watchdog", sched.WATCHDOG)
    world = make_world(job.get("memo", True))
    try:
        if job["mode"] == "search":
            res = search(world, job)
        elif job["mode"] == "replay":
            res = replay(world, job)
        elif job["mode"] == "shrink":
            from sim import shrink

            res = shrink.shrink(world, job)
        elif job["mode"] == "known":
            from sim import known

            res = known.probe(world, job["profile"])
        else:
            raise ValueError(job["mode"])
    finally:
        world.close()
    with open(out + ".tmp", "w") as handle:
        json.dump(res, handle)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)  # stalled threads must not keep the process alive


if __name__ == "__main__":
    main()
