#!/usr/bin/env python3
"""Runs planted changes: build, tests, demo with and without the change, and the checks.

  trybug.py [--checks own|all|none] [--tier quick] [--jobs N] [ID ...]

Each change is tried in a scratch copy of /repo which a mount namespace puts in the place of /repo.
"""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def inside(copy, command, timeout=1200):
    """ Runs a shell command with ``copy`` in the place of /repo. """
    full = ["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, command)]
    try:
        p = subprocess.run(full, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def trial(ident, checks, tier, force):
    src = os.path.join(HERE, "seeded", ident)
    meta = json.load(open(os.path.join(src, "meta.json")))
    work = tempfile.mkdtemp(prefix="trybug_")
    out = {"id": ident, "property": meta["property"]}
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(work, "demo")
        shutil.copytree(src, demo)
        for name in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, name))
        out["demo_clean"], text = inside(copy, "bash %s/demo.sh" % demo, 300)
        if out["demo_clean"]:
            out["text"] = text[-800:]
        p = subprocess.run(["git", "-C", copy, "apply", os.path.join(src, "patch.diff")], capture_output=True, text=True)
        if p.returncode:
            out["apply"] = p.stderr
            return out
        out["build"], _ = inside(copy, "bash /opt/vp/build.sh")
        out["demo_bug"], text = inside(copy, "bash %s/demo.sh" % demo, 300)
        out["demo_text"] = text[-300:]
        inside(copy, "bash /opt/vp/test.sh %s/t.json" % work)
        passed = set(json.load(open(work + "/t.json"))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        out["tests_lost"] = sorted(stable - passed)
        props = {"own": [meta["property"]], "all": ["C%02d" % i for i in range(1, 17)], "none": []}[checks]
        verif = os.path.join(work, "verif")
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        for prop in props:
            rc, text = inside(copy, "cd %s && python3 check.py %s --tier %s" % (verif, prop, tier))
            line = [x for x in text.splitlines() if x.startswith(("seed", "CHECK", "VIOLATION"))]
            out[prop] = "rc=%d %s" % (rc, " / ".join(x[:260] for x in line[:1]) if rc else "")
            if rc not in (0, 1):
                out[prop] += text[-1500:]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks", default="own", choices=["own", "all", "none"])
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("ids", nargs="*")
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
        for out in pool.map(lambda i: trial(i, args.checks, args.tier, False), ids):
            valid = out.get("demo_clean") == 0 and out.get("build") == 0 and out.get("demo_bug") and out.get("tests_lost") == []
            own = out.get(out["property"], "")
            print("%-28s %s %s %s" % (out["id"], out["property"], "valid" if valid else "INVALID", own))
            if not valid:
                print("    ", json.dumps({k: v for k, v in out.items() if not re.match(r"C\d\d", k)}))
            if args.checks == "all":
                print("     caught by:", [k for k, v in out.items() if re.match(r"C\d\d", k) and v.startswith("rc=1")],
                      "errors:", [v for k, v in out.items() if re.match(r"C\d\d", k) and not v.startswith(("rc=0", "rc=1"))])
            sys.stdout.flush()
            bad += not valid or own.startswith("rc=0")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
