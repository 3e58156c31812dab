"""Histories of process starts with optional libraries coming and going."""
import hashlib
import random

from . import gen
from .execu import Result, Run

STATES = [True, False, "notfound", "broken"]
HOWS = ["sub", "sub", "isinst", "isinst", "call", "ret", "mixed", "list", "dict", "tuple", "seq", "nest"]


class Multi:
    """ Runs one program after another, each in a fresh simulated process. """

    def __init__(self, world, prog):
        self.world = world
        self.prog = prog

    def execute(self):
        res = Result()
        res.pairs = set()
        res.digest = ""
        h = hashlib.sha256()
        for part in self.prog["starts"]:
            r = Run(self.world, part).execute()
            res.violations += r.violations
            res.steps += r.steps
            res.switches += r.switches
            res.pairs |= getattr(r, "pairs", set())
            res.faults += r.faults
            for k, v in r.stats.items():
                res.stats[k] = res.stats.get(k, 0) + v
            for lib in ("tf", "torch"):
                if part[lib] is not True:
                    kind = "fault:library-%s" % ("absent" if part[lib] is False else part[lib])
                    res.stats[kind] = res.stats.get(kind, 0) + 1
            res.stats["starts"] = res.stats.get("starts", 0) + 1
            h.update(r.digest.encode())
            if any(v.kind in ("import", "hang", "deadlock") for v in r.violations):
                break
        res.digest = h.hexdigest()
        return res


def gen_c13(seed):
    r = random.Random(seed)
    starts = []
    for i in range(r.choice([1, 2, 2, 3])):
        libs = {"tf": r.choice(STATES), "torch": r.choice(STATES)}
        if libs["tf"] is True and r.random() < 0.3:
            libs["tf"] = False
        g = gen.Gen(gen.PROFILES["C13"], r.randrange(1 << 40))
        g.tf, g.torch = libs["tf"] is True, libs["torch"] is True
        part = g.program()
        part.update(libs)
        missing = [n for n, k in (("tensorflow", "tf"), ("torch", "torch")) if libs[k] is not True]
        if missing:
            for ops in part["threads"]:
                for _ in range(r.choice([1, 2, 3])):
                    ops.insert(r.randrange(len(ops) + 1), {
                        "op": "probe", "lib": r.choice(missing), "how": r.choice(HOWS), "item": r.randrange(40),
                    })
        starts.append(part)
    return {"type": "multi", "starts": starts}
