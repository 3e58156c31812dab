"""Known findings: defects of the code under test which were recorded, not repaired.

One probe per listed finding.  Each runs one specific input against the real
code and says whether it still fails.
"""
import contextlib
import io
import os

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")


def listed(profile):
    """ -> [(id, what)] of the findings listed for a property. """
    out = []
    with open(FILE) as handle:
        for line in handle:
            if line.startswith("finding: property=%s " % profile):
                _, _, ident, what = line.strip().split(" ", 3)
                out.append((ident[3:], what))
    return out


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def backtracking(asta):
    import numpy as np

    X = __import__("asta.symbols", fromlist=["X"]).X
    return not isinstance(np.zeros((3, 2, 2)), asta.Array[..., X, ..., X, ...])


def strings(asta):
    import numpy as np

    def f(x):
        return 1

    f.__annotations__ = {"x": "Array[2]"}
    f.__globals__["Array"] = asta.Array
    g = asta.typechecked(f)
    try:
        quiet(lambda: g(np.zeros(3)))
    except TypeError:
        return False
    return True


def coroutine(asta):
    import asyncio

    import numpy as np

    async def f(x):
        return x

    f.__annotations__ = {"x": asta.Array[2], "return": asta.Array[2]}
    g = asta.typechecked(f)

    def call():
        res = g(np.zeros(2))
        return asyncio.iscoroutine(res) and asyncio.run(res)

    try:
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            quiet(call)
    except TypeError:
        return True
    return False


PROBES = {"C14-backtracking": backtracking, "C04-strings": strings, "C05-coroutine": coroutine}


def probe(world, profile):
    """ The listed findings that still fail. """
    out = []
    for ident, what in listed(profile):
        world.write_config(None)
        err, _ = world.start()
        if err is None and PROBES[ident](world.asta):
            out.append([ident, what])
    return out
