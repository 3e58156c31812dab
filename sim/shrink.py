"""Reduces a violating program and schedule, keeping the kind of violation."""
import copy
import json
import time

from .sched import HarnessError
from .worker import accepted, run_one, traceable_to_abort


def size(prog):
    return len(json.dumps(prog))


def lists_of_ops(node, path=()):
    """ Paths of all lists of operations, starts or threads. """
    if isinstance(node, dict):
        for k, v in node.items():
            if isinstance(v, list) and v and (
                    k in ("ops", "setup", "final", "starts", "threads") or (k == "threads")):
                yield path + (k,)
            yield from lists_of_ops(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, list) and path and path[-1] == "threads":
                yield path + (i,)
            yield from lists_of_ops(v, path + (i,))


def get(node, path):
    for p in path:
        node = node[p]
    return node


def keys_to_drop(node, path=()):
    """ Paths of optional parts: faults, exceptions of bodies, nested operations. """
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ("fault", "raise", "body", "cut", "bom", "default", "kind", "when", "form", "group", "style", "extras", "via") and path:
                yield path + (k,)
            yield from keys_to_drop(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from keys_to_drop(v, path + (i,))


def scheds(node):
    if isinstance(node, dict):
        for k, v in node.items():
            if k == "sched":
                yield node
            else:
                yield from scheds(v)
    elif isinstance(node, list):
        for v in node:
            yield from scheds(v)


def shrink(world, job):
    profile = job["profile"]
    deadline = time.monotonic() + job.get("seconds", 20)
    best = job["program"]
    tried = [0]
    state = {}

    def fails(prog):
        tried[0] += 1
        p = json.loads(json.dumps(prog))
        try:
            res = run_one(world, p)
        except HarnessError as err:
            if "watchdog" in str(err):
                raise
            return False
        except (KeyError, IndexError, TypeError, ValueError, AttributeError):
            return False
        mine = [v for v in accepted(profile, res) if v.kind == job["kind"]]
        if not mine:
            return False
        if profile == "C06" and not traceable_to_abort(world, json.loads(json.dumps(prog)), res):
            return False
        state["res"] = res
        state["text"] = mine[0].text
        return True

    def left():
        return time.monotonic() < deadline

    if not fails(best):
        return {"ok": False, "tried": tried[0]}
    try:
        changed = True
        while changed and left():
            changed = False
            # Whole operations, threads and process starts.
            for path in sorted(lists_of_ops(best), key=len):
                if not left():
                    break
                try:
                    lst = get(best, path)
                except (KeyError, IndexError, TypeError):
                    continue
                n = len(lst)
                chunk = max(1, n // 2)
                while chunk >= 1 and left():
                    i = 0
                    while i < len(get(best, path)) and left():
                        cand = copy.deepcopy(best)
                        target = get(cand, path)
                        keep_one = path[-1] in ("threads", "starts")
                        if keep_one and len(target) <= chunk:
                            break
                        del target[i:i + chunk]
                        if fails(cand):
                            best = cand
                            changed = True
                        else:
                            i += chunk
                    chunk //= 2
            for path in list(keys_to_drop(best)):
                if not left():
                    break
                cand = copy.deepcopy(best)
                try:
                    del get(cand, path[:-1])[path[-1]]
                except (KeyError, IndexError, TypeError):
                    continue
                if fails(cand):
                    best = cand
                    changed = True
        for flag in ("granularity",):
            if best.get(flag) == "opcode" and left():
                cand = dict(copy.deepcopy(best), granularity="line")
                if fails(cand):
                    best = cand
        # The simplest schedule that still fails.
        holders = list(scheds(best))
        if len(holders) == 1 and left():
            for spec in ([{"policy": "explicit", "switches": []}] +
                         [{"policy": "serial", "seed": s, "p": 0.5} for s in range(4)]):
                cand = copy.deepcopy(best)
                next(scheds(cand))["sched"] = spec
                if fails(cand):
                    best = cand
                    break
            fails(best)
            cand = copy.deepcopy(best)
            next(scheds(cand))["sched"] = {
                "policy": "explicit", "switches": [list(s) for s in state["res"].switches],
            }
            if left() and fails(cand):
                best = cand
                # Remove switches one chunk after another.
                sw = list(next(scheds(best))["sched"]["switches"])
                chunk = max(1, len(sw) // 2)
                while chunk >= 1 and left():
                    i = 0
                    while i < len(sw) and left():
                        cut = sw[:i] + sw[i + chunk:]
                        cand = copy.deepcopy(best)
                        next(scheds(cand))["sched"]["switches"] = cut
                        if fails(cand):
                            best, sw = cand, cut
                        else:
                            i += chunk
                    chunk //= 2
    except HarnessError:
        pass
    if not fails(best):
        return {"ok": False, "tried": tried[0]}
    return {
        "ok": True, "program": best, "text": state["text"], "digest": state["res"].digest, "tried": tried[0],
        "steps": state["res"].steps, "switches": sum(1 for s in state["res"].switches if s[0] == "v"),
    }
