"""Judges the recorded history of a run against the reference model."""
import json
import re

from . import model
from .execu import FAILED, HEADER, PASSED, Violation
from .model import UNSET


def _short(x):
    s = json.dumps(x, sort_keys=True, default=str)
    return s if len(s) < 400 else s[:400] + "..."


def arg_worlds(run, rec, end, cap=300):
    """ All possible outcomes of the argument check. """

    def one(ch):
        ctx = make_ctx(run, ch, rec.begin, end)
        return model.judge(rec.items, ctx)

    return model.explore(one, cap)


def make_ctx(run, ch, start, end):
    def dim(name):
        return ch.pick(run.reg("d", name).candidates(start, end))

    def shp(name):
        return ch.pick(run.reg("sh", name).candidates(start, end))

    return model.Ctx(dim, shp, run.all_elems, run.other_types)


def ret_worlds(run, rec, bases, cap=300):
    out = []
    for base in bases:
        def one(ch, base=base):
            ctx = make_ctx(run, ch, rec.body_end, rec.end)
            return model.judge([("return", rec.ret_ann, rec.ret_val)], ctx, base)

        res = model.explore(one, cap)
        if res is None:
            return None
        out += res
    return out


def describe(rec):
    return "call %d of %s in thread %d" % (rec.id, rec.qual, rec.tid)


def judge_history(run):
    try:
        judge_all(run)
    except Exception:
        # The model knows no values that should have been refused.
        if not run.viol:
            raise


def judge_all(run):
    add = run.viol.append
    for rec in run.calls:
        judge_call(run, rec, add)
    for ob in run.obs:
        if ob[0] == "read":
            _, kind, name, got, start, end = ob
            cands = run.reg(kind, name).candidates(start, end)
            if got not in cands:
                add(Violation("read", "reading %s gave %r, possible: %r" % (name, got, cands)))
        elif ob[0] == "abort":
            _, fired, err, op = ob
            judge_abort(run, fired, err, op, add)
        elif ob[0] == "isinst":
            judge_isinst(run, ob, add)
        elif ob[0] == "agree":
            _, tree, val, verdict, n = ob
            rec = run.calls[n]
            if not rec.aborted:
                acc = rec.execs > 0
                if acc != bool(verdict):
                    add(Violation("agree", "isinstance says %s, the decorated call %s for %s and %s" % (
                        bool(verdict), "accepts" if acc else "rejects", _short(tree), _short(val))))
        elif ob[0] == "eq":
            judge_eq(run, ob, add)
    judge_hashes(run, add)
    if run.prog.get("reports"):
        judge_reports(run, add)


INJECTED = {
    "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
    "SystemExit": SystemExit, "BrokenPipeError": BrokenPipeError, "ENOSPC": OSError,
    "ClosedStream": ValueError, "EINTR": InterruptedError, "RecursionError": RecursionError,
}


def judge_abort(run, fired, err, op, add):
    if err is None or type(err) is not INJECTED[fired] or "injected" not in str(err):
        add(Violation("abort-lost", "%s injected into %s came out as %r" % (fired, op["op"], err)))


def judge_isinst(run, ob, add):
    _, tree, val, ok, res = ob
    if tree.get("named"):
        return
    if not ok:
        add(Violation("isinst-exc", "isinstance raised %r for %s and %s" % (res, _short(tree), _short(val))))
        return
    if tree["k"] != "arr":
        return
    ctx = model.Ctx(lambda n: UNSET, lambda n: UNSET)
    status, _, info, _ = model.judge([("x", tree, val)], ctx)
    if info.get("why") == "unassigned" or status == "unk":
        run.count("unknown")
        return
    run.count("isinst_" + status)
    if bool(res) != (status == "acc"):
        add(Violation("isinst", "isinstance gives %s for %s and %s" % (res, _short(tree), _short(val))))


def judge_call(run, rec, add):
    for kind, text in rec.bad:
        add(Violation(kind, describe(rec) + ": " + text, rec.id))
    if rec.execs > 1:
        add(Violation("body-count", "%s: body ran %d times" % (describe(rec), rec.execs), rec.id))
    if rec.aborted:
        run.count("calls_aborted")
        return
    arg_end = rec.body_start if rec.body_start is not None else rec.end
    worlds = arg_worlds(run, rec, arg_end)
    if worlds is None:
        run.count("unknown")
        statuses = {"unk"}
    else:
        statuses = {w[0] for w in worlds}
    rec.arg_statuses = statuses
    rec.arg_worlds = worlds
    rec.ret_statuses = {"acc"}
    ambiguous = "unk" in statuses
    if rec.limbo and (not run.raise_mode or statuses != {"acc"}):
        return
    if run.raise_mode:
        judge_raise(run, rec, statuses, worlds, ambiguous, add)
    else:
        judge_soft(run, rec, statuses, worlds, ambiguous, add)


def judge_raise(run, rec, statuses, worlds, ambiguous, add):
    if rec.execs == 0:
        if rec.outcome == "ret":
            add(Violation("body-count", "%s returned %r without running the body" % (describe(rec), rec.ret), rec.id))
            return
        run.count("calls_rejected")
        if ambiguous:
            if not isinstance(rec.exc, TypeError):
                add(Violation("crash", "%s raised %r" % (describe(rec), rec.exc), rec.id))
            return
        if "rej" not in statuses:
            kind = "refused"
            add(Violation(kind, "%s: conforming arguments raised %r; %s" % (
                describe(rec), rec.exc, _short(rec.items)), rec.id))
            return
        if not isinstance(rec.exc, TypeError):
            add(Violation("wrong-exc", "%s: mismatch raised %r" % (describe(rec), rec.exc), rec.id))
            return
        check_message(run, rec, worlds, statuses, str(rec.exc), add)
        return
    run.count("calls_run")
    if not ambiguous and "acc" not in statuses:
        kind = "missed-arg"
        reasons = {w[2].get("why") for w in worlds}
        if reasons == {"unassigned"}:
            kind = "missed-unassigned"
        add(Violation(kind, "%s: body started although %s; %s" % (
            describe(rec), worlds[0][2], _short(rec.items)), rec.id))
        return
    if rec.raised is not None:
        if rec.outcome != "exc" or rec.exc is not rec.raised:
            add(Violation("exc-changed", "%s: body raised %r, caller got %r" % (
                describe(rec), rec.raised, rec.exc or rec.ret), rec.id))
        return
    if rec.ret_ann is None:
        rstat = {"acc"}
    elif worlds is None:
        rstat = {"unk"}
    else:
        bases = []
        for w in worlds:
            if w[0] == "unk":
                bases = None
                break
            if w[0] == "acc" and w[1] not in bases:
                bases.append(w[1])
        if bases is None:
            rstat = {"unk"}
        else:
            rw = ret_worlds(run, rec, bases)
            rec.ret_worlds = rw
            rstat = {"unk"} if rw is None else {w[0] for w in rw}
    rec.ret_statuses = rstat
    if rec.outcome == "ret":
        if rec.ret is not rec.ret_obj:
            add(Violation("identity", "%s: result is not the object the body returned" % describe(rec), rec.id))
        if "unk" in rstat:
            run.count("unknown")
            return
        if "acc" not in rstat:
            if rec.limbo:
                return
            kind = "missed-ret"
            if {w[2].get("why") for w in rec.ret_worlds} == {"unassigned"}:
                kind = "missed-unassigned"
            add(Violation(kind, "%s: result reached the caller although %s; %s %s" % (
                describe(rec), rec.ret_worlds[0][2], _short(rec.ret_ann), _short(rec.ret_val)), rec.id))
        else:
            run.count("calls_accepted")
        return
    run.count("calls_ret_rejected")
    if "unk" in rstat:
        if not isinstance(rec.exc, TypeError):
            add(Violation("crash", "%s raised %r" % (describe(rec), rec.exc), rec.id))
        return
    if "rej" not in rstat:
        add(Violation("refused", "%s: conforming result raised %r; %s %s" % (
            describe(rec), rec.exc, _short(rec.ret_ann), _short(rec.ret_val)), rec.id))
    elif not isinstance(rec.exc, TypeError):
        add(Violation("wrong-exc", "%s: mismatching result raised %r" % (describe(rec), rec.exc), rec.id))
    else:
        check_message(run, rec, rec.ret_worlds, rstat, str(rec.exc), add)


def check_message(run, rec, worlds, statuses, text, add):
    """ Rejections for unassigned names say which name. """
    if statuses != {"rej"}:
        return
    infos = [w[2] for w in worlds]
    if any(i.get("more") for i in infos):
        return
    if all(i.get("why") == "unassigned" for i in infos):
        names = set()
        for i in infos:
            names.update(i["name"] if isinstance(i["name"], list) else [i["name"]])
        if in_union(rec):
            return
        run.count("unassigned_named")
        if not any(n in text for n in names):
            add(Violation("unassigned-name", "%s: failure %r names none of %s" % (describe(rec), text, sorted(names)), rec.id))


def in_union(rec):
    s = json.dumps([t for _, t, _ in rec.items] + [rec.ret_ann])
    return '"opt"' in s or '"union"' in s


def own_writes(run, rec):
    out = []
    for sim in run.aux:
        for clock, tid, owner, text in sim.writes:
            if owner == ("call", rec.id):
                out.append((clock, text))
    return out


def malformed(rec):
    """ May the annotation have two '...' in a row once its shapes have values? """

    def arrays(tree):
        if tree["k"] == "arr":
            yield tree["parts"] or []
            return
        sub = tree.get("of")
        for t in (sub if isinstance(sub, list) else sub.values() if isinstance(sub, dict) and "k" not in sub else [sub] if sub else []):
            yield from arrays(t)

    trees = [t for _, t, _ in rec.items] + ([rec.ret_ann] if rec.ret_ann is not None else [])
    for t in trees:
        for parts in arrays(t):
            if parts.count("...") > 1 and any(isinstance(p, dict) and "sh" in p for p in parts):
                return True
    return False


def judge_soft(run, rec, statuses, worlds, ambiguous, add):
    if rec.outcome == "exc" and rec.exc is not rec.raised and isinstance(rec.exc, TypeError):
        if "repeated '...'" in str(rec.exc) and malformed(rec):
            run.count("unknown")
            return
    # The body always runs once and the caller gets what it returned or raised.
    if rec.execs == 0:
        add(Violation("soft-raise", "%s: body did not run, caller got %r; %s" % (
            describe(rec), rec.exc if rec.outcome == "exc" else rec.ret, _short(rec.items)), rec.id))
        return
    if rec.raised is not None:
        if rec.outcome != "exc" or rec.exc is not rec.raised:
            add(Violation("soft-raise", "%s: body raised %r, caller got %r" % (
                describe(rec), rec.raised, rec.exc or rec.ret), rec.id))
            return
    elif rec.outcome == "exc":
        add(Violation("soft-raise", "%s: call raised %r; %s" % (describe(rec), rec.exc, _short(rec.items)), rec.id))
        return
    elif rec.ret is not rec.ret_obj:
        add(Violation("identity", "%s: result is not the object the body returned" % describe(rec), rec.id))
    run.count("calls_run")
    total = set(statuses)
    if rec.raised is None and rec.ret_ann is not None and not ambiguous:
        # Mismatch of the arguments leaves the joint system undefined: only the
        # result on its own can then add a mismatch.
        bases = []
        for w in worlds:
            b = w[1] if w[0] == "acc" else []
            if b not in bases:
                bases.append(b)
        rw = ret_worlds(run, rec, bases)
        rec.ret_worlds = rw
        rs = {"unk"} if rw is None else {w[0] for w in rw}
        rec.ret_statuses = rs
        if statuses == {"rej"}:
            total = {"rej"}
        elif statuses == {"acc"}:
            total = rs
        else:
            total = {"acc", "rej"} if "unk" not in rs else {"unk"}
    text = "".join(t for _, t in own_writes(run, rec))
    lines = [l for l in text.split("\n") if FAILED in l]
    if total == {"rej"}:
        run.count("soft_mismatch")
        if not lines:
            add(Violation("soft-missing", "%s: mismatch (%s) was not reported" % (
                describe(rec), worlds[0][2] or "result"), rec.id))
        else:
            rej = [w[2] for w in worlds]
            if statuses == {"rej"} and all(i.get("why") == "unassigned" and not i.get("more") for i in rej):
                names = set()
                for i in rej:
                    names.update(i["name"])
                if not in_union(rec) and not any(n in "\n".join(lines) for n in names):
                    add(Violation("unassigned-name", "%s: report names none of %s" % (describe(rec), sorted(names)), rec.id))
    elif total == {"acc"}:
        run.count("soft_match")
        if lines:
            add(Violation("soft-spurious", "%s: everything matched but it printed %r" % (describe(rec), lines[0]), rec.id))


# -- reports -----------------------------------------------------------------
ANSI = re.compile(r"\033\[\d+m")


def judge_reports(run, add):
    for rec in run.calls:
        if rec.aborted or "unk" in getattr(rec, "arg_statuses", {"unk"}):
            continue
        text = ANSI.sub("", "".join(t for _, t in own_writes(run, rec)))
        lines = [l for l in text.split("\n") if l.strip()]
        judge_report(run, rec, lines, add)


def judge_report(run, rec, lines, add):
    heads = []
    passes = []
    fails = []
    for i, line in enumerate(lines):
        if PASSED in line:
            passes.append(line)
        elif FAILED in line:
            fails.append(i)
        else:
            m = HEADER.search(line)
            if m:
                heads.append((i, m.group(1)))
    want = rec.qual
    for _, name in heads:
        if name != want:
            add(Violation("header", "%s: header names %s" % (describe(rec), name), rec.id))
            return
    where = describe(rec)
    failed_call = rec.outcome == "exc" and rec.exc is not rec.raised
    if run.print_mode:
        run.count("reports_print")
        if len(heads) != 1 or heads[0][0] != 0:
            add(Violation("header", "%s: printed %d headers" % (where, len(heads)), rec.id))
            return
        if rec.arg_statuses == {"acc"}:
            nargs = {len(w[3]) for w in rec.arg_worlds}
            nret = {0}
            ended = rec.outcome == "ret" and rec.ret_ann is not None
            if ended and rec.ret_statuses == {"acc"}:
                nret = {len(w[3]) for w in rec.ret_worlds}
            elif ended:
                return
            if failed_call:
                lo, hi = min(nargs), None
            else:
                lo = min(nargs) + min(nret)
                hi = max(nargs) + max(nret)
            if len(passes) < lo or (hi is not None and len(passes) > hi):
                add(Violation("passline", "%s: %d pass lines, expected %s" % (where, len(passes), (lo, hi)), rec.id))
                return
            # Each names the argument that was accepted.
            blamed = {}
            for line in passes:
                hit = re.search(r"Argument '(\w+)", ANSI.sub("", line))
                key = hit.group(1) if hit else None
                blamed[key] = blamed.get(key, 0) + 1
            parts = [(n, rec.arg_worlds) for n, _, _ in rec.items]
            if hi is not None and ended:
                parts.append(("return", rec.ret_worlds))
            for name, worlds in parts:
                counts = {w[2].get("per", {}).get(name, 0) for w in worlds}
                if not min(counts) <= blamed.get(name, 0) <= max(counts):
                    add(Violation("passline", "%s: %d pass lines for %s, expected %s: %r" % (
                        where, blamed.get(name, 0), name, sorted(counts), passes), rec.id))
                    return
            run.count("passes_named")
        # A single array which was refused is not reported as accepted as well.
        refused = {n for n, ann, _ in rec.items if ann["k"] == "arr"}
        for w in rec.arg_worlds or ():
            whys = w[2].get("whys", {}) if w[0] == "rej" else {}
            refused &= {n for n, why in whys.items() if why in ("shape", "dtype", "not an array", "unassigned")}
        if refused:
            run.count("refused_named")
        for line in passes:
            hit = re.search(r"Argument '(\w+)", line)
            if hit and hit.group(1) in refused:
                add(Violation("passline", "%s: pass line for %s, which was refused: %r" % (where, hit.group(1), line), rec.id))
                return
    else:
        if passes:
            add(Violation("silent", "%s: printed %r" % (where, passes[0]), rec.id))
        if run.raise_mode:
            run.count("reports_quiet")
            if failed_call:
                if len(heads) != 1 or len(lines) != 1:
                    add(Violation("header", "%s failed after printing %d headers: %r" % (where, len(heads), lines), rec.id))
            elif lines:
                add(Violation("silent", "%s did not fail but printed %r" % (where, lines[0]), rec.id))
        else:
            run.count("reports_quiet")
            for i in fails:
                if i == 0 or not HEADER.search(lines[i - 1]):
                    add(Violation("header", "%s: failure without header before it: %r" % (where, lines), rec.id))
                    return
            if not fails and lines:
                add(Violation("silent", "%s did not fail but printed %r" % (where, lines[0]), rec.id))
    # A failure about a single value names the argument.
    msgs = []
    if failed_call and isinstance(rec.exc, TypeError):
        msgs.append(ANSI.sub("", str(rec.exc)))
    msgs += [lines[i] for i in fails]
    if rec.body_start is None or run.raise_mode is False:
        bad = set()
        sure = rec.arg_statuses == {"rej"}
        for w in rec.arg_worlds or ():
            if w[0] == "rej":
                bad.add(w[2].get("param"))
                bad.update(w[2].get("more", ()))
                if w[2].get("why") in ("unassigned", "joint", "non-integer", "several") or w[2].get("more"):
                    sure = False
        if sure and run.raise_mode and len(bad) == 1 and None not in bad and msgs:
            run.count("argname")
            name = next(iter(bad))
            # The first name it mentions is that of the argument.
            if not re.match(r"[^']*'%s[][.\w<>]*'" % re.escape(name), msgs[0]):
                add(Violation("argname", "%s: parameter %s failed but the message is %r" % (where, name, msgs[0]), rec.id))
    # No message may blame a value that certainly matched.
    names = {n for n, _, _ in rec.items}
    if rec.arg_statuses == {"rej"} and not any("unk" in w[2] or w[2].get("param") is None for w in rec.arg_worlds):
        for w in rec.arg_worlds:
            names -= {w[2]["param"], *w[2].get("more", ())}
        for m in msgs:
            hit = re.search(r"(?:argument|callable) '(\w+)", m, re.I)
            if hit and hit.group(1) in names:
                add(Violation("argname", "%s: message blames %s, which matched: %r" % (where, hit.group(1), m), rec.id))
        run.count("blamed_right")
    if rec.arg_statuses == {"acc"} and rec.body_start is not None:
        for m in msgs:
            hit = re.search(r"[Aa]rgument '(\w+)", m)
            if hit and hit.group(1) in names:
                add(Violation("argname", "%s: message blames %s, which matched: %r" % (where, hit.group(1), m), rec.id))


# -- annotations as values -----------------------------------------------------
def norm_dtype(tree):
    dt = tree["dt"]
    if dt is None:
        return None
    form, name = dt.split(":", 1)
    if tree["be"] == "np":
        if form == "py":
            return ("kind", name) if name in model.NP_KIND else ("dt", model.NP_PY[name])
        return ("dt", name)
    if form == "py":
        return ("dt", (model.TF_PY if tree["be"] == "tf" else model.TORCH_PY)[name])
    return ("dt", name)


def same_annotation(a, b):
    """ True / False / None (unknown): same class, dtype and shape? """
    if a["k"] != "arr" or b["k"] != "arr":
        return None
    if a["be"] != b["be"]:
        return False
    if norm_dtype(a) != norm_dtype(b):
        return False
    pa, pb = a["parts"], b["parts"]
    if (pa is None) != (pb is None):
        return False
    if pa is None:
        return True
    if len(pa) != len(pb):
        return False if not any(isinstance(p, dict) and "sh" in p for p in pa + pb) else None
    unsure = False
    for x, y in zip(pa, pb):
        if x == y:
            continue
        ex = isinstance(x, dict) and "sh" not in x
        ey = isinstance(y, dict) and "sh" not in y
        if ex and ey:
            px = model.eval_expr(model.tag(x), lambda n: 0)
            py = model.eval_expr(model.tag(y), lambda n: 0)
            if px == py:
                unsure = True
                continue
            return False
        return False
    if a.get("layout") != b.get("layout") and (a.get("named") or b.get("named")):
        return None
    return None if unsure else True


def judge_eq(run, ob, add):
    _, ta, tb, ok, res = ob
    if not ok:
        add(Violation("ann-eq", "comparing raised %r" % (res,)))
        return
    same = same_annotation(ta, tb)
    if same is None:
        return
    run.count("eq_same" if same else "eq_diff")
    ab, ba, ne, ha, hb = res
    if bool(ab) != same or bool(ba) != same or bool(ne) == same:
        add(Violation("ann-eq", "== gives %s/%s, != gives %s for %s and %s" % (ab, ba, ne, _short(ta), _short(tb))))
    elif same and ha != hb:
        add(Violation("ann-hash", "equal annotations have different hashes: %s and %s" % (_short(ta), _short(tb))))


def judge_hashes(run, add):
    seen = []
    for ob in run.obs:
        if ob[0] != "hash":
            continue
        _, tree, ok, res, ann = ob
        if not ok:
            add(Violation("ann-hash", "hashing raised %r" % (res,)))
            continue
        if tree["k"] != "arr":
            continue
        for other, h in seen:
            if same_annotation(tree, other) and h != res:
                add(Violation("ann-hash", "equal annotations have different hashes: %s and %s" % (_short(tree), _short(other))))
        seen.append((tree, res))
