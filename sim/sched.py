"""Deterministic scheduler: real threads, one running at a time.

Every traced line (or bytecode) of the package under test is a step.  At each
step the scheduler decides, from one seeded generator or from an explicit list,
which thread runs next.  Faults are raised at chosen steps.  Nothing here draws
from a clock or from any other source of randomness.
"""
import _thread
import ast
import dis
import importlib._bootstrap_external as _be
import os
import random
import sys
import types

MON = sys.monitoring
TOOL = 4
WATCHDOG = 60.0  # real seconds for one phase of a run; only guards the harness
EV = MON.events

_real_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident


class SimStop(BaseException):
    """Raised inside simulated threads to end a run early."""


class HarnessError(Exception):
    """Something is wrong with the simulation itself: never a verdict."""


class SimThread:
    __slots__ = (
        "tid", "gate", "state", "waiting", "ops_left", "op_steps", "fault", "fired",
        "write_count", "wfault", "stack", "prio", "quiet", "ident", "error", "ctx", "nofault",
        "ready", "done_ops",
    )

    def __init__(self, tid):
        self.tid = tid
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "ready"
        self.waiting = None
        self.op_steps = 0
        self.fault = None  # (step, exception class name)
        self.wfault = None  # (write number, exception class name)
        self.fired = None
        self.write_count = 0
        self.stack = []
        self.prio = 0
        self.quiet = 0
        self.nofault = 0
        self.ident = None
        self.error = None
        self.ctx = None
        self.ready = None  # what it waits for
        self.done_ops = 0  # operations of its program that ended


class Instrument:
    """Instruments all code of the package under test as it is imported."""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.tests = self.root + "tests" + os.sep
        self.codes = []  # code objects of the functions in the package
        self.names = {}
        self.cache = {}
        self.mode = None
        self.callback = None
        self.by_file = {}
        self.cleanup = {}  # lines where the cleanup of a ``try`` starts
        self.shields = {}
        orig = _be.SourceFileLoader.get_code
        inst = self

        def get_code(loader, fullname):
            path = os.path.realpath(loader.get_filename(fullname))
            if not inst.covers(path):
                return orig(loader, fullname)
            if path not in inst.cache:
                data = loader.get_data(path)
                code = loader.source_to_code(data, path)
                inst.cleanup[code.co_filename] = {
                    line for node in ast.walk(ast.parse(data)) if isinstance(node, ast.Try) and node.finalbody
                    for line in (node.lineno, node.finalbody[0].lineno)
                }
                inst.cache[path] = code
                inst._add(code, top=True)
            return inst.cache[path]

        _be.SourceFileLoader.get_code = get_code
        MON.use_tool_id(TOOL, "simulator")

    def covers(self, path):
        return path.startswith(self.root) and not path.startswith(self.tests)

    def _add(self, code, top=False):
        if not top:
            self.codes.append(code)
            if self.mode:
                MON.set_local_events(TOOL, code, self.mode)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                self._add(const)

    def shielded(self, code, offset):
        """ Is it a place where nothing may come between a block and its cleanup?

        Once a ``with`` block is left, its ``__exit__()`` is called, and the
        first statement of a ``finally`` runs: asynchronous exceptions are
        delivered when a call returns, not on the way to it.  What is set up
        right before a ``try`` counts as set up inside.
        """
        found = self.shields.get(code)
        if found is None:
            ops = list(dis.get_instructions(code))
            found = self.shields[code] = set()
            lines = self.cleanup.get(code.co_filename, ())
            for i, op in enumerate(ops):
                if op.positions is not None and op.positions.lineno in lines:
                    found.add(op.offset)
                if op.opname == "NOP" and op.offset in found:  # try
                    while i and ops[i - 1].opname in ("POP_TOP", "STORE_FAST", "STORE_DEREF"):
                        i -= 1
                        found.add(ops[i].offset)
                    continue
                if op.opname == "WITH_EXCEPT_START":
                    found.update(o.offset for o in ops[max(i - 1, 0):i + 1])
                if [o.opname for o in ops[i:i + 4]] == ["LOAD_CONST"] * 3 + ["CALL"] and ops[i + 3].arg == 2:
                    if all(o.argval is None for o in ops[i:i + 3]):
                        found.update(o.offset for o in ops[i:i + 4])
        return offset in found

    def arm(self, granularity, callback):
        """granularity: 'line' or 'opcode'"""
        mode = EV.LINE if granularity == "line" else EV.INSTRUCTION
        MON.register_callback(TOOL, EV.LINE, None)
        MON.register_callback(TOOL, EV.INSTRUCTION, None)
        if self.mode != mode:
            self.mode = mode
            for code in self.codes:
                MON.set_local_events(TOOL, code, mode)
        MON.register_callback(TOOL, mode, callback)

    def disarm(self):
        MON.register_callback(TOOL, EV.LINE, None)
        MON.register_callback(TOOL, EV.INSTRUCTION, None)


class SimOut:
    """The simulated output stream: records who wrote what, fails on request."""

    encoding = "utf-8"
    errors = "strict"
    closed = False

    def __init__(self, sim):
        self.sim = sim

    def write(self, text):
        return self.sim.on_write(text)

    def flush(self):
        return None

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError("simulated stream has no descriptor")


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "MemoryError": lambda: MemoryError("injected"),
    "SystemExit": lambda: SystemExit("injected"),
    "RecursionError": lambda: RecursionError("injected"),
    "BrokenPipeError": lambda: BrokenPipeError(32, "injected: broken pipe"),
    "ENOSPC": lambda: OSError(28, "injected: no space left on device"),
    "ClosedStream": lambda: ValueError("injected: I/O operation on closed file."),
    "EINTR": lambda: InterruptedError(4, "injected: interrupted"),
}

_current = None  # the Sim that is running


def current():
    return _current


class Sim:
    def __init__(self, inst, sched, nthreads, max_steps=400000, granularity="line"):
        self.inst = inst
        self.spec = sched
        self.granularity = granularity
        self.threads = [SimThread(i) for i in range(nthreads)]
        self.by_ident = {}
        self.step = 0
        self.clock = 0
        self.max_steps = max_steps
        self.cur = None
        self.main_gate = _real_allocate()
        self.main_gate.acquire()
        self.switches = []
        self.stop = None  # reason for stopping early: ('hang'|'deadlock', text)
        self.fault_log = []
        self.writes = []
        self.digest_items = []
        self.pairs = set()
        self.active = False
        self.policy = sched.get("policy", "serial")
        self.explicit = None
        if self.policy == "explicit":
            self.explicit = {}
            self.explicit_forced = {}
            for kind, st, tid in sched["switches"]:
                table = self.explicit if kind == "v" else self.explicit_forced
                table.setdefault(int(st), []).append(tid)
        self.rng = random.Random(sched.get("seed", 0))
        self.p = sched.get("p", 0.1)
        if self.policy == "pct":
            prios = list(range(10, 10 + nthreads))
            self.rng.shuffle(prios)
            for t, pr in zip(self.threads, prios):
                t.prio = pr
            length = sched.get("length", 500)
            self.points = sorted(
                self.rng.randrange(1, length) for _ in range(sched.get("depth", 3))
            )
            self.low = 9
        if self.policy == "preempt":
            # Pauses one thread after some of its own steps and lets others run.
            self.pauses = [list(x) for x in sched["pauses"]]  # [thread, its steps, length of the pause]
            self.own = [0] * nthreads
            self.resume = None  # (thread, step at which it goes on)
        # Focused policies switch only at code locations drawn per run.
        if self.policy == "focus":
            self.focus = {}
        self.lastcode = None

    # -- event clock -------------------------------------------------------
    def tick(self):
        self.clock += 1
        return self.clock

    def note(self, *item):
        """ Record a history event (also part of the determinism digest). """
        self.digest_items.append(item)

    # -- scheduling --------------------------------------------------------
    def runnable(self):
        return [t for t in self.threads if t.state == "ready" or t.state == "running"]

    def _others(self, cur):
        return [t for t in self.threads if t.state == "ready" and t is not cur]

    def _choose(self, cur, where):
        """Pick the thread to run after ``cur`` reached a step (None: stay)."""
        st = self.step
        if self.explicit is not None:
            lst = self.explicit.get(st)
            if lst:
                tid = lst.pop(0)
                for t in self.threads:
                    if t.tid == tid and t.state == "ready" and t is not cur:
                        return t
            return None
        others = self._others(cur)
        if not others:
            return None
        pol = self.policy
        rng = self.rng
        if pol == "random":
            if rng.random() < self.p:
                return others[rng.randrange(len(others))]
            return None
        if pol == "serial":
            if where == "op" and rng.random() < self.p:
                return others[rng.randrange(len(others))]
            return None
        if pol == "focus":
            # Each code location gets, on first visit, a probability to switch.
            key = self.lastcode
            pr = self.focus.get(key)
            if pr is None:
                pr = 0.9 if rng.random() < self.p else 0.0
                self.focus[key] = pr
            if pr and rng.random() < pr:
                return others[rng.randrange(len(others))]
            return None
        if pol == "preempt":
            if self.resume is not None:
                tid, at = self.resume
                back = self.threads[tid]
                if back.state == "ready" and st >= at and cur is not back:
                    self.resume = None
                    return back
            self.own[cur.tid] += 1
            for pause in self.pauses:
                if pause[0] == cur.tid and self.own[cur.tid] >= pause[1]:
                    self.pauses.remove(pause)
                    self.resume = (cur.tid, st + pause[2])
                    return others[rng.randrange(len(others))]
            return None
        if pol == "pct":
            if self.points and st >= self.points[0]:
                self.points.pop(0)
                cur.prio = self.low
                self.low -= 1
            best = max(others, key=lambda t: t.prio)
            if best.prio > cur.prio:
                return best
            return None
        raise HarnessError("unknown policy " + pol)

    def _forced(self, cur):
        """Pick a thread when ``cur`` can't go on."""
        others = self._others(cur)
        if not others:
            return None
        if self.explicit is not None:
            lst = self.explicit_forced.get(self.step)
            if lst:
                tid = lst.pop(0)
                for t in others:
                    if t.tid == tid:
                        return t
            return others[0]
        if self.policy == "pct":
            return max(others, key=lambda t: t.prio)
        return others[self.rng.randrange(len(others))]

    def _switch(self, cur, nxt, kind="v"):
        self.switches.append((kind, self.step, nxt.tid))
        self.pairs.add((self.lastcode, cur.tid, nxt.tid))
        if cur.state == "running":
            cur.state = "ready"
        nxt.state = "running"
        self.cur = nxt
        nxt.gate.release()
        cur.gate.acquire()
        if self.stop is not None:
            cur.quiet += 1
            raise SimStop(self.stop[0])

    def yield_point(self, th, where, loc=None):
        if th.quiet or self.stop is not None:
            if self.stop is not None and not th.quiet:
                th.quiet += 1
                raise SimStop(self.stop[0])
            return
        self.step += 1
        if self.step > self.max_steps:
            self.halt("hang", "no end after %d steps" % self.max_steps)
            th.quiet += 1
            raise SimStop("hang")
        self.lastcode = loc if loc is not None else where
        nxt = self._choose(th, where)
        if nxt is not None:
            self._switch(th, nxt)

    def halt(self, kind, text):
        if self.stop is None:
            self.stop = (kind, text)

    def block(self, th, lock):
        """ Thread ``th`` waits for a simulated lock. """
        th.state = "blocked"
        th.waiting = lock
        self.step += 1
        nxt = self._forced(th)
        if nxt is None:
            self.halt("deadlock", "every thread waits for another one")
            th.state = "running"
            th.quiet += 1
            raise SimStop("deadlock")
        self._switch(th, nxt, "f")

    def wait_for(self, th, ready):
        """ Thread ``th`` waits until ``ready()``; only other threads can make it so. """
        while not ready():
            th.ready = ready
            self.block(th, th)
        th.ready = None

    def wake(self):
        """ Something happened that a waiting thread may have waited for. """
        for t in self.threads:
            if t.state == "blocked" and t.waiting is t and t.ready():
                t.state = "ready"
                t.waiting = None

    def unblock(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waiting is lock:
                t.state = "ready"
                t.waiting = None

    # -- instrumentation callbacks ----------------------------------------
    def _on_step(self, code, where):
        th = self.by_ident.get(_get_ident())
        if th is None or th.quiet or not self.active:
            return
        th.op_steps += 1
        if th.fault is not None and not th.nofault and th.op_steps == th.fault[0]:
            kind = th.fault[1]
            if self.inst.shielded(code, sys._getframe(1).f_lasti):
                th.fault = (th.op_steps + 1, kind)
                return self.yield_point(th, "line", (code.co_name, where))
            th.fault = None
            th.fired = kind
            self.fault_log.append((self.step, th.tid, kind, code.co_name))
            self.note("fault", th.tid, kind, code.co_name)
            raise EXC[kind]()
        self.yield_point(th, "line", (code.co_name, where))

    def on_write(self, text):
        th = self.by_ident.get(_get_ident())
        if th is None or not self.active:
            return len(text)
        if th.quiet:
            return len(text)
        th.write_count += 1
        if th.wfault is not None and not th.nofault and th.write_count == th.wfault[0]:
            kind = th.wfault[1]
            th.wfault = None
            th.fired = kind
            self.fault_log.append((self.step, th.tid, kind, "write"))
            self.note("fault", th.tid, kind, "write")
            raise EXC[kind]()
        owner = th.stack[-1] if th.stack else None
        self.writes.append((self.tick(), th.tid, owner, text))
        self.yield_point(th, "write")
        return len(text)

    # -- running -----------------------------------------------------------
    def me(self):
        return self.by_ident.get(_get_ident())

    def _main_of(self, th, fn):
        th.ident = _get_ident()
        self.by_ident[th.ident] = th
        th.gate.acquire()
        try:
            if self.stop is None:
                fn(th)
        except SimStop:
            pass
        except BaseException as err:  # a bug of the harness
            import traceback

            th.error = "".join(traceback.format_exception(err))
        th.quiet += 1
        th.state = "done"
        self.wake()
        self._leave(th)

    def _leave(self, th):
        if self.stop is not None:
            for t in self.threads:
                if t.state != "done":
                    t.state = "running"
                    self.cur = t
                    t.gate.release()
                    return
            self.main_gate.release()
            return
        nxt = self._forced(th)
        if nxt is None:
            if any(t.state == "blocked" for t in self.threads):
                self.halt("deadlock", "every remaining thread waits for another one")
                self._leave(th)
                return
            self.main_gate.release()
            return
        self.switches.append(("f", self.step, nxt.tid))
        nxt.state = "running"
        self.cur = nxt
        nxt.gate.release()

    def run(self, fns):
        """Run one function per thread to the end."""
        global _current
        _current = self
        watchdog = WATCHDOG
        out = sys.stdout
        sys.stdout = SimOut(self)
        self.inst.arm(self.granularity, self._on_step)
        oldswitch = sys.getswitchinterval()
        started = []
        try:
            for th, fn in zip(self.threads, fns):
                _thread.start_new_thread(self._main_of, (th, fn))
            # Wait until all threads have registered themselves.
            import time

            t0 = time.monotonic()
            while len(self.by_ident) < len(self.threads):
                time.sleep(0.0002)
                if time.monotonic() - t0 > watchdog:
                    raise HarnessError("threads did not start")
            self.active = True
            order = self.threads[:]
            if self.explicit is not None:
                first = None
                for t in self.threads:
                    lst = self.explicit_forced.get(0)
                    if lst and t.tid == lst[0]:
                        lst.pop(0)
                        first = t
                        break
                first = first or self.threads[0]
            elif self.policy == "pct":
                first = max(order, key=lambda t: t.prio)
            elif self.policy == "preempt":
                first = order[self.spec["first"] % len(order)]
            else:
                first = order[self.rng.randrange(len(order))]
            self.switches.append(("f", 0, first.tid))
            first.state = "running"
            self.cur = first
            first.gate.release()
            if not self.main_gate.acquire(timeout=watchdog):
                raise HarnessError("watchdog: run did not end in %ss" % watchdog)
        finally:
            self.active = False
            self.inst.disarm()
            sys.stdout = out
            _current = None
        for th in self.threads:
            if th.error:
                raise HarnessError(th.error)


class SimLock:
    """Stand-in for threading.Lock in code of the package under test."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = _current
        th = sim.me() if sim is not None and sim.active else None
        me = th.tid if th is not None else ("main", _get_ident())
        if th is not None and not th.quiet:
            sim.yield_point(th, "lock")
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if th is None:
                raise HarnessError("lock held outside the simulation")
            if th.quiet:
                raise SimStop("stopped")
            sim.block(th, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            sim = _current
            if sim is not None and sim.active:
                sim.unblock(self)
                th = sim.me()
                if th is not None and not th.quiet:
                    sim.yield_point(th, "lock")

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        sim = _current
        th = sim.me() if sim is not None and sim.active else None
        return bool(self.count) and self.owner == (th.tid if th else ("main", _get_ident()))


def patch_locks(inst):
    """Locks created by the package under test become simulated locks."""
    import threading

    def factory(real, reentrant):
        def make(*args, **kwargs):
            frame = sys._getframe(1)
            while frame is not None and frame.f_code.co_filename == threading.__file__:
                frame = frame.f_back
            if frame is not None and inst.covers(os.path.realpath(frame.f_code.co_filename)):
                return SimLock(reentrant)
            return real(*args, **kwargs)

        return make

    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)
    threading._allocate_lock = factory(threading._allocate_lock, False)
    _thread.allocate_lock = factory(_thread.allocate_lock, False)
