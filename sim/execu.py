"""Runs one generated program under the simulator and judges its history."""
import contextvars
import hashlib
import json
import re
import sys
import typing

import numpy as np

from . import model
from .build import BAD_DIM, BAD_SHAPE, Builder, SkipBuild, layout, uses_shapes
from .model import UNSET, Register
from .sched import HarnessError, Sim, SimStop

PROBE_ITEMS = [[2, 3], [2], [...], [int, 2], [float, 1, ...], [()], [-1, 2], [bool]]
PROBE_VALUES = [np.zeros((2, 3)), 1, None, "abc", [1]]
FAILED = "FAILED"
PASSED = "PASSED"
HEADER = re.compile(r"asta::([\w.<>]+)\(\)")


MARK = contextvars.ContextVar("mark", default=None)  # context of the simulated user


def look(err):
    """ What a handler of the exception can see. """
    return (type(err), err.__cause__, err.__context__, err.__suppress_context__, err.args, getattr(err, "__notes__", None))


def in_body(err):
    """ Does the traceback lead to the body that raised it? """
    tb = err.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_name == "_body":
            return True
        tb = tb.tb_next
    return False


def settings():
    """ Settings of the process that checks have no business with. """
    return {
        "recursion limit": sys.getrecursionlimit(),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)), "error handling": repr(np.geterr()),
        "excepthook": sys.excepthook, "trace": sys.gettrace(), "profile": sys.getprofile(),
    }


class UserError(Exception):
    """ An exception class of the simulated user. """


class UserBaseError(BaseException):
    """ An exception class of the simulated user, outside Exception. """


USER_EXC = {
    "TypeError": lambda: TypeError("user: bad"),
    "FakeFail": lambda: TypeError("\033[91mFAILED\033[0m: Argument 'x' has wrong type."),
    "ValueError": lambda: ValueError("user"),
    "KeyError": lambda: KeyError("user"),
    "AttributeError": lambda: AttributeError("user"),
    "StopIteration": lambda: StopIteration("user"),
    "UserError": lambda: UserError("user"),
    "UserBase": lambda: UserBaseError("user"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("user"),
    "SystemExit": lambda: SystemExit(3),
    "GeneratorExit": lambda: GeneratorExit("user"),
    "AssertionError": lambda: AssertionError("user"),
    "MemoryError": lambda: MemoryError("user"),
    "Recursion": lambda: RecursionError("user"),
}


class Rec:
    """ One call in the history. """

    def __init__(self, **kw):
        self.body_start = None
        self.body_end = None
        self.end = None
        self.execs = 0
        self.outcome = None
        self.exc = None
        self.ret = None
        self.raised = None
        self.ret_obj = None
        self.ret_val = None
        self.bad = []
        self.aborted = False
        self.limbo = False
        self.nested_ops = []
        self.__dict__.update(kw)


class Func:
    def __init__(self):
        self.obj = None
        self.built = None
        self.ready = False
        self.plain = None
        self.limbo = None


FIRST = {"method": "self", "classmethod": "cls", "staticmethod": None}


def method(kind, name, sig, arrow, body, first):
    """ Source of a method. """
    deco = {"classmethod": "    @classmethod\n", "staticmethod": "    @staticmethod\n"}.get(kind, "")
    return "%s    def %s(%s)%s:\n        return %s\n" % (
        deco, name, ", ".join(([first] if first else []) + sig), arrow, body)


# What the bodies of generated classes refer to; nothing of it is decorated.
FOREIGN = """
import abc, functools, typing
class _Meta(type):
    def meth(cls, x: int) -> int:
        return x
class _Base:
    def inherited(self, x: int) -> int:
        return x
    @classmethod
    def inherited_cm(cls, x: int) -> int:
        return x
class _Other:
    attr: int = 3
    def meth(self, x: int) -> int:
        return x
class %(owner)sx:
    attr: int = 3
    def meth(self, x: int) -> int:
        return x
def foreign(x: int) -> int:
    return x
class _Calls:
    def __call__(self, x: int) -> int:
        return x
class _ABC(abc.ABC):
    pass
class _Generic(typing.Generic[typing.TypeVar("T")]):
    pass
ns.update(_Meta=_Meta, _Base=_Base, _Other=_Other, _Near=%(owner)sx, foreign=foreign, _Calls=_Calls,
          _ABC=_ABC, _Generic=_Generic, partial=functools.partial)
"""
EXTRAS = {
    "bare": "def bare(self, x):\n    return x",
    "bare_cm": "@classmethod\ndef bare_cm(cls, x):\n    return x",
    "bare_sm": "@staticmethod\ndef bare_sm(x):\n    return x",
    "init": "def __init__(self):\n    pass",
    "prop": "@property\ndef prop(self) -> int:\n    return 1",
    "foreign": "alias = foreign",
    "near": "near = _Near.meth",
    "basefn": "basefn = _Base.inherited",
    "lam": "lam = lambda self, x: x",
    "const": "const = 5",
    "data": "data = [1, 2]",
    "partial": "part = partial(foreign)",
    "callable": "calls = _Calls()",
    "other": "other = _Other",
    "nearcls": "nearcls = _Near",
    "note": "note: int = 3",
    "doc": "__doc__ = 'text'",
    "none": "none = None",
    "bound": "bound = _Base().inherited",
}


class Violation:
    def __init__(self, kind, text, call=None):
        self.kind = kind
        self.text = text
        self.call = call

    def __repr__(self):
        return "%s: %s" % (self.kind, self.text)


class Result:
    def __init__(self):
        self.violations = []
        self.digest = ""
        self.steps = 0
        self.switches = []
        self.faults = []
        self.stats = {}
        self.log = []


class Run:
    """ Executes a program. """

    def __init__(self, world, prog):
        self.world = world
        self.prog = prog
        self.builder = Builder(world)
        self.funcs = [Func() for _ in prog.get("funcs", [])]
        self.started = set()
        self.slots = {}
        self.calls = []
        self.obs = []
        self.regs = {}
        self.viol = []
        self.stats = {}
        self.cfg = dict(prog.get("config") or {})
        self.raise_mode = self.cfg.get("raise-errors", "yes") == "yes"
        self.print_mode = self.cfg.get("print-passes", "yes") == "yes"
        self.all_elems = self.cfg.get("check-all-sequence-elements", "yes") == "yes"
        self.other_types = self.cfg.get("check-non-asta-types", "no") == "yes"
        self.depth = 0
        self.aux = []
        self.sim = None
        self.inst_no = 0

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def reg(self, kind, name):
        return self.regs.setdefault((kind, name), Register())

    # -- functions ---------------------------------------------------------
    def signature(self, idx, ns):
        """ Build the annotations of a function. -> (built, hints, parameters, arrow, body) """
        spec = self.prog["funcs"][idx]
        b = self.builder
        built = {"params": [], "ret": None, "defaults": {}}
        hints = {}
        ns["_d%d" % idx], ns["_h%d" % idx] = built["defaults"], hints
        start = self.sim.tick()
        b.reads = []
        sig = []
        star = False
        for p in spec["params"]:
            obj, tree = b.ann(p["ann"])
            hints[p["name"]] = obj
            built["params"].append((p["name"], tree))
            text = "%s: _h%d[%r]" % (p["name"], idx, p["name"])
            if p.get("kw") and not star:
                sig.append("*")
                star = True
            if "default" in p:
                built["defaults"][p["name"]] = b.value(p["default"])
                text += " = _d%d[%r]" % (idx, p["name"])
            sig.append(text)
            if len(built["params"]) == 1 and spec.get("posonly") and not star:
                sig.append("/")
        if spec.get("ret") is not None:
            obj, tree = b.ann(spec["ret"])
            hints["return"] = obj
            built["ret"] = tree
        arrow = " -> _h%d['return']" % idx if "return" in hints else ""
        reads, b.reads = b.reads, []
        self.observe_reads(reads, start, self.sim.tick())
        body = "_run(%d, (%s))" % (idx, "".join("%s," % p["name"] for p in spec["params"]))
        return built, hints, sig, arrow, body

    def define(self, idx):
        """ Define a function, a method or a whole class and decorate it. """
        spec = self.prog["funcs"][idx]
        if spec.get("group") is not None:
            return self.define_class(spec["group"])
        fn = self.funcs[idx]
        mod = spec.get("mod", "usermod")
        ns = {"__name__": mod, "_run": self._body}
        built, hints, sig, arrow, body = self.signature(idx, ns)
        name = spec["name"]
        kind = spec.get("kind", "func")
        if kind == "func":
            src = "def %s(%s)%s:\n    return %s\n" % (name, ", ".join(sig), arrow, body)
            exec(compile(src, "<usermod>", "exec"), ns)  # pylint: disable=exec-used
            raw = ns[name]
            fn.obj = self.world.asta.typechecked(raw)
        else:
            alone = kind.startswith("i")  # the method is decorated, not the class
            kind = kind[1:] if alone else kind
            owner = spec.get("cls", "K%d" % idx)
            src = "class %s:\n" % owner + method("" if alone else kind, name, sig, arrow, body, FIRST[kind])
            exec(compile(src, "<usermod>", "exec"), ns)  # pylint: disable=exec-used
            klass = ns[owner]
            raw = klass.__dict__[name]
            if alone:
                wrapped = self.world.asta.typechecked(raw)
                wrap = {"method": lambda x: x, "classmethod": classmethod, "staticmethod": staticmethod}[kind]
                setattr(klass, name, wrap(wrapped))
            else:
                klass = self.world.asta.typechecked(klass)
            fn.obj = getattr(klass() if kind == "method" else klass, name)
        built["qual"] = mod + "." + (name if kind == "func" else "%s.%s" % (owner, name))
        fn.built = built
        fn.hints = hints
        fn.ready = True
        return None

    def define_class(self, gid):
        """ A class with several methods, and with attributes which are no annotated methods of its own. """
        group = self.prog["groups"][gid]
        if gid in self.started:
            return
        self.started.add(gid)
        try:
            self._define_class(gid, group)
        except BaseException:
            self.started.discard(gid)
            raise

    def _define_class(self, gid, group):
        members = [i for i, f in enumerate(self.prog["funcs"]) if f.get("group") == gid]
        mod = group.get("mod", "usermod")
        ns = {"__name__": mod, "_run": self._body}
        owner = group["name"]
        exec(compile(FOREIGN % {"owner": owner}, "<usermod>", "exec"), {
            "__name__": group.get("othermod", mod), "ns": ns})  # pylint: disable=exec-used
        made = {}
        blocks = []
        for i in members:
            spec = self.prog["funcs"][i]
            made[i] = built, hints, sig, arrow, body = self.signature(i, ns)
            kind = spec.get("kind", "method")
            blocks.append(method(kind, spec["name"], sig, arrow, body, FIRST[kind]))
        for extra, at in group.get("extras", ()):
            blocks.insert(min(at, len(blocks)), "    " + EXTRAS[extra].replace("\n", "\n    ") + "\n")
        style = group.get("style", "plain")
        head = {"slots": "class %s:\n    __slots__ = ('a',)\n", "meta": "class %s(metaclass=_Meta):\n    pass\n",
                "abc": "class %s(_ABC):\n    pass\n", "base": "class %s(_Base):\n    pass\n",
                "generic": "class %s(_Generic):\n    pass\n"}.get(style, "class %s:\n    pass\n") % owner
        src = head + "".join(blocks)
        prefix = owner
        if style == "local":
            src = "def outer():\n" + "".join("    %s\n" % x for x in src.splitlines()) + "    return %s\n%s = outer()\n" % (owner, owner)
            prefix = "outer.<locals>." + owner
        src += "class Sub(%s):\n    def own(self, x: int) -> int:\n        return x\n" % owner
        exec(compile(src, "<usermod>", "exec"), ns)  # pylint: disable=exec-used
        klass, sub = ns[owner], ns["Sub"]
        early = klass()
        names = set()
        for i in members:
            name = self.prog["funcs"][i]["name"]
            names.add("_%s%s" % (owner.lstrip("_"), name) if name.startswith("__") and not name.endswith("__") else name)
        watched = [klass, sub] + [ns[x] for x in ("_Base", "_Other", "_Meta", "_Near")]
        before = [(c, dict(c.__dict__), c.__bases__, c.__qualname__, c.__module__) for c in watched]
        for i in members:
            spec = self.prog["funcs"][i]
            built, hints = made[i][:2]
            fn = self.funcs[i]
            name = spec["name"]
            attr = next(x for x in names if x == name or x.endswith(name) and x.startswith("_" + owner.lstrip("_") + "__"))
            via = {"early": early, "class": klass, "sub": sub(), "subclass": sub, "late": klass()}[spec.get("via", "late")]
            if spec.get("kind", "method") == "method" and isinstance(via, type):
                via = klass()
            built["qual"] = "%s.%s.%s" % (mod, prefix, name)
            fn.built, fn.hints = built, hints
            fn.limbo = lambda via=via, attr=attr: getattr(via, attr)
        deco = self.world.asta.typechecked(klass)
        if deco is not klass:
            self.viol.append(Violation("class-attr", "decorating class %s gave %r" % (owner, deco)))
            return
        for c, attrs, bases, qual, modname in before:
            now = dict(c.__dict__)
            if set(now) != set(attrs) or (c.__bases__, c.__qualname__, c.__module__) != (bases, qual, modname):
                self.viol.append(Violation("class-attr", "decorating class %s changed %s: %s" % (
                    owner, c.__name__, sorted(set(now) ^ set(attrs)))))
            for key, val in attrs.items():
                if c is klass and key in names:
                    if type(now.get(key)) is not type(val):
                        self.viol.append(Violation("class-attr", "decorating class %s made %s a %s" % (
                            owner, key, type(now.get(key)).__name__)))
                    if now.get(key) is val:
                        self.viol.append(Violation("class-attr", "decorating class %s left out %s" % (owner, key)))
                elif now.get(key) is not val and key != "__static_attributes__":
                    self.viol.append(Violation("class-attr", "decorating class %s replaced %s.%s" % (owner, c.__name__, key)))
        self.count("classes")
        for i in members:
            fn = self.funcs[i]
            fn.obj = fn.limbo()
            fn.ready = True

    def observe_reads(self, reads, start, end):
        for kind, name, value in reads:
            got = UNSET if value is None else (list(value) if kind == "sh" else value)
            self.obs.append(("read", kind, name, got, start, end))

    # -- bodies ------------------------------------------------------------
    def _body(self, idx, args):
        sim = self.sim
        th = sim.me()
        rec = th.ctx["calls"][-1] if th is not None and th.ctx["calls"] else None
        if rec is None or rec.f != idx:
            self.viol.append(Violation("body-count", "body of function %d ran outside its call" % idx))
            return None
        rec.execs += 1
        if rec.execs > 1:
            return rec.ret_obj
        rec.body_start = sim.tick()
        if MARK.get() != ("caller", rec.id):
            rec.bad.append(("context", "the body runs in another context than its caller"))
        if sys.stdout is not rec.stream:
            rec.bad.append(("context", "the body has another standard output than its caller"))
        th.stack.append(("body", rec.id))
        sim.note("body", th.tid, rec.id)
        if rec.tid != th.tid:
            rec.bad.append(("thread", "body ran in another thread"))
        for (name, want), got in zip(rec.passed, args):
            if want is not got:
                rec.bad.append(("identity", "parameter %s is not the object passed in" % name))
        sim.yield_point(th, "body")
        body = rec.body
        try:
            for op in body.get("ops", ()):
                self.do(th, op, nested=True)
            if body.get("raise"):
                rec.raised = USER_EXC[body["raise"]]()
                raise rec.raised
            spec = body.get("ret") or {"k": "none"}
            if spec["k"] == "arg":
                rec.ret_obj = args[spec["i"]]
                rec.ret_val = rec.vals[spec["i"]]
            else:
                rec.ret_obj = self.builder.value(spec)
                rec.ret_val = spec
            sim.yield_point(th, "body")
            return rec.ret_obj
        except SimStop:
            raise
        except BaseException as err:
            if rec.raised is None:
                rec.raised = err
            rec.look = look(err)
            raise
        finally:
            MARK.set(("body", rec.id))
            if not th.quiet:
                th.stack.pop()
                rec.body_end = sim.tick()

    # -- operations --------------------------------------------------------
    def do(self, th, op, nested=False):
        sim = self.sim
        kind = op["op"]
        if not nested:
            th.op_steps = 0
            th.write_count = 0
            th.fired = None
            fault = op.get("fault")
            th.fault = th.wfault = None
            if fault:
                if fault["at"] == "step":
                    th.fault = (fault["n"], fault["exc"])
                else:
                    th.wfault = (fault["n"], fault["exc"])
        sim.yield_point(th, "op")
        sim.note("op", th.tid, kind)
        err = None
        try:
            getattr(self, "op_" + kind)(th, op)
        except SimStop:
            raise
        except BaseException as exc:
            err = exc
        self.count("op_" + kind)
        if err is not None and nested:
            raise err
        if not nested:
            th.done_ops += 1
            sim.wake()
            fired, th.fired = th.fired, None
            th.fault = th.wfault = None
            th.stack[:] = []
            th.ctx["calls"][:] = []
            if fired:
                self.count("abort:" + fired)
                self.obs.append(("abort", fired, err, op))
            elif err is not None:
                if isinstance(err, HarnessError):
                    raise err
                self.unexpected(op, err)

    def unexpected(self, op, err):
        """ An operation which reports its own outcomes raised: harness bug. """
        raise HarnessError("operation %s raised %r" % (op["op"], err)) from err

    def guard(self, th, fn):
        """ Run fn; -> (ok, result or exception).  Injected faults propagate. """
        try:
            return True, fn()
        except SimStop:
            raise
        except BaseException as err:
            if th.fired:
                raise
            return False, err

    def op_setdim(self, th, op, kind="d"):
        sim = self.sim
        name = op["name"]
        bad = isinstance(op["val"], dict)
        if kind == "d":
            val = BAD_DIM[op["val"]["bad"]] if bad else op["val"]
            target = self.world.dims
        else:
            val = BAD_SHAPE[op["val"]["bad"]] if bad else tuple(op["val"])
            target = self.world.shapes
        w = None
        if not bad:
            w = self.reg(kind, name).begin(sim.tick(), op["val"])
        try:
            ok, res = self.guard(th, lambda: setattr(target, name, val))
        except BaseException:
            if w is not None:
                w[1], w[3] = sim.tick(), "aborted"
            raise
        if w is not None:
            w[1], w[3] = sim.tick(), ("ok" if ok else "rejected")
        sim.note("set", th.tid, name, ok)
        if bad:
            if ok:
                self.viol.append(Violation("bad-accepted", "assigning %r to %s was accepted" % (val, name)))
            elif not isinstance(res, TypeError):
                self.viol.append(Violation("bad-exc", "assigning %r to %s raised %r" % (val, name, res)))
        elif not ok:
            self.viol.append(Violation("write-refused", "assigning %r to %s raised %r" % (val, name, res)))

    def op_await(self, th, op):
        """ A body waits until another thread is done with some of its operations. """
        sim = self.sim
        if op["t"] >= len(sim.threads) or op["t"] <= th.tid:
            return
        other = sim.threads[op["t"]]
        self.count("waits")
        sim.wait_for(th, lambda: other.done_ops >= op["n"] or other.state == "done")

    def alone(self):
        """ Is this the only thread of its phase?  Then nothing is gained by stopping at every step. """
        return len(self.sim.threads) == 1

    def op_hot(self, th, op):
        """ The same few calls again and again; the history keeps those that came out differently. """
        if not self.alone() or any(not self.funcs[c["f"]].ready for c in op["calls"]):
            return
        sim = self.sim
        before = {}
        sim.inst.disarm()
        try:
            for i in range(op["n"]):
                n, mark, notes = len(self.calls), len(sim.writes), len(sim.digest_items)
                which = i % len(op["calls"])
                self.op_call(th, op["calls"][which])
                rec = self.calls[n]
                key = (
                    rec.execs, rec.outcome, type(rec.exc), str(rec.exc) if rec.exc is not rec.raised else None, rec.bad,
                    "".join(w[3] for w in sim.writes[mark:]), rec.ret is rec.ret_obj,
                )
                if before.get(which) == key and i + len(op["calls"]) < op["n"]:
                    # Like the one before: forget it.
                    del self.calls[n:], sim.writes[mark:], sim.digest_items[notes:]
                before[which] = key
        finally:
            sim.inst.arm(sim.granularity, sim._on_step)
        self.count("hot_calls", op["n"])

    def op_bulk(self, th, op):
        """ Many names or annotations at once, then a look at all of them. """
        sim = self.sim
        if not self.alone():
            return
        sim.inst.disarm()
        try:
            n = op["n"]
            if op["kind"] in ("d", "sh"):
                vals = [i + op["base"] if op["kind"] == "d" else [i % 7, i + op["base"]] for i in range(n)]
                for rounds in range(op.get("rounds", 1)):
                    for i in range(n):
                        self.op_setdim(th, {"name": "B%d" % i, "val": vals[i - rounds]}, op["kind"])
                    for i in range(n):
                        self.op_getdim(th, {"name": "B%d" % i}, op["kind"])
            else:
                for i in list(range(n)) + list(range(n)):
                    ann = {"k": "arr", "be": "np", "dt": op.get("dt"), "shape": [i + 1]}
                    for size in (i + 1, i + 2):
                        val = {"k": "arr", "be": "np", "dt": "float64", "shape": [size]}
                        self.op_isinst(th, {"op": "isinst", "ann": ann, "val": val})
        finally:
            sim.inst.arm(sim.granularity, sim._on_step)
        self.count("bulk_items", n)

    def op_clock(self, th, op):
        """ The clock jumps. """
        self.world.clock.jump(op["by"])
        self.count("clock_jumps")

    def op_setshape(self, th, op):
        self.op_setdim(th, op, "sh")

    def op_getdim(self, th, op, kind="d"):
        sim = self.sim
        name = op["name"]
        target = self.world.dims if kind == "d" else self.world.shapes
        start = sim.tick()
        ok, res = self.guard(th, lambda: getattr(target, name))
        end = sim.tick()
        if not ok:
            self.viol.append(Violation("read", "reading %s raised %r" % (name, res)))
            return
        want = int if kind == "d" else tuple
        got = UNSET
        if isinstance(res, want):
            got = res if kind == "d" else list(res)
        sim.note("get", th.tid, name, got)
        self.obs.append(("read", kind, name, got, start, end))

    def op_getshape(self, th, op):
        self.op_getdim(th, op, "sh")

    def skip_build(self, err):
        """ An empty tuple inside a subscript already means a scalar. """
        return isinstance(err, SkipBuild) or (isinstance(err, TypeError) and self.builder.empty)

    def op_def(self, th, op):
        idx = op["f"]
        if self.funcs[idx].ready:
            return
        ok, res = self.guard(th, lambda: self.define(idx))
        if not ok:
            if self.skip_build(res):
                self.count("def_skipped")
                return
            self.viol.append(Violation("build", "annotating a function raised %r" % (res,)))

    def snapshot(self, val, obj):
        """ What must not change about a value while it is checked. """
        k = val["k"]
        if k == "set":
            return (type(obj), sorted(id(x) for x in obj))
        if k in ("list", "tup", "nt", "row", "deque"):
            return (type(obj), [(id(x), self.snapshot(v, x)) for v, x in zip(val["v"], obj)], len(obj))
        if k == "dict":
            return (
                type(obj), list(obj.keys()),
                [(id(x), self.snapshot(v, x)) for v, x in zip(val["v"].values(), obj.values())],
            )
        if k == "arr":
            if val["be"] != "np":
                return (tuple(obj.shape), str(obj.dtype))
            bits = obj.tobytes() if obj.size <= 64 and not obj.dtype.hasobject else None
            return (type(obj), tuple(obj.shape), str(obj.dtype), obj.strides, obj.flags.writeable, bits)
        return None

    def op_call(self, th, op):
        fn = self.funcs[op["f"]]
        if not fn.ready and (fn.limbo is None or self.prog.get("reports")):
            self.count("call_skipped")
            return
        # The class may be half decorated while another thread calls its methods.
        limbo = not fn.ready
        if limbo:
            self.count("calls_limbo")
        sim = self.sim
        built = fn.built
        names = [n for n, _ in built["params"]]
        objs = {}
        vals = {}
        args = []
        for i, v in enumerate(op["args"]):
            obj = self.builder.value(v)
            args.append(obj)
            objs[names[i]] = obj
            vals[names[i]] = v
        kwargs = {}
        for key, v in op.get("kw", {}).items():
            obj = self.builder.value(v)
            kwargs[key] = obj
            objs[key] = obj
            vals[key] = v
        given = set(objs)
        for p in self.prog["funcs"][op["f"]]["params"]:
            if p["name"] not in objs and "default" in p:
                objs[p["name"]] = built["defaults"][p["name"]]
                vals[p["name"]] = p["default"]
        items = [(n, tree, vals[n]) for n, tree in built["params"]]
        rec = Rec(
            id=len(self.calls), tid=th.tid, f=op["f"], op=op, items=items,
            passed=[(n, objs[n]) for n in names], vals=[vals[n] for n in names],
            body=op.get("body", {}), ret_ann=built["ret"], qual=built["qual"],
            depth=len(th.ctx["calls"]), begin=sim.tick(),
            parent=th.ctx["calls"][-1].id if th.ctx["calls"] else None,
        )
        self.calls.append(rec)
        rec.stream = sys.stdout
        MARK.set(("caller", rec.id))
        snaps = [(n, self.snapshot(vals[n], objs[n])) for n in names]
        th.ctx["calls"].append(rec)
        th.stack.append(("call", rec.id))
        obj = fn.limbo() if limbo else fn.obj
        rec.limbo = limbo
        err = None
        try:
            rec.ret = obj(*args, **kwargs)
            rec.outcome = "ret"
        except SimStop:
            raise
        except BaseException as exc:
            err = exc
            rec.exc = exc
            rec.outcome = "exc"
        rec.end = sim.tick()
        rec.aborted = bool(th.fired)
        del th.ctx["calls"][rec.depth:]
        while th.stack and th.stack[-1] != ("call", rec.id):
            th.stack.pop()
        if th.stack:
            th.stack.pop()
        sim.note("call", th.tid, rec.id, rec.outcome, type(err).__name__ if err else None, rec.execs)
        if not rec.aborted:
            if rec.execs and MARK.get() != ("body", rec.id):
                rec.bad.append(("context", "what the body did to its context is gone"))
            if err is not None and err is rec.raised and rec.execs == 1:
                if look(err) != rec.look or not in_body(err):
                    rec.bad.append(("exc-changed", "the exception of the body arrives as %r, it was %r" % (look(err), rec.look)))
            for (n, before) in snaps:
                if self.snapshot(vals[n], objs[n]) != before:
                    rec.bad.append(("mutated", "argument %s was changed by the check" % n))
                if n in given and vals[n]["k"] == "iter" and list(objs[n]) != list(vals[n]["v"]):
                    rec.bad.append(("mutated", "iterator %s was consumed by the check" % n))
        if err is not None:
            if rec.aborted:
                raise err
            if rec.raised is not None and rec.raised is err and not isinstance(err, Exception) and rec.parent is not None:
                raise err
            if op.get("prop") and rec.parent is not None:
                raise err

    # isinstance against an annotation tree (free of named dims and shapes)
    def op_isinst(self, th, op):
        sim = self.sim
        if "slot" in op:
            if op["slot"] not in self.slots:
                return
            ann, tree = self.slots[op["slot"]]
            if tree["k"] != "arr":
                return
        else:
            ok, res = self.guard(th, lambda: self.builder.ann(op["ann"]))
            if not ok and self.skip_build(res):
                return
            if not ok:
                self.viol.append(Violation("build", "annotation %s raised %r" % (json.dumps(op["ann"]), res)))
                return
            ann, tree = res
        val = self.builder.value(op["val"])
        ok, res = self.guard(th, lambda: isinstance(val, ann))
        sim.note("isinst", th.tid, ok, str(res) if ok else type(res).__name__)
        self.obs.append(("isinst", tree, op["val"], ok, res))

    def op_agree(self, th, op):
        """ isinstance and a decorated one-parameter function on the same value. """
        fn = self.funcs[op["f"]]
        if not fn.ready:
            return
        ann = list(fn.hints.values())[0]
        tree = fn.built["params"][0][1]
        val = self.builder.value(op["val"])
        ok, res = self.guard(th, lambda: isinstance(val, ann))
        self.obs.append(("isinst", tree, op["val"], ok, res))
        call = {"op": "call", "f": op["f"], "args": [op["val"]], "body": {"ret": {"k": "none"}}}
        n = len(self.calls)
        self.op_call(th, call)
        self.obs.append(("agree", tree, op["val"], ok and res, n))

    # annotations of libraries that can't be imported
    def op_probe(self, th, op):
        lib, how = op["lib"], op["how"]
        asta = self.world.asta
        cls = asta.Tensor if lib == "torch" else asta.TFTensor
        arg = np.zeros((2, 3))
        ran = []
        make = {
            "call": lambda: cls, "list": lambda: typing.List[cls], "dict": lambda: typing.Dict[str, cls],
            "tuple": lambda: typing.Tuple[cls, int], "seq": lambda: list[cls],
            "nest": lambda: dict[str, tuple[cls, ...]],
        }.get(how)
        val = {
            "list": [arg], "dict": {"a": arg}, "tuple": (arg, 1), "seq": [arg], "nest": {"a": (arg,)},
        }.get(how, arg)

        def deco(src, hints):
            ns = {"__name__": "usermod", "ran": ran}
            exec(compile(src, "<usermod>", "exec"), ns)  # pylint: disable=exec-used
            ns["p"].__annotations__ = hints
            return asta.typechecked(ns["p"])

        def attempt():
            if how == "sub":
                item = PROBE_ITEMS[op["item"] % len(PROBE_ITEMS)]
                return cls[tuple(item) if len(item) != 1 else item[0]]
            if how == "isinst":
                return isinstance(PROBE_VALUES[op["item"] % len(PROBE_VALUES)], cls)
            if how == "ret":
                return deco("def p(x):\n    ran.append(1)\n    return x\n", {"x": asta.Array[2, 3], "return": cls})(arg)
            if how == "mixed":
                return deco("def p(x, y):\n    ran.append(1)\n", {"x": asta.Array[2, 3], "y": cls})(arg, arg)
            return deco("def p(x):\n    ran.append(1)\n", {"x": make()})(val)

        ok, res = self.guard(th, attempt)
        self.sim.note("probe", th.tid, lib, how, ok, type(res).__name__)
        self.count("probes")
        if ok or not isinstance(res, ImportError) or lib not in str(res):
            self.viol.append(Violation("probe", "%s is missing, but %s of its annotation gave %r" % (lib, how, res)))
        elif ran and how != "ret":
            self.viol.append(Violation("probe", "%s is missing: body ran before the ImportError (%s)" % (lib, how)))

    # annotation objects ----------------------------------------------------
    def op_ann(self, th, op):
        def make():
            return self.builder.ann(op["ann"])

        ok, res = self.guard(th, make)
        if not ok and self.skip_build(res):
            return
        if not ok:
            self.viol.append(Violation("build", "annotation %s raised %r" % (json.dumps(op["ann"]), res)))
            return
        self.slots[op["slot"]] = res
        self.sim.note("ann", th.tid, op["slot"])

    def op_derive(self, th, op):
        """ Subscript an annotation with a shape, a dtype or both. """
        if op["from"] not in self.slots:
            return
        ann, tree = self.slots[op["from"]]
        if tree["k"] != "arr":
            return

        def make():
            dt = None
            new = {k: v for k, v in tree.items() if k != "named"}
            new["parts"] = None
            new.pop("layout", None)
            if op.get("dt") is not None:
                dt = self.builder.dtype(tree["be"], op["dt"])
                new["dt"] = op["dt"]
                if op["shape"] is None:
                    return ann[dt], new
            items, parts = self.builder.shape_items(op["shape"])
            new["parts"] = parts
            new["layout"] = layout(items)
            if dt is not None:
                return ann[(dt,) + (tuple(items) or (self.builder.asta.Scalar,))], self.named(new, op)
            sub = tuple(items) if len(items) != 1 else items[0]
            return ann[sub], self.named(new, op)

        ok, res = self.guard(th, make)
        if not ok and self.skip_build(res):
            return
        if not ok:
            self.viol.append(Violation("build", "subscripting raised %r" % (res,)))
            return
        self.slots[op["slot"]] = res

    def named(self, tree, op):
        if uses_shapes(op["shape"]):
            tree["named"] = True
        return tree

    def op_hash(self, th, op):
        if op["slot"] in self.slots:
            ann, tree = self.slots[op["slot"]]
            ok, res = self.guard(th, lambda: hash(ann))
            self.obs.append(("hash", tree, ok, res, ann))

    def op_repr(self, th, op):
        if op["slot"] in self.slots:
            ann, tree = self.slots[op["slot"]]
            ok, res = self.guard(th, lambda: repr(ann))
            if not ok:
                self.viol.append(Violation("repr", "repr raised %r" % (res,)))

    def op_eq(self, th, op):
        if op["a"] in self.slots and op["b"] in self.slots:
            (a, ta), (b, tb) = self.slots[op["a"]], self.slots[op["b"]]
            ok, res = self.guard(th, lambda: (a == b, b == a, a != b, hash(a), hash(b)))
            self.obs.append(("eq", ta, tb, ok, res))

    def op_wrap(self, th, op):
        """ Nest an annotation in a typing container. """
        if op["slot"] not in self.slots:
            return
        ann, tree = self.slots[op["slot"]]
        if tree["k"] != "arr":
            return
        import typing

        how = op["how"]

        def make():
            if how == "list":
                return typing.List[ann]
            if how == "dict":
                return typing.Dict[str, ann]
            if how == "tuple":
                return typing.Tuple[ann, ...]
            if how == "opt":
                return typing.Optional[ann]
            return typing.Sequence[ann]

        ok, res = self.guard(th, make)
        if not ok and self.skip_build(res):
            return
        if not ok:
            self.viol.append(Violation("build", "nesting raised %r" % (res,)))
            return
        new = {
            "list": {"k": "list", "of": tree}, "dict": {"k": "dict", "of": tree},
            "tuple": {"k": "vtup", "of": tree}, "opt": {"k": "opt", "of": tree},
            "seq": {"k": "seq", "of": tree},
        }[how]
        self.slots[op["to"]] = (res, new)

    def op_use(self, th, op):
        """ Call a function whose only parameter has the annotation of a slot. """
        if op["slot"] not in self.slots:
            return
        ann, tree = self.slots[op["slot"]]
        fn = Func()
        name = "use%d" % op["slot"]
        ns = {"__name__": "usermod", "_run": self._body, "_idx": ("use", op["slot"])}
        src = "def %s(x):\n    return _run(_idx, (x,))\n" % name
        exec(compile(src, "<usermod>", "exec"), ns)  # pylint: disable=exec-used
        raw = ns[name]
        raw.__annotations__ = {"x": ann}
        ok, res = self.guard(th, lambda: self.world.asta.typechecked(raw))
        if not ok:
            self.viol.append(Violation("build", "decorating raised %r" % (res,)))
            return
        fn.obj = res
        fn.built = {"params": [("x", tree)], "ret": None, "defaults": {}, "qual": "usermod." + name}
        fn.ready = True
        idx = len(self.funcs)
        self.funcs.append(fn)
        self.prog["funcs"].append({"name": name, "params": [{"name": "x", "ann": tree}]})
        ns["_idx"] = idx
        self.op_call(th, {"op": "call", "f": idx, "args": [op["val"]], "body": {"ret": {"k": "none"}}})

    # -- the run -----------------------------------------------------------
    def execute(self):
        prog = self.prog
        nfuncs = len(prog.get("funcs", []))
        world = self.world
        world.write_config(self.cfg or None)
        err, _ = world.start(tf=prog.get("tf", False), torch=prog.get("torch", False))
        if err is not None:
            res = Result()
            res.violations = [Violation("import", "importing asta raised %r (tensorflow: %s, torch: %s, options: %r)" % (
                err, prog.get("tf", False), prog.get("torch", False), self.cfg))]
            return res
        self.builder = Builder(world, prog.get("share", False))
        self.settings = settings()
        threads = prog["threads"]
        # Setup runs in one thread before the others, final operations after them.
        order = [[prog.get("setup", [])], threads, [prog.get("final", [])]]
        clock = 0
        step_total = 0
        res = Result()
        digest = hashlib.sha256()
        sched = prog["sched"]
        phase_no = 0
        for group in order:
            if group is not threads and not group[0] and phase_no:
                phase_no += 1
                continue
            spec = sched if group is threads else {"policy": "serial", "seed": 0, "p": 0.0}
            sim = Sim(
                world.inst, spec, len(group), granularity=prog.get("granularity", "line"),
                max_steps=prog.get("max_steps", 4000000),
            )
            sim.clock = clock
            self.sim = sim

            def worker(ops):
                def run(th):
                    th.ctx = {"calls": []}
                    for op in ops:
                        self.do(th, op)
                return run

            if phase_no == 0:
                ops0 = [{"op": "shobjs"}] if prog.get("shobjs") else []
                pre = ops0 + [
                    {"op": "def", "f": i} for i, f in enumerate(prog.get("funcs", []))
                    if f.get("when", "setup") == "setup"
                ]
                group = [pre + group[0]] if prog.get("defs_first", True) else [group[0] + pre]
            try:
                sim.run([worker(ops) for ops in group])
            except HarnessError as err:
                # Values that should have been refused also confuse the harness.
                if "watchdog" in str(err) or not any(v.kind == "bad-accepted" for v in self.viol):
                    raise
                res.steps, res.digest, res.violations, res.stats = step_total, digest.hexdigest(), self.viol, self.stats
                return res
            clock = sim.clock
            step_total += sim.step
            self.aux.append(sim)
            if group is threads:
                res.switches = sim.switches
                res.pairs = sim.pairs
            res.faults += sim.fault_log
            digest.update(json.dumps(sim.digest_items, default=str).encode())
            digest.update(json.dumps(
                [(w[0], w[1], len(w[3])) for w in sim.writes]).encode())
            digest.update(json.dumps(sim.switches).encode())
            phase_no += 1
            if sim.stop is not None:
                self.viol.append(Violation(sim.stop[0], sim.stop[1]))
                break
        del prog["funcs"][nfuncs:]
        res.steps = step_total
        res.digest = digest.hexdigest()
        changed = [k for k, v in settings().items() if v != self.settings[k]]
        if changed:
            self.viol.append(Violation("context", "the process has other settings than before: %s" % changed))
        if not any(v.kind in ("hang", "deadlock") for v in self.viol):
            from . import oracle

            oracle.judge_history(self)
        res.violations = self.viol
        res.stats = self.stats
        res.verdicts = self.verdicts()
        return res

    def verdicts(self):
        """ What a user sees of every check, without the wording. """
        out = []
        nth = {}
        for rec in self.calls:
            n = nth[rec.tid] = nth.get(rec.tid, -1) + 1
            if rec.aborted:
                out.append((rec.tid, n, "aborted"))
                continue
            out.append((rec.tid, n, rec.execs, rec.outcome, type(rec.exc).__name__ if rec.exc is not None else None))
        out.sort(key=lambda t: t[:2])
        for i, ob in enumerate(self.obs):
            if ob[0] == "isinst":
                out.append(("isinst", i, ob[3], str(ob[4]) if ob[3] else type(ob[4]).__name__))
        return out

    def op_shobjs(self, th, op):
        start = self.sim.tick()
        self.builder.define_shobjs(self.prog["shobjs"])
        reads, self.builder.reads = self.builder.reads, []
        self.observe_reads(reads, start, self.sim.tick())
