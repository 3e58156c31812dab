"""Process lives: restarts, switches and configuration files under faults.

One program is a history of one simulated machine: files appear, are torn,
vanish or fail while they are read; processes start, fail to start, are
retried; the environment changes between and during decorations.
"""
import builtins
import configparser
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import sys
import typing

import numpy as np
import toml

from .execu import Result, Violation
from .sched import EXC, HarnessError, Sim, SimStop

OPTIONS = ["on", "raise-errors", "print-passes", "check-non-asta-types", "check-all-sequence-elements"]
DEFAULTS = {
    "on": True, "raise-errors": True, "print-passes": True,
    "check-non-asta-types": False, "check-all-sequence-elements": True,
}
UNSURE = "<unsure>"
FAILS = "<import fails>"
OSERR = {
    "EACCES": lambda p: PermissionError(13, "injected: permission denied", p),
    "EIO": lambda p: OSError(5, "injected: input/output error", p),
    "EMFILE": lambda p: OSError(24, "injected: too many open files", p),
    "ENOENT": lambda p: FileNotFoundError(2, "injected: no such file", p),
    "MemoryError": lambda p: MemoryError("injected"),
    "KeyboardInterrupt": lambda p: KeyboardInterrupt("injected"),
}
_real_open = io.open

# Slots of configuration files in search order; the working directory is p/q/r.
SLOTS = {
    "astarc": "p/q/r/astarc", ".astarc": "p/q/r/.astarc", "pyproject": "p/q/r/pyproject.toml",
    "setup": "p/q/r/setup.cfg", "up1": "p/q/astarc", "up1d": "p/q/.astarc", "up2": "p/astarc",
    "up2d": "p/.astarc", "env": "conf/my.conf", "envtoml": "conf/my.toml", "home": "home/.astarc",
    "homeconf": "home/.config/astarc", "init_r": "p/q/r/__init__.py", "init_q": "p/q/__init__.py",
}


# -- reference model -----------------------------------------------------------
def ref_options(path, data):
    """ What a file states: dict of options, FAILS, or None (not a file of asta). """
    if path.endswith(".toml"):
        try:
            content = toml.loads(data.decode("utf-8"))
        except Exception:  # pylint: disable=broad-except
            return FAILS
        tool = content.get("tool")
        if not isinstance(tool, dict) or "asta" not in tool:
            return None
        sections = tool["asta"]
        if not isinstance(sections, dict):
            return UNSURE
        if sum(name.upper() == "MASTER" for name in sections) > 1:
            return UNSURE
        for name, values in sections.items():
            if name.upper() == "MASTER":
                if not isinstance(values, dict):
                    return UNSURE
                return read_values(values)
        if any(not isinstance(v, dict) for v in sections.values()):
            return UNSURE
        return {}
    parser = configparser.ConfigParser(interpolation=None)
    try:
        parser.read_file(io.TextIOWrapper(io.BytesIO(data), encoding="utf_8_sig"))
    except Exception:  # pylint: disable=broad-except
        return FAILS
    if path.endswith("setup.cfg") and not any(s.startswith("asta.") for s in parser.sections()):
        return None
    titles = [s[5:] if s.startswith("asta.") else s for s in parser.sections()]
    if sum(t.upper() == "MASTER" for t in titles) > 1:
        return UNSURE
    for name in parser.sections():
        title = name[5:] if name.startswith("asta.") else name
        if path.endswith("setup.cfg") and not name.startswith("asta."):
            if title.upper() == "MASTER":
                return UNSURE
            continue
        if title.upper() == "MASTER":
            return read_values(dict(parser.items(name)))
    return {}


def read_values(values):
    out = {}
    for key, val in values.items():
        if key in OPTIONS:
            if val in ("yes", "no"):
                out[key] = val == "yes"
            elif isinstance(val, bool):
                out[key] = val
            else:
                out[key] = UNSURE
    return out


# -- the simulated machine -----------------------------------------------------
class Faulty:
    """A file whose reads fail on request."""

    def __init__(self, real, disk, path):
        self._real = real
        self._disk = disk
        self._path = path

    def _hit(self):
        self._disk.on_read(self._path)

    def read(self, *a):
        self._hit()
        return self._real.read(*a)

    def readline(self, *a):
        self._hit()
        return self._real.readline(*a)

    def readlines(self, *a):
        self._hit()
        return self._real.readlines(*a)

    def __iter__(self):
        return self

    def __next__(self):
        self._hit()
        return next(self._real)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._real.close()

    def __getattr__(self, name):
        return getattr(self._real, name)


class Disk:
    """ Owns every open() of a configuration file while a process starts. """

    def __init__(self, life):
        self.life = life
        self.fault = None
        self.opens = 0
        self.reads = 0
        self.fired = None
        self.log = []

    def watches(self, path):
        try:
            path = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path.startswith(self.life.base + os.sep) or path.endswith(os.sep + "defaults/astarc"):
            return path
        return None

    def open(self, file, *args, **kwargs):
        path = self.watches(file)
        if path is None:
            return _real_open(file, *args, **kwargs)
        self.opens += 1
        self.log.append(("open", self.short(path)))
        f = self.fault
        if f and f["kind"] in ("open", "vanish", "swap", "tear") and f["n"] == self.opens and not path.endswith("defaults/astarc"):
            self.fired = (f["kind"], path)
            if f["kind"] == "open":
                raise OSERR[f["exc"]](path)
            if f["kind"] == "vanish":
                os.unlink(path)
            elif f["kind"] == "swap":
                with _real_open(path, "wb") as handle:
                    handle.write(f["data"].encode("utf-8"))
            else:
                with _real_open(path, "rb") as handle:
                    data = handle.read()
                with _real_open(path, "wb") as handle:
                    handle.write(data[: int(len(data) * f["at"])])
        elif f and f["kind"] == "open" and f["n"] == self.opens:
            self.fired = ("open", path)
            raise OSERR[f["exc"]](path)
        return Faulty(_real_open(file, *args, **kwargs), self, path)

    def on_read(self, path):
        self.reads += 1
        f = self.fault
        if f and f["kind"] == "read" and f["n"] == self.reads:
            self.fired = ("read", path)
            raise OSERR[f["exc"]](path)

    def short(self, path):
        if path.startswith(self.life.base):
            return path[len(self.life.base) + 1:]
        return "<defaults>"


class Life:
    def __init__(self, world, prog):
        self.world = world
        self.prog = prog
        self.base = os.path.realpath(world.base)
        self.viol = []
        self.stats = {}
        self.faults = []
        self.log = []
        self.asta = None
        self.steps = 0
        self.switches = []
        self.pairs = set()
        self.expect = None  # options of the running process
        self.funcs = {}
        self.env = None  # ASTA_TYPECHECK
        self.env_hist = []
        self.digest = hashlib.sha256()
        self.failed_start = False
        self.phase = 0
        self.carry = []
        self.inner = {}

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def bad(self, kind, text):
        self.viol.append(Violation(kind, text))

    def note(self, *item):
        self.log.append(item)
        self.digest.update(json.dumps(item, default=str).encode())

    def path(self, slot):
        return os.path.join(self.base, SLOTS[slot])

    # -- files ---------------------------------------------------------------
    def setup(self):
        import shutil

        os.chdir("/")
        for name in ("p", "conf", "home", "cwd", "other"):
            shutil.rmtree(os.path.join(self.base, name), ignore_errors=True)
        for name in ("p/q/r", "conf", "home/.config", "other", "cwd"):
            os.makedirs(os.path.join(self.base, name))
        os.chdir(os.path.join(self.base, "p/q/r"))
        os.environ["HOME"] = os.path.join(self.base, "home")
        os.environ.pop("ASTARC", None)
        os.environ.pop("ASTA_TYPECHECK", None)

    def op_write(self, op):
        data = op["data"].encode("utf-8")
        if op.get("bom"):
            data = b"\xef\xbb\xbf" + data
        if "junk" in op:
            at = int(len(data) * op["junk"])
            data = data[:at] + b"\xff\x00" + data[at:]
        if "cut" in op:
            data = data[: int(len(data) * op["cut"])]
            self.count("fault:torn-write")
            self.faults.append("torn-write")
        with _real_open(self.path(op["slot"]), "wb") as handle:
            handle.write(data)

    def op_rm(self, op):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(self.path(op["slot"]))

    def op_astarc(self, op):
        if op["to"] is None:
            os.environ.pop("ASTARC", None)
        elif op["to"] == "missing":
            os.environ["ASTARC"] = os.path.join(self.base, "conf/nothing")
        elif op["to"] == "dir":
            os.environ["ASTARC"] = os.path.join(self.base, "conf")
        else:
            os.environ["ASTARC"] = self.path(op["to"])

    def op_chdir(self, op):
        os.chdir(os.path.join(self.base, op["to"]))

    def search(self):
        """ Paths in search order which exist now. """
        cwd = os.path.realpath(os.getcwd())
        out = []
        for name in ("astarc", ".astarc", "pyproject.toml", "setup.cfg"):
            out.append(os.path.join(cwd, name))
        cur = cwd
        while os.path.isfile(os.path.join(cur, "__init__.py")):
            cur = os.path.dirname(cur)
            out += [os.path.join(cur, "astarc"), os.path.join(cur, ".astarc")]
        env = os.environ.get("ASTARC")
        if env is not None and os.path.exists(env):
            out.append(env)
        else:
            home = os.environ["HOME"]
            out += [os.path.join(home, ".astarc"), os.path.join(home, ".config", "astarc")]
        if os.path.isfile("/etc/astarc"):
            raise HarnessError("/etc/astarc exists: the simulated machine is not alone")
        return [p for p in out if os.path.isfile(p)]

    def expected(self, over=None):
        """ -> (options or FAILS or UNSURE, chosen path, paths looked at) """
        looked = []
        for path in self.search():
            looked.append(path)
            with _real_open(path, "rb") as handle:
                data = handle.read()
            if over and path == over[0]:
                data = over[1]
            st = ref_options(path, data)
            name = os.path.basename(path)
            if st is None:
                if name in ("pyproject.toml", "setup.cfg"):
                    continue
                st = {}
            if st in (FAILS, UNSURE):
                return st, path, looked
            return {**DEFAULTS, **st}, path, looked
        return dict(DEFAULTS), None, looked

    # -- processes -------------------------------------------------------------
    def op_start(self, op, retry=False):
        world = self.world
        if retry:
            if not self.failed_start:
                return
        else:
            world.purge()
            self.funcs = {}
            self.carry = []
            self.banner = False
        world.set_libs(False, False)
        before = self.expected()
        disk = Disk(self)
        fault = op.get("fault")
        disk.fault = fault
        snap = {p: _real_open(p, "rb").read() for p in self.search()}
        buf = io.StringIO()
        err = None
        step_fired = []
        olds = builtins.open, io.open
        builtins.open = io.open = disk.open

        def imports():
            asta = importlib.import_module("asta")
            importlib.import_module("asta.decorators")
            return asta

        asta = None
        try:
            with contextlib.redirect_stdout(buf):
                if fault and fault["kind"] == "step":
                    asta, err = self.sim_import(imports, fault, step_fired, buf)
                else:
                    asta = imports()
        except Exception as exc:  # pylint: disable=broad-except
            err = exc
        except KeyboardInterrupt as exc:
            if "injected" not in str(exc):
                raise
            err = exc
        finally:
            builtins.open, io.open = olds
        self.asta = asta
        banner = "TYPECHECKING IS ENABLED" in buf.getvalue()
        # An interrupted import may have warned already.
        banner = self.banner = banner or self.banner
        fired = disk.fired
        if fired:
            self.faults.append(fired[0])
            self.count("fault:" + fired[0])
        if step_fired:
            self.faults.append("async")
            self.count("fault:async")
        self.note("start", retry, type(err).__name__ if err else None, [x for x in disk.log], banner)
        self.count("starts" if not retry else "retries")
        self.failed_start = err is not None
        want, chosen, looked = before
        what = "import"
        if step_fired:
            if err is None or type(err) is not type(EXC[fault["exc"]]()) or "injected" not in str(err):
                self.bad("abort-lost", "%s injected while importing came out as %r" % (fault["exc"], err))
            self.expect = None
            # Loading may have been complete when the import was interrupted.
            self.carry.append(want)
            return
        if not fired and any(c != want for c in self.carry):
            if err is not None and FAILS not in [want] + self.carry and UNSURE not in [want] + self.carry:
                self.bad("config-refused", "import after an interrupted one raised %r" % (err,))
            cands = [want] + self.carry
            self.expect = None if err is not None or UNSURE in cands else [c for c in cands if isinstance(c, dict)]
            if err is None and self.expect:
                self.op_observe({})
            return
        if fired and fired[0] in ("open", "read"):
            if err is None:
                self.bad("config-swallowed", "%s %s failed with %s, but the import went on" % (
                    fired[0], disk.short(fired[1]), fault["exc"]))
            self.expect = None
            self.count("start_failed")
            return
        if fired and fired[0] == "vanish":
            if err is None:
                self.bad("config-swallowed", "%s vanished while it was loaded, but the import went on" % disk.short(fired[1]))
            self.expect = None
            self.count("start_failed")
            return
        if fired and ref_options(fired[1], _real_open(fired[1], "rb").read()) is None:
            # The new content doesn't concern asta: where loading goes on is open.
            self.expect = None
            self.count("unsure")
            return
        if fired:  # swap or tear: as before or as after, nothing in between
            after = self.expected()
            opts = [w for w in (want, after[0])]
            if err is not None:
                if FAILS not in opts and UNSURE not in opts:
                    self.bad("config-refused", "import raised %r with well-formed files %r" % (err, looked))
                self.expect = None
                return
            self.expect = [o for o in opts if isinstance(o, dict)] if UNSURE not in opts else None
            if UNSURE not in opts and not self.expect:
                self.bad("config-swallowed", "malformed %s, but the import went on" % disk.short(fired[1]))
                self.expect = None
            return
        if want == UNSURE:
            self.expect = None
            self.count("unsure")
            return
        if want == FAILS:
            self.count("start_failed")
            if err is None:
                self.bad("config-swallowed", "%s can't be parsed (%r), but the import went on" % (
                    disk.short(chosen), snap[chosen][:200]))
            self.expect = None
            return
        if err is not None:
            self.bad("config-refused", "%s raised %r; files: %r" % (
                what, err, {p[len(self.base):]: snap[p][:300] for p in snap}))
            self.expect = None
            return
        self.expect = [want]
        self.count("start_ok")
        env = os.environ.get("ASTA_TYPECHECK")
        switched = env is None or env == "1"
        if UNSURE not in (want["on"], want["print-passes"]):
            should = want["on"] and switched and not want["print-passes"]
            self.count("banner_yes" if should else "banner_no")
            if banner != should:
                self.bad("banner", "start-up warning %s with on=%s, env=%r, print-passes=%s" % (
                    "missing" if should else "printed", want["on"], env, want["print-passes"]))
        if self.prog.get("observe", True):
            self.op_observe({})

    def sim_import(self, imports, fault, step_fired, buf):
        box = {}
        sim = Sim(self.world.inst, {"policy": "serial", "p": 0.0}, 1)

        def run(th):
            th.fault = (fault["n"], fault["exc"])
            try:
                box["asta"] = imports()
            except SimStop:
                raise
            except BaseException as err:
                box["err"] = err
            if th.fired:
                step_fired.append(th.fired)

        sim.run([run])
        self.steps += sim.step
        buf.write("".join(w[3] for w in sim.writes))
        return box.get("asta"), box.get("err")

    def op_retry(self, op):
        self.op_start(op, retry=True)

    # -- observing the options from outside --------------------------------------
    def op_observe(self, _op):
        if self.asta is None or not self.expect:
            return
        env = os.environ.pop("ASTA_TYPECHECK", None)
        try:
            seen = self.observe()
        finally:
            if env is not None:
                os.environ["ASTA_TYPECHECK"] = env
        self.note("observe", sorted(seen.items()))
        self.count("observations")
        for want in self.expect:
            if all(want[k] == UNSURE or seen[k] == want[k] for k in seen):
                # All observations of one process agree with the same state.
                self.expect = [want]
                return
        files = {p[len(self.base):]: _real_open(p, "rb").read()[:300] for p in self.search()}
        self.bad("config-wrong", "options are %r, expected %r; files now: %r" % (seen, self.expect, files))

    def observe(self):
        asta = self.asta
        Array, typechecked = asta.Array, asta.typechecked
        seen = {}

        def f(x: Array[2]):
            return x

        def g(x: int):
            return x

        def h(x: typing.List[Array[2]]):
            return x

        for fn, ann in ((f, Array[2]), (g, int), (h, typing.List[Array[2]])):
            fn.__annotations__ = {"x": ann}
        cf = typechecked(f)
        seen["on"] = cf is not f
        if not seen["on"]:
            return seen
        good, wrong = np.zeros(2), np.zeros(3)

        def failed(fn, arg):
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    fn(arg)
            except TypeError:
                return "raised", buf.getvalue()
            return ("printed" if "FAILED" in buf.getvalue() else "passed"), buf.getvalue()

        res, _ = failed(cf, wrong)
        seen["raise-errors"] = res == "raised"
        _, text = failed(cf, good)
        seen["print-passes"] = "PASSED" in text
        res, _ = failed(typechecked(g), "a")
        seen["check-non-asta-types"] = res != "passed"
        res, _ = failed(typechecked(h), [good, wrong])
        seen["check-all-sequence-elements"] = res != "passed"
        return seen

    # -- decoration (C07) -----------------------------------------------------------
    def op_setenv(self, op, sim=None):
        ev = [sim.tick() if sim else self.tick(), None, op["val"]]
        self.env_hist.append(ev)
        if op["val"] is None:
            os.environ.pop("ASTA_TYPECHECK", None)
        else:
            os.environ["ASTA_TYPECHECK"] = op["val"]
        ev[1] = sim.tick() if sim else self.tick()

    def op_clock(self, op, sim=None):
        """ The clock jumps. """
        self.world.clock.jump(op["by"])
        self.count("clock_jumps")

    def tick(self):
        self.phase += 1
        return self.phase

    def env_candidates(self, start, end):
        cands = []
        done = [e for e in self.env_hist if e[1] is not None and e[1] < start]
        newest = max((e[0] for e in done), default=None)
        if newest is None:
            cands.append(None)
        for e in self.env_hist:
            if e[0] > end or (e[1] is not None and any(d[0] > e[1] for d in done if d is not e)):
                continue
            if e[2] not in cands:
                cands.append(e[2])
        return cands

    def make(self, op):
        """ -> (object to decorate, [(attribute or None, way to a callable)]) """
        Array = self.asta.Array
        hits = []

        def hit(x):
            hits.append(x)
            inner = self.inner.pop(id(x), None)
            if inner:
                inner()

        what = op["what"]
        if what == "func":
            def f(x: Array[2]):
                hit(x)
                return x

            f.__annotations__ = {"x": Array[2]}
            return f, hits, [(None, lambda deco: deco)]
        ns = {"hit": hit, "__name__": "usermod"}
        kinds = {"class": ["method", "classmethod", "staticmethod", "method"]}.get(what, [what])
        how = {"method": ("", "self, "), "classmethod": ("    @classmethod\n", "cls, "),
               "staticmethod": ("    @staticmethod\n", "")}
        src = "class K:\n    attr = 1\n"
        for i, kind in enumerate(kinds):
            src += "%s    def f%d(%sx):\n        hit(x)\n        return x\n" % (how[kind][0], i, how[kind][1])
        exec(compile(src, "<usermod>", "exec"), ns)  # pylint: disable=exec-used
        klass = ns["K"]
        parts = []
        for i, kind in enumerate(kinds):
            name = "f%d" % i
            raw = klass.__dict__[name]
            getattr(raw, "__func__", raw).__annotations__ = {"x": Array[2]}
            if kind == "method":
                parts.append((name, lambda deco, name=name: getattr(deco(), name)))
            else:
                parts.append((name, lambda deco, name=name: getattr(deco, name)))
        return klass, hits, parts

    def op_decorate(self, op, sim=None):
        if self.asta is None or not self.expect:
            return
        again = op.get("again")
        base = twice = False
        if again is not None:
            old = self.funcs.get(again)
            if old is None or old["attr"] is not None:
                return
            # The same function once more, or the result of decorating it.
            raw, hits, parts = old["deco" if op.get("result") else "raw"], old["hits"], [(None, lambda deco: deco)]
            base = self.runs(old) if op.get("result") else old["base"]
            twice = old["twice"] if op.get("result") or not old["base"] else True
            op = {**op, "what": "func"}
        else:
            raw, hits, parts = self.make(op)
        before = {name: raw.__dict__[name] for name, _ in parts if name}
        start = sim.tick() if sim else self.tick()
        deco = self.asta.typechecked(raw)
        end = sim.tick() if sim else self.tick()
        seen = []
        for i, (name, get) in enumerate(parts):
            if name is None:
                same = kept = deco is raw
            else:
                if deco is not raw:
                    self.bad("deco-object", "decorating a class gave another object")
                now = raw.__dict__.get(name)
                same = getattr(now, "__func__", now) is getattr(before[name], "__func__", before[name])
                kept = now is before[name]
            seen.append(not same)
            self.funcs[op["id"] if i == 0 else "%s:%d" % (op["id"], i)] = {
                "raw": raw, "deco": deco, "hits": hits, "get": get, "op": op, "attr": name,
                "window": (start, end), "checked": not same, "kept": kept,
                # Wrappers have no annotations: calls through two of them aren't specified.
                "twice": twice or (base and not same),
                "base": base,
            }
        self.note("decorate", op["id"], seen)
        self.count("decorated_" + ("again" if again is not None else op["what"]))

    def runs(self, rec):
        """ Does a call check its argument? """
        return rec["checked"] or rec["base"]

    def op_call(self, op, sim=None):
        rec = self.funcs.get("%s:%d" % (op["id"], op.get("part", 0))) or self.funcs.get(op["id"])
        if rec is None or rec["twice"]:
            return
        checked = self.runs(rec)
        arg = np.zeros(2 if op["good"] else 3)
        if op.get("inner"):
            # The body of the function decorates, switches and calls.
            def inner():
                for o in op["inner"]:
                    getattr(self, "op_" + o["op"])(o, sim)
                    self.count("inner_" + o["op"])

            self.inner[id(arg)] = inner
        err = None
        ret = None
        buf = io.StringIO()
        cm = contextlib.redirect_stdout(buf) if sim is None else contextlib.nullcontext()
        try:
            with cm:
                ret = rec["get"](rec["deco"])(arg)
        except SimStop:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            err = exc
        self.inner.pop(id(arg), None)
        ran = sum(1 for h in rec["hits"] if h is arg)
        text = buf.getvalue()
        self.note("call", op["id"], op["good"], ran, type(err).__name__ if err else None)
        self.count("calls")
        want = self.expect[0]
        raises = want["raise-errors"]
        if checked and not op["good"]:
            if raises and (not isinstance(err, TypeError) or ran):
                self.bad("switch-call", "%s was decorated with checking on, but a mismatch gave %r, body ran %d times" % (
                    op["id"], err or ret, ran))
            if not raises and sim is None and not op.get("inner") and "FAILED" not in text:
                self.bad("switch-call", "%s was decorated with checking on, but a mismatch was not reported" % op["id"])
        else:
            if err is not None or ret is not arg or ran != 1:
                self.bad("switch-call", "%s (checked: %s), conforming: %s gave %r, body ran %d times" % (
                    op["id"], checked, op["good"], err or ret, ran))
            if not checked and text and not op.get("inner"):
                self.bad("switch-call", "%s was decorated with checking off but printed %r" % (op["id"], text[:80]))

    def judge_decorations(self):
        for fid, rec in self.funcs.items():
            if rec.get("judged"):
                continue
            rec["judged"] = True
            cands = self.env_candidates(*rec["window"])
            want = {
                bool(o["on"] and (c is None or c == "1"))
                for o in (self.expect or []) for c in cands if o["on"] != UNSURE
            }
            self.count("decorations")
            if len(want) == 2:
                self.count("decorations_ambiguous")
            if want == {False} and not rec["checked"] and not rec["kept"]:
                self.bad("deco-object", "decorating %s with checking off replaced %s" % (fid, rec["attr"]))
            if want and rec["checked"] not in want:
                self.bad("switch", "%s (%s) was %sdecorated with on=%s and ASTA_TYPECHECK in %r" % (
                    fid, rec["op"]["what"], "" if rec["checked"] else "not ", self.expect[0]["on"], cands))

    def op_par(self, op):
        """ Threads decorate, call and switch at the same time. """
        if self.asta is None or not self.expect:
            return
        sim = Sim(self.world.inst, op["sched"], len(op["threads"]), granularity=op.get("granularity", "line"))
        sim.clock = self.phase

        def worker(ops):
            def run(th):
                for o in ops:
                    sim.yield_point(th, "op")
                    getattr(self, "op_" + o["op"])(o, sim)
            return run

        sim.run([worker(t) for t in op["threads"]])
        self.phase = sim.clock
        self.steps += sim.step
        self.switches += sim.switches
        self.pairs |= sim.pairs
        if sim.stop is not None:
            self.bad(sim.stop[0], sim.stop[1])

    # -- the run -----------------------------------------------------------------
    def execute(self):
        self.setup()
        olds = dict(os.environ)
        try:
            for op in self.prog["ops"]:
                self.steps += 1
                getattr(self, "op_" + op["op"])(op)
                self.count("op_" + op["op"])
                self.judge_decorations()
                if op["op"] in ("start",):
                    pass
        finally:
            os.environ.pop("ASTA_TYPECHECK", None)
            os.environ.pop("ASTARC", None)
            os.environ["HOME"] = olds.get("HOME", "/")
            self.world.reset_dirs()
        res = Result()
        res.violations = self.viol
        res.digest = self.digest.hexdigest()
        res.steps = self.steps
        res.switches = self.switches
        res.pairs = self.pairs
        res.faults = [(0, 0, f, "") for f in self.faults]
        res.stats = self.stats
        return res


# -- generators ----------------------------------------------------------------
def ini_text(r, opts, cfg=False):
    sec = r.choice(["MASTER", "MASTER", "master", "Master"])
    if cfg:
        sec = "asta." + sec
    elif r.random() < 0.15:
        sec = "asta." + sec
    sep = r.choice(["=", " = ", ": ", "="])
    nl = r.choice(["\n", "\n", "\n", "\r\n"])
    lines = []
    if cfg and r.random() < 0.7:
        lines += ["[metadata]", "name = thing", "version = 1%", ""]
    elif r.random() < 0.2:
        lines += ["# settings", ""]
    elif r.random() < 0.1:
        lines += ["[OTHER]", "raise-errors = maybe", ""]
    lines.append("[%s]" % sec)
    for k in opts:
        key = k if r.random() < 0.85 else k.upper()
        lines.append(key + sep + ("yes" if opts[k] else "no"))
        if r.random() < 0.1:
            lines.append("; note")
    if r.random() < 0.15:
        lines.append("unknown-option" + sep + "17")
    if cfg and r.random() < 0.5:
        lines += ["", "[flake8]", "max-line-length = 88"]
    return nl.join(lines) + nl


def toml_text(r, opts, asta=True):
    lines = []
    if r.random() < 0.6:
        lines += ["[build-system]", 'requires = ["setuptools"]', ""]
    if r.random() < 0.3:
        lines += ["[tool.black]", "line-length = 88", ""]
    if asta:
        lines.append("[tool.asta.%s]" % r.choice(["MASTER", "master", "Master"]))
        for k in opts:
            v = opts[k]
            if r.random() < 0.4:
                lines.append("%s = %s" % (k, "true" if v else "false"))
            else:
                lines.append('%s = "%s"' % (k, "yes" if v else "no"))
    if r.random() < 0.3:
        lines += ["", "[tool.isort]", "profile = 'black'"]
    return "\n".join(lines) + "\n"


def some_opts(r, bias_on=True):
    keys = [k for k in OPTIONS if r.random() < 0.5]
    r.shuffle(keys)
    out = {}
    for k in keys:
        v = r.random() < 0.5
        if k == "on" and bias_on:
            v = r.random() < 0.9
        out[k] = v
    return out


def mangle(r, op, is_toml):
    """ What people and broken tools do to files. """
    lines = op["data"].splitlines()
    how = r.choice(["again", "section", "line", "junk", "nohead", "comment", "space", "utf8"])
    at = r.randrange(len(lines) + 1)
    if how == "again" and lines:
        lines.insert(at, r.choice(lines))
    elif how == "section":
        lines += [r.choice(["[MASTER]", "[master]", "[asta.MASTER]", "[other", "[]"]), r.choice(["on=no", "on=yes", "raise-errors=no"])]
    elif how == "line":
        lines.insert(at, r.choice(["nonsense", "= yes", "on yes", "on =", "<<<<<<< HEAD", "{}", "  on=no"]))
    elif how == "junk":
        op["junk"] = round(r.random(), 3)
    elif how == "nohead":
        lines = [x for x in lines if not x.startswith("[")]
    elif how == "comment":
        lines.insert(at, r.choice(["# on=no", "; raise-errors=no", "# \u00e9\u4e2d", ""]))
    elif how == "space" and not is_toml:
        lines = [x + r.choice(["", "  ", "\t"]) for x in lines]
    elif how == "utf8":
        lines.append("# caf\u00e9")
    op["data"] = "\n".join(lines) + "\n"


def gen_write(r, slot):
    op = {"op": "write", "slot": slot}
    if slot in ("pyproject", "envtoml"):
        op["data"] = toml_text(r, some_opts(r), asta=r.random() < 0.8)
    elif slot == "setup":
        if r.random() < 0.25:
            op["data"] = "[metadata]\nname = thing\n[flake8]\nmax-line-length = 88\n"
        else:
            op["data"] = ini_text(r, some_opts(r), cfg=True)
    elif slot.startswith("init"):
        op["data"] = ""
        return op
    else:
        op["data"] = ini_text(r, some_opts(r)) if r.random() < 0.95 else ""
        if r.random() < 0.08:
            op["bom"] = True
    if r.random() < 0.1:
        mangle(r, op, slot in ("pyproject", "envtoml"))
    if r.random() < 0.15:
        op["cut"] = round(r.random(), 3)
    return op


FILES = ["astarc", ".astarc", "pyproject", "setup", "up1", "up1d", "up2", "up2d", "env", "envtoml", "home", "homeconf"]


def gen_fault(r):
    k = r.choice(["open", "open", "read", "read", "vanish", "swap", "tear", "step"])
    f = {"kind": k, "n": r.choice([1, 1, 1, 2, 2, 3, 4])}
    if k == "open":
        f["exc"] = r.choice(["EACCES", "EIO", "EMFILE", "ENOENT", "MemoryError", "KeyboardInterrupt"])
    elif k == "read":
        f["n"] = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10])
        f["exc"] = r.choice(["EIO", "EIO", "MemoryError", "KeyboardInterrupt"])
    elif k == "swap":
        f["data"] = ini_text(r, some_opts(r)) if r.random() < 0.7 else toml_text(r, some_opts(r))
    elif k == "tear":
        f["at"] = round(r.random(), 3)
    elif k == "step":
        f["n"] = r.randrange(1, 260)
        f["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
    return f


def gen_c08(seed):
    r = random.Random(seed)
    ops = []
    files = r.sample(FILES, r.choice([1, 2, 3, 4, 6]))
    if any(f.startswith("up") for f in files) or r.random() < 0.2:
        ops.append({"op": "write", "slot": "init_r", "data": ""})
        if r.random() < 0.6:
            ops.append({"op": "write", "slot": "init_q", "data": ""})
    for f in files:
        ops.append(gen_write(r, f))
    if "env" in files or "envtoml" in files or r.random() < 0.2:
        ops.append({"op": "astarc", "to": r.choice(["env", "envtoml", "missing", "dir"])})
    pf = r.choice([0.0, 0.3, 0.6])
    for _ in range(r.choice([1, 2, 3, 4])):
        start = {"op": "start"}
        if r.random() < pf:
            start["fault"] = gen_fault(r)
        ops.append(start)
        for _ in range(r.choice([0, 1, 2, 3])):
            x = r.random()
            if x < 0.4:
                ops.append(gen_write(r, r.choice(files)))
            elif x < 0.55:
                ops.append({"op": "rm", "slot": r.choice(files)})
            elif x < 0.65:
                ops.append({"op": "astarc", "to": r.choice(["env", "envtoml", "missing", "dir", None])})
            elif x < 0.75:
                ops.append({"op": "chdir", "to": r.choice(["p/q/r", "p/q", "other", "p/q/r"])})
            elif x < 0.82:
                ops.append({"op": "observe"})
            elif x < 0.85:
                ops.append({"op": "clock", "by": r.choice([-1e6, 0.5, 3, 61, 3600, 1e5, 1e9])})
            else:
                ops.append({"op": "retry"})
                if r.random() < 0.2:
                    ops[-1]["fault"] = gen_fault(r)
        ops.append({"op": "observe"})
        if start.get("fault") and r.random() < 0.8:
            ops.append({"op": "retry"})
    return {"type": "life", "ops": ops}


ENVS = [None, None, "1", "1", "0", "0", "", "true", "2", "01", "yes", "no", " 1"]


def gen_c07(seed):
    r = random.Random(seed)
    ops = []
    nid = [0]
    live = []

    def conf():
        opts = {}
        if r.random() < 0.6:
            opts["on"] = r.random() < 0.65
        if r.random() < 0.6:
            opts["print-passes"] = r.random() < 0.4
        if r.random() < 0.2:
            opts["raise-errors"] = r.random() < 0.5
        return {"op": "write", "slot": "astarc", "data": "[MASTER]\n" + "".join(
            "%s=%s\n" % (k, "yes" if v else "no") for k, v in opts.items())}

    def one(par=False, depth=0):
        x = r.random()
        if x < 0.35:
            return {"op": "setenv", "val": r.choice(ENVS)}
        if x < 0.38:
            return {"op": "clock", "by": r.choice([-1e6, 0.5, 3, 61, 3600, 1e5, 1e9])}
        if x < 0.65 or not live:
            nid[0] += 1
            what = r.choice(["func"] * 3 + ["method", "classmethod", "staticmethod", "class"])
            op = {"op": "decorate", "id": "f%d" % nid[0], "what": what}
            if live and r.random() < 0.3:
                op.update(what="func", again=r.choice(live))
                if r.random() < 0.4:
                    op["result"] = True
            live.append(op["id"])
            return op
        op = {"op": "call", "id": r.choice(live), "good": r.random() < 0.4, "part": r.choice([0, 0, 0, 1, 2, 3])}
        if depth < 2 and r.random() < 0.15:
            op["good"] = r.random() < 0.7
            op["inner"] = [one(par, depth + 1) for _ in range(r.choice([1, 2, 3]))]
        return op

    if r.random() < 0.4:
        ops.append({"op": "setenv", "val": r.choice(ENVS)})
    for _ in range(r.choice([1, 2, 2, 3])):
        if r.random() < 0.7:
            ops.append(conf())
        ops.append({"op": "start"})
        del live[:]
        for _ in range(r.choice([2, 4, 6, 10])):
            x = r.random()
            if x < 0.15:
                n = r.choice([2, 2, 3])
                g = r.choice(["line", "line", "opcode"])
                ops.append({
                    "op": "par", "threads": [[one(True) for _ in range(r.choice([1, 2, 3, 4]))] for _ in range(n)],
                    "sched": {"policy": "random", "seed": r.randrange(1 << 30), "p": r.choice([0.5, 0.2, 0.05])},
                    "granularity": g,
                })
            elif x < 0.22:
                ops.append(conf())  # no effect on the running process
            else:
                ops.append(one())
        for i in live[-4:]:
            ops.append({"op": "call", "id": i, "good": False})
            ops.append({"op": "call", "id": i, "good": True})
            if r.random() < 0.3:
                part = r.choice([1, 2, 3])
                ops.append({"op": "call", "id": i, "good": False, "part": part})
                ops.append({"op": "call", "id": i, "good": True, "part": part})
    return {"type": "life", "ops": ops, "observe": False}
