"""The simulated process around the package: restart, files, libraries, solver."""
import builtins
import contextlib
import gc
import importlib
import io
import os
import random
import shutil
import sys
import tempfile
import time
import types
import typing

REPO = os.environ.get("ASTA_SIM_REPO", "/repo")

DEFAULTS = {
    "on": "yes",
    "raise-errors": "yes",
    "print-passes": "yes",
    "check-non-asta-types": "no",
    "check-all-sequence-elements": "yes",
}


def make_torch_stub():
    """A stand-in for torch with the parts that annotations touch."""
    mod = types.ModuleType("torch")
    mod.__is_sim_stub__ = True

    class dtype:
        def __init__(self, name):
            self.name = name

        def __repr__(self):
            return "torch." + self.name

    class Size(tuple):
        def __repr__(self):
            return "torch.Size(%s)" % list(self)

    class Tensor:
        def __init__(self, shape, dt):
            self.shape = Size(shape)
            self.dtype = dt

        def __hash__(self):
            # By identity in the real library; addresses differ between runs.
            return hash(tuple(self.shape))

    mod.dtype = dtype
    mod.Size = Size
    mod.Tensor = Tensor
    for name in (
        "int8", "int16", "int32", "int64", "uint8", "bool",
        "float16", "float32", "float64", "complex64", "complex128",
    ):
        setattr(mod, name, dtype(name))
    return mod


class Clock:
    """ The time that code of the package under test sees: it runs with the steps and jumps on request. """

    REAL = {n: getattr(time, n) for n in (
        "time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time", "thread_time", "sleep")}

    def __init__(self, inst):
        self.inst = inst
        self.reset()
        for name, real in self.REAL.items():
            setattr(time, name, self.wrap(name, real))

    def reset(self):
        self.wall = 1.6e9  # seconds since the epoch
        self.mono = 1000.0

    def jump(self, by):
        """ The wall clock may go back, the others can't. """
        self.wall += by
        self.mono += max(by, 0)

    def wrap(self, name, real):
        def read(*args):
            frame = sys._getframe(1)
            if not self.inst.covers(frame.f_code.co_filename):
                return real(*args)
            if name == "sleep":
                return self.jump(*args)
            self.jump(1e-5)
            now = self.wall if name.startswith("time") else self.mono
            return int(now * 1e9) if name.endswith("_ns") else now

        return read


class FailingFinder:
    """ Makes the import of one library fail. """

    def __init__(self, name, how):
        self.name = name
        self.how = how

    def find_spec(self, fullname, path=None, target=None):
        if fullname == self.name:
            if self.how == "notfound":
                raise ModuleNotFoundError("No module named %r" % self.name, name=self.name)
            raise ImportError("lib%s.so.2: injected: cannot open shared object file" % self.name, name=self.name)
        return None


class World:
    """Owns everything global that a simulated process start resets."""

    def __init__(self, inst):
        self.inst = inst
        self.clock = Clock(inst)
        self.base = tempfile.mkdtemp(prefix="asta_sim_")
        self.home = os.path.join(self.base, "home")
        self.cwd = os.path.join(self.base, "cwd")
        self.reset_dirs()
        self.tf = None
        self.torch_stub = make_torch_stub()
        self.banner = ""
        self.asta = None
        self.starts = 0
        self.solve_calls = 0
        self._memo = {}
        self._real_solve = None
        sys.dont_write_bytecode = True
        repo = os.path.realpath(REPO)
        sys.path[:] = [repo] + [p for p in sys.path if os.path.realpath(p or ".") != repo]

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.base, ignore_errors=True)

    def reset_dirs(self):
        os.chdir("/")
        shutil.rmtree(self.home, ignore_errors=True)
        shutil.rmtree(self.cwd, ignore_errors=True)
        os.makedirs(self.home)
        os.makedirs(self.cwd)
        os.chdir(self.cwd)
        os.environ["HOME"] = self.home
        os.environ.pop("ASTARC", None)
        os.environ.pop("ASTA_TYPECHECK", None)

    def load_tf(self):
        if self.tf is None:
            sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, FailingFinder)]
            if sys.modules.get("tensorflow", 0) is None:
                del sys.modules["tensorflow"]
            import tensorflow

            self.tf = tensorflow

    def memo_solve(self, on):
        """ sympy's solver is a pure function: answer repeated systems from a table. """
        import sympy.solvers as ss

        if self._real_solve is None:
            self._real_solve = ss.solve
        if not on:
            ss.solve = self._real_solve
            return
        real = self._real_solve
        memo = self._memo

        def solve(f, *symbols, **flags):
            try:
                key = (
                    frozenset(f) if isinstance(f, (set, frozenset)) else tuple(f),
                    tuple(
                        frozenset(s) if isinstance(s, (set, frozenset)) else
                        tuple(s) if isinstance(s, list) else s
                        for s in symbols
                    ),
                    tuple(sorted(flags.items())),
                )
                hit = memo.get(key)
            except TypeError:
                return real(f, *symbols, **flags)
            if hit is None:
                if len(memo) > 20000:
                    memo.clear()
                hit = memo[key] = real(f, *symbols, **flags)
            if isinstance(hit, list):
                return [dict(h) if isinstance(h, dict) else h for h in hit]
            return hit

        ss.solve = solve

    def purge(self):
        for name in [m for m in sys.modules if m == "asta" or m.startswith("asta.")]:
            del sys.modules[name]
        for fn in typing._cleanups:
            fn()

    def set_libs(self, tf, torch):
        """tf/torch: True (present), False (absent), or how the import fails."""
        sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, FailingFinder)]
        if tf is True:
            self.load_tf()
        for name, state, real in (("tensorflow", tf, self.tf), ("torch", torch, self.torch_stub)):
            if state is True:
                sys.modules[name] = real
            elif state is False:
                sys.modules[name] = None
            else:
                sys.modules.pop(name, None)
                sys.meta_path.insert(0, FailingFinder(name, state))

    def start(self, tf=False, torch=False, capture=True):
        """ Start a process: import the package afresh.  Returns (error, banner). """
        self.starts += 1
        random.seed(12345)
        sys.modules["numpy"].random.seed(12345)
        self.purge()
        self.set_libs(tf, torch)
        buf = io.StringIO()
        err = None
        try:
            with contextlib.redirect_stdout(buf):
                asta = importlib.import_module("asta")
                for sub in ("dims", "shapes", "symbols", "decorators"):
                    importlib.import_module("asta." + sub)
        except BaseException as exc:  # pylint: disable=broad-except
            if isinstance(exc, (KeyboardInterrupt,)) and "injected" not in str(exc):
                raise
            err = exc
            asta = None
        self.asta = asta
        self.banner = buf.getvalue()
        if asta is not None:
            self.dims = sys.modules["asta.dims"]
            self.shapes = sys.modules["asta.shapes"]
            self.symbols = sys.modules["asta.symbols"]
        return err, self.banner

    def write_config(self, opts):
        path = os.path.join(self.cwd, "astarc")
        if opts is None:
            if os.path.exists(path):
                os.unlink(path)
            return
        with open(path, "w") as handle:
            handle.write("[MASTER]\n\n")
            for key, val in sorted(opts.items()):
                handle.write("%s=%s\n" % (key, val))
