"""Generates programs: a pure function of (profile, seed)."""
import json
import random

from . import model
from .execu import EXTRAS

DIMS = ["D", "E", "F"]
SHAPES = ["S", "T", "U"]
SYMS = ["X", "Y", "Z"]
NP_DTYPES = [
    ("py:int", "int64"), ("py:float", "float64"), ("py:bool", "bool"), ("py:complex", "complex128"),
    ("npt:float32", "float32"), ("np:float32", "float32"), ("np:int32", "int32"), ("npt:int64", "int64"),
    ("np:uint8", "uint8"), ("npt:float64", "float64"), ("np:>f8", ">f8"), ("npt:float16", "float16"),
]
NP_KINDS = [("py:str", "<U3"), ("py:bytes", "S2"), ("py:object", "O"), ("py:str", "<U5"), ("py:str", ">U3")]
TF_DTYPES = [
    ("py:int", "int32"), ("py:float", "float32"), ("py:bool", "bool"), ("py:str", "string"),
    ("tf:float64", "float64"), ("tf:int64", "int64"), ("tf:float32", "float32"),
]
TORCH_DTYPES = [
    ("py:int", "int32"), ("py:float", "float32"), ("py:bool", "bool"),
    ("torch:float64", "float64"), ("torch:int64", "int64"), ("torch:float32", "float32"),
]
# Types of arrays which are easily mistaken for each other.
TWINS = {
    "py:str": ["np:<U0", "np:<U3", None], "np:<U0": ["py:str", "np:<U3"], "np:<U3": ["py:str", "np:<U5"],
    "py:bytes": ["np:S0", "np:S2"], "np:S0": ["py:bytes"], "np:S2": ["py:bytes", "np:S0"],
    "py:object": ["np:O"], "np:O": ["py:object"], "np:<U5": ["py:str", "np:<U3"],
    "py:float": ["npt:float64", "npt:float32", None], "npt:float64": ["py:float", None], "py:int": ["npt:int64", "py:bool"],
    "py:bool": ["py:int"], "npt:float32": ["np:float32", "py:float"], "np:float32": ["npt:float32"],
}
ALT = {
    "np": ["int64", "float64", "float32", "int32", "bool", "complex128", "<U3", "S2", "O", "uint8", "int64", "float64",
           "float32", "int32", "bool", "<U3", ">f8", ">i4", ">U3", "float16"],
    "tf": ["int32", "float32", "float64", "int64", "bool", "string"],
    "torch": ["int32", "float32", "float64", "int64", "bool"],
}
BAD_DIMS = ["float", "str", "none", "npint", "list", "tuple", "complex", "dict"]
BAD_SHAPES = [
    "list", "int", "none", "str", "floatelem", "noneelem", "strelem", "npelem", "nested", "dots",
    "set", "lastbad",
]
HUGE = [2 ** 31, 2 ** 32, 2 ** 61 - 1, 2 ** 61 - 1, 2 ** 63, 10 ** 20]
EXCS = ["KeyboardInterrupt", "MemoryError", "SystemExit", "RecursionError"]
WEXCS = ["BrokenPipeError", "ENOSPC", "ClosedStream", "EINTR"]
USER = [
    "TypeError", "FakeFail", "ValueError", "KeyError", "AttributeError", "StopIteration", "UserError",
    "UserBase", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "AssertionError", "MemoryError",
    "Recursion",
]
WRONG = [
    {"k": "none"}, {"k": "int", "v": 3}, {"k": "str", "v": "ab"}, {"k": "obj"}, {"k": "npscalar"},
    {"k": "bytes"}, {"k": "float", "v": 1.5}, {"k": "list", "v": []}, {"k": "tup", "v": []},
    {"k": "dict", "v": {}}, {"k": "str", "v": ""},
]

# Weights of the kinds of sizes in an annotation.
ALLF = {
    "lit": 5, "any": 2, "dots": 2, "dim": 4, "dimexpr": 2, "sym": 4, "symexpr": 2, "mixed": 1,
    "shape": 3, "shapecat": 2, "star": 1, "ref": 1, "hard": 0,
}


def profile(**kw):
    base = {
        "feats": dict(ALLF), "containers": 0.3, "tf": 0.0, "torch": 0.0,
        "ops": {"call": 10, "setdim": 3, "setshape": 3, "getdim": 1, "getshape": 1, "def": 1},
        "fault": 0.0, "bodyraise": 0.06, "nest": 0.35, "ret": 0.5, "any_ann": 0.1,
        "threads": [1, 2, 2, 3], "badval": 0.0, "config": "raise", "near": 0.4, "assign": 0.8,
        "dtypes": 0.5, "reports": False, "late": 0.25, "methods": 0.15, "unions": True,
        "zero": 0.08, "finals": 2, "bodyset": 0.35, "symdim": 0.1, "wrong": 0.1,
    }
    base.update(kw)
    return base


def feats(*names, lit=3):
    return {k: (v if k in names else (lit if k == "lit" else 0)) for k, v in ALLF.items()}


DIMF = feats("lit", "any", "dots", "dim", "dimexpr", "mixed")
DIMF.update(dim=8, dimexpr=4, any=1, dots=1, mixed=1)
SHF = feats("lit", "any", "dots", "shape", "shapecat", "star", "ref")
SHF.update(shape=6, shapecat=5, star=3, ref=5, any=1, dots=1)
SYMF = feats("lit", "any", "dots", "sym", "symexpr")
SYMF.update(sym=8, symexpr=4, any=1, dots=1)
NAMEF = feats("lit", "dim", "dimexpr", "shape", "shapecat", "ref", "star", "mixed")

PROFILES = {
    "C01": profile(rhyme=0.06, feats=DIMF, symdim=0.2, ops={"call": 10, "setdim": 6, "getdim": 3, "def": 1, "agree": 0},
                   fault=0.0, bodyraise=0.03),
    "C02": profile(feats=SHF, ops={"call": 10, "setshape": 6, "getshape": 3, "def": 1}, bodyraise=0.03),
    "C03": profile(rhyme=0.12, feats=SYMF, ops={"call": 12, "setdim": 1, "isinst": 2, "def": 1}, bodyraise=0.1, nest=0.6,
                   fault=0.04, ret=0.6, badval=0.0, symdim=0.0),
    "C04": profile(near=0.75, containers=0.5, threads=[1, 1, 2, 3], wrong=0.2),
    "C05": profile(near=0.1, containers=0.45, any_ann=0.25, bodyraise=0.2, nest=0.45, wrong=0.02, ret=0.7),
    "C06": profile(fault=0.35, bodyraise=0.2, finals=4, threads=[1, 1, 2, 3], badval=0.1),
    "C20": profile(classes=0.9, threads=[1, 1, 2, 3], near=0.4, containers=0.25, bodyraise=0.08, nest=0.4, nfun=[2, 3, 4, 5, 7], config="mix",
                   late=0.15, fault=0.03, zero=0.02, feats=dict(ALLF, shape=1, shapecat=1, star=0, ref=0)),
    "C20R": profile(config="reports", reports=True, classes=0.9, nest=0.4, near=0.4, bodyraise=0.08, wrong=0.1, nfun=[2, 3, 4, 5], late=0.15,
                    zero=0.02, feats=dict(ALLF, shape=1, shapecat=1, star=0, ref=0)),
    "C06R": profile(config="reports", reports=True, fault=0.3, bodyraise=0.25, finals=4, threads=[1, 2, 2, 3], nest=0.5),
    "C06S": profile(config="soft", fault=0.3, bodyraise=0.2, finals=4, threads=[1, 2, 2, 3]),
    "C09": profile(config="soft", near=0.5, containers=0.45, wrong=0.25),
    "C10": profile(config="reports", reports=True, nest=0.55, near=0.4, bodyraise=0.12, fault=0.05, wrong=0.1),
    "C11": profile(feats=NAMEF, assign=0.25, ops={"call": 10, "setdim": 2, "setshape": 2, "getdim": 2, "getshape": 2, "def": 2},
                   badval=0.45, config="mix", near=0.3, bodyraise=0.03),
    "C12": profile(feats=NAMEF, assign=0.6, badval=0.6, ops={"call": 8, "setdim": 6, "setshape": 6, "getdim": 4, "getshape": 4, "def": 1},
                   bodyraise=0.03, threads=[1, 2, 2, 3]),
    "C13": profile(ops={"call": 8, "isinst": 5, "setdim": 1, "def": 1}, dtypes=0.6, near=0.5, containers=0.25,
                   threads=[1, 1, 2], config="mix", bodyraise=0.02, ret=0.3, nest=0.2),
    "C14": profile(rhyme=0.15, feats=dict(feats("lit", "any", "dots", "sym", "symexpr", "dim", "dimexpr"), lit=5, any=4, dots=4, dim=1,
                               dimexpr=1), containers=0.0, symdim=0.4,
                   ops={"isinst": 10, "agree": 5, "call": 3, "setdim": 1, "ann": 2, "derive": 3, "use": 1}, fault=0.04, dtypes=0.75, near=0.5, tf=0.15,
                   torch=0.15, zero=0.15, ret=0.2, any_ann=0.0, unions=False),
    "C16": profile(feats=dict(feats("lit", "any", "dots", "dim", "sym", "symexpr", "shape", "mixed"), hard=8, sym=3, symexpr=2,
                               dim=1, shape=1, any=1, dots=1, lit=1),
                   ops={"call": 8, "isinst": 4, "def": 1, "setdim": 1}, threads=[1], near=0.35, bodyraise=0.02, nest=0.2,
                   containers=0.25, ret=0.4, symdim=0.25, late=0.1, zerodim=True, assign=0.6, dtypes=0.2, wrong=0.05),
    "C15": profile(rhyme=0.12, feats=ALLF, symdim=0.5, ops={"ann": 5, "derive": 6, "hash": 4, "repr": 1, "eq": 5, "wrap": 3, "use": 7, "isinst": 3,
                                    "call": 3, "setdim": 1, "setshape": 1}, dtypes=0.8, containers=0.2, tf=0.1, torch=0.1),
}


class Gen:
    def __init__(self, prof, seed, prob=None):
        self.p = prof
        self.rng = random.Random(seed)
        self.dim_now = {}
        self.shape_now = {}
        r = self.rng
        # Small pools make values come back and collide.
        self.dimpool = {d: [r.choice([1, 2, 3, 4, 5]) for _ in range(r.choice([1, 2, 2, 3]))] for d in DIMS}
        for d in DIMS:
            if r.random() < 0.1:
                self.dimpool[d].append(r.choice([0, 7, 100, -3, 1000]))
        self.shapepool = {
            s: [self.rand_shape(r.choice([0, 1, 1, 2, 2, 3])) for _ in range(r.choice([2, 2, 3]))] for s in SHAPES
        }
        self.feats = dict(prof["feats"])
        # Swarm: drop some features per program.
        for k in list(self.feats):
            if self.feats[k] and k != "lit" and r.random() < 0.3:
                self.feats[k] = 0
        # ... but keep what the profile is about.
        if not any(v for k, v in self.feats.items() if k not in ("lit", "any", "dots")):
            self.feats = dict(prof["feats"])
        self.ndims = r.choice([1, 2, 3])
        self.dims = DIMS[: r.choice([1, 1, 2, 3] if not prof.get("zerodim") else [1, 2, 2, 3])]
        if prof.get("zerodim"):
            for d in self.dims:
                if r.random() < 0.5:
                    self.dimpool[d] = [0] + self.dimpool[d][:1]
        self.shapes = SHAPES[: r.choice([1, 2, 2, 3])]
        self.syms = list(SYMS[: r.choice([1, 2, 2, 3] if not prof.get("zerodim") else [1, 2, 3, 3])])
        if r.random() < prof["symdim"] or (prof is PROFILES["C03"] and r.random() < 0.25):
            self.syms.append(r.choice(DIMS))
            if r.random() < 0.4:
                self.syms = list(self.dims)
        self.lens = [0, 1, 1, 2, 2, 2, 3, 3, 4]
        if r.random() < prof.get("rhyme", 0):
            # Dims and symbols of one name in small annotations.
            self.dims, self.syms = DIMS[:1], DIMS[:1]
            self.feats = dict(feats("dim", "sym", "dimexpr", "symexpr", lit=0), dim=2, sym=4, dimexpr=1, symexpr=2, any=0.2)
            self.lens = [1, 1, 1, 2]
            self.p = prof = dict(prof, containers=0.05, dtypes=0.1, assign=0.3, any_ann=0.0, threads=[1, 1, 2], near=0.6,
                                 wrong=0.03, rhyming=True, bodyraise=0.02, ops=dict(prof["ops"], isinst=6, call=12, setdim=1,
                                                                                    agree=0, ann=0, derive=0))
        self.tf = r.random() < prof["tf"]
        self.torch = r.random() < prof["torch"]
        self.shobjs = []
        self.checked = []  # annotations and values of isinstance
        self.pick = None  # which values of the names conforming arguments follow
        self.hist = {}
        self.nts = 0
        self.nhard = 0
        self.slots = 0

    def w(self, table):
        items = [(k, v) for k, v in table.items() if v > 0]
        total = sum(v for _, v in items)
        x = self.rng.random() * total
        for k, v in items:
            x -= v
            if x <= 0:
                return k
        return items[-1][0]

    def rand_shape(self, n):
        out = [self.rng.choice([1, 2, 3, 4]) for _ in range(n)]
        if n and self.rng.random() < 0.04:
            out[self.rng.randrange(n)] = self.rng.choice([0, -1])
        return out

    def size(self):
        r = self.rng
        if r.random() < self.p["zero"]:
            return 0
        return r.choice([1, 2, 2, 3, 3, 4, 5])

    # -- annotations -------------------------------------------------------
    def dim_leaf(self):
        return {"d": self.rng.choice(self.dims)}

    def sym_leaf(self):
        return {"s": self.rng.choice(self.syms)}

    def one_expr(self, leaf):
        r = self.rng
        k = r.randrange(9)
        if k == 0:
            return {"op": "+", "a": leaf(), "b": r.choice([1, 2, 3])}
        if k == 1:
            return {"op": "*", "a": leaf(), "b": r.choice([2, 3])}
        if k == 2:
            return {"op": "-", "a": leaf(), "b": 1}
        if k == 3:
            return {"op": "+", "a": leaf(), "b": leaf()}
        if k == 4:
            return {"op": "*", "a": leaf(), "b": leaf()}
        if k == 5:
            return {"op": "+", "a": {"op": "*", "a": leaf(), "b": 2}, "b": r.choice([1, leaf()])}
        if k == 6:
            return {"op": "**", "a": leaf(), "b": 2}
        if k == 7:
            return {"op": "-", "a": leaf(), "b": leaf()}
        return {"op": "/", "a": leaf(), "b": 2}

    def hard_expr(self):
        """ Sizes outside what a simple solver can do. """
        r = self.rng
        leaf = self.sym_leaf if r.random() < 0.85 or not self.dims else self.dim_leaf
        a, b, c = leaf(), leaf(), self.sym_leaf()

        def op(o, x, y):
            return {"op": o, "a": x, "b": y}

        if r.random() < 0.2 and len(self.dims) > 1:
            # A product with a dimension which may be 0 or unassigned.
            x, y = r.sample(self.dims, 2)
            e = op("*", {"d": x}, {"d": y})
            return op("+", e, {"d": r.choice(self.dims)}) if r.random() < 0.2 else e
        if r.random() < 0.25 and len(self.syms) > 1:
            # Fewer equations than symbols.
            e = None
            for n in r.sample(self.syms, r.choice([2, len(self.syms), len(self.syms)])):
                e = {"s": n} if e is None else op(r.choice("++-"), e, {"s": n})
            return e
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13])
        if k == 0:
            return op("*", a, b)
        if k == 1:
            return op("+", op("**", a, 2), b)
        if k == 2:
            return op("+", op("*", a, b), c)
        if k == 3:
            return op("*", op("+", a, 1), op("-", b, 1))
        if k == 4:
            return op("+", op("*", a, 2), op("*", b, 3))
        if k == 5:
            return op("-", op("**", a, 2), op("**", b, 2))
        if k == 6:
            return op("-", a, b)
        if k == 7:
            return op("+", op("**", a, 2), op("**", b, 2))
        if k == 8:
            return op("+", op("**", a, 2), a)
        if k == 10:
            return op("+", op("+", a, b), c)
        if k == 11:
            return op("/", op("*", a, b), 2)
        if k == 12:
            return op("/", a, c)
        return op("-", op("*", a, op("+", a, 1)), b)

    def mixed(self):
        r = self.rng
        d, s = self.dim_leaf(), self.sym_leaf()
        return r.choice([
            {"op": "+", "a": s, "b": d}, {"op": "*", "a": s, "b": d}, {"op": "-", "a": s, "b": d},
            {"op": "+", "a": {"op": "*", "a": d, "b": 2}, "b": s},
        ])

    def shape_expr(self, depth=0):
        r = self.rng
        x = r.random()
        if x < 0.5 or depth > 2:
            return {"sh": r.choice(self.shapes)}
        if x < 0.7 and depth > 0:
            return {"tup": [self.plain_size() for _ in range(r.choice([0, 1, 1, 2]))]}
        parts = [self.shape_expr(depth + 1) for _ in range(r.choice([2, 2, 3]))]
        if all("tup" in p for p in parts):
            parts[r.randrange(len(parts))] = {"sh": r.choice(self.shapes)}
        return {"cat": parts}

    def plain_size(self):
        """ A size for a tuple inside a concatenation: integer, symbol, dim. """
        r = self.rng
        kinds = [k for k in ("dim", "sym") if self.feats.get(k)]
        if kinds and r.random() < 0.3:
            return self.dim_leaf() if r.choice(kinds) == "dim" else self.sym_leaf()
        return self.size() or 1

    def shape(self):
        r = self.rng
        n = r.choice(self.lens)
        out = []
        whole = False
        for _ in range(n):
            k = self.w(self.feats)
            if k == "lit":
                out.append(self.size())
            elif k == "any":
                out.append(-1)
            elif k == "dots":
                if not out or out[-1] != "...":
                    out.append("...")
            elif k == "dim":
                out.append(self.dim_leaf())
            elif k == "dimexpr":
                out.append(self.one_expr(self.dim_leaf))
            elif k == "sym":
                out.append(self.sym_leaf())
            elif k == "symexpr":
                out.append(self.one_expr(self.sym_leaf))
            elif k == "mixed":
                out.append(self.mixed())
            elif k == "hard":
                out.append(self.hard_expr())
            elif k == "shape":
                out.append({"sh": r.choice(self.shapes)})
            elif k == "shapecat":
                out.append(self.shape_expr(0))
            elif k == "star":
                out.append({"star": self.shape_expr(1) if r.random() < 0.4 else {"sh": r.choice(self.shapes)}})
            elif k == "ref":
                if not self.shobjs:
                    out.append({"sh": r.choice(self.shapes)})
                else:
                    out.append({"ref": r.randrange(len(self.shobjs))})
        del whole
        if self.p["feats"].get("hard"):
            # Few at a time: sympy may need minutes for roots of high degree.
            for i, e in enumerate(out):
                if isinstance(e, dict) and nonlinear(e):
                    self.nhard += 1
                    if self.nhard > 2:
                        out[i] = self.sym_leaf()
        return fix_star(out)

    def backend(self):
        r = self.rng
        opts = ["np", "np"]
        if self.tf:
            opts.append("tf")
        if self.torch:
            opts += ["torch", "torch"]
        return r.choice(opts)

    def arr(self):
        r = self.rng
        be = self.backend()
        dt = None
        if r.random() < self.p["dtypes"]:
            dt = self.any_dtype(be)
        if r.random() < 0.06:
            return {"k": "arr", "be": be, "dt": dt, "shape": None}
        shape = self.shape()
        a = {"k": "arr", "be": be, "dt": dt, "shape": shape}
        x = r.random()
        if not shape:
            a["form"] = r.choice(["scalar", "whole"])
        elif x < 0.15 and not has_tuple_risk(shape):
            a["form"] = "tuple"
        elif x < 0.3 and dt is not None:
            a["form"] = "chain"
        elif be != "np" and all(type(e) is int and e >= 0 for e in shape):
            a["form"] = "size"  # a torch.Size or tf.TensorShape
        return a

    def any_dtype(self, be):
        r = self.rng
        if be == "np":
            if r.random() < 0.12:
                return r.choice(NP_KINDS)[0]
            return r.choice(NP_DTYPES)[0]
        return r.choice(TF_DTYPES if be == "tf" else TORCH_DTYPES)[0]

    def ann(self, depth=0, in_union=False):
        r = self.rng
        if depth < 3 and r.random() < self.p["containers"] / (depth + 1) ** 0.5:
            self.nhard += 1
            k = r.choice(["list", "list", "tup", "tup", "vtup", "dict", "opt", "union", "seq", "nt", "td", "set"])
            if k == "set" and not self.torch:
                k = "td"
            if k in ("opt", "union") and (in_union or not self.p["unions"]):
                k = "list"
            builtin = r.random() < 0.4
            if k in ("list", "vtup", "dict", "seq"):
                a = {"k": k, "of": self.ann(depth + 1, in_union)}
                if builtin:
                    a["form"] = "builtin"
                return a
            if k == "opt":
                if self.p["reports"]:
                    a = {"k": "opt", "of": self.arr()}
                else:
                    a = {"k": "opt", "of": self.ann(depth + 1, True)}
                if r.random() < 0.4:
                    a["form"] = "pipe"
                return a
            if k == "tup":
                a = {"k": "tup", "of": [self.ann(depth + 1, in_union) for _ in range(r.choice([1, 2, 2, 3]))]}
                if builtin:
                    a["form"] = "builtin"
                return a
            if k == "union":
                # Types which no value matches at once: different array dtypes.
                forms = r.sample(["py:int", "py:float", "py:bool", "npt:float32", "np:int32"], r.choice([2, 2, 3]))
                alts = []
                for f in forms:
                    shape = self.shape() if r.random() < 0.8 else None
                    alts.append({"k": "arr", "be": "np", "dt": f, "shape": shape})
                if not self.p["reports"] and r.random() < 0.3:
                    alts.append({"k": "list", "of": self.ann(depth + 1, True)})
                if r.random() < 0.2:
                    alts.append({"k": "none"})
                if not self.p["reports"] and r.random() < 0.4:
                    # One part may match before the other tells the types apart.
                    for i, a in enumerate(alts):
                        if a["k"] == "arr":
                            pair = [self.arr(), a]
                            if r.random() < 0.3:
                                pair.reverse()
                            alts[i] = {"k": "tup", "of": pair}
                r.shuffle(alts)
                return {"k": "union", "of": alts}
            if k == "set":
                # Only tensors can be elements: arrays have no hash.
                a = self.arr()
                for _ in range(20):
                    a = a if a["be"] == "torch" else self.arr()
                return {"k": "set", "of": a, "form": r.choice(["typing", "builtin", "abs"])}
            if k == "nt":
                self.nts += 1
                a = {"k": "nt", "n": self.nts, "of": [self.ann(depth + 1, in_union) for _ in range(r.choice([1, 2]))]}
                if r.random() < 0.2:
                    a["sub"] = True
                return a
            a = {"k": "td", "of": {"k%d" % i: self.ann(depth + 1, in_union) for i in range(r.choice([1, 2, 2, 3]))}}
            if r.random() < 0.3:
                a["total"] = False
            keys = list(a["of"])
            if r.random() < 0.25:
                a["inh"] = r.sample(keys, r.randrange(1, len(keys) + 1))
                if r.random() < 0.5:
                    a["base_total"] = False
            if r.random() < 0.25:
                a[r.choice(["req", "nreq"])] = r.sample(keys, 1)
            return a
        if r.random() < self.p["any_ann"] and not in_union:
            a = {"k": r.choice(["any", "int", "str", "float", "callable", "iter", "literal", "type", "object", "none",
                                "list", "seq", "dict"])}
            if a["k"] in ("list", "seq", "dict"):
                a["form"] = "bare"
                a["of"] = {"k": "any"}
            return a
        return self.arr()

    # -- values ------------------------------------------------------------
    def env(self):
        if self.pick is not None:
            out = {"s": {}, "d": {}, "sh": {}}
            for key, names, pool in (("d", DIMS, self.dimpool), ("sh", SHAPES, self.shapepool)):
                for n in names:
                    h = self.hist.get(n)
                    if not h:
                        out[key][n] = self.rng.choice(pool[n])
                    else:
                        out[key][n] = h[-1] if self.pick == "last" else self.rng.choice(h)
            return out
        return {
            "s": {},
            "d": {d: (self.dim_now.get(d) if self.dim_now.get(d) is not None and self.rng.random() < 0.85
                      else self.rng.choice(self.dimpool[d])) for d in DIMS},
            "sh": {s: (self.shape_now.get(s) if self.shape_now.get(s) is not None and self.rng.random() < 0.85
                       else self.rng.choice(self.shapepool[s])) for s in SHAPES},
        }

    def eval(self, e, env):
        r = self.rng
        if isinstance(e, int):
            return e
        if "d" in e:
            return env["d"][e["d"]]
        if "s" in e:
            if e["s"] not in env["s"]:
                env["s"][e["s"]] = r.choice([1, 2, 2, 3, 3, 4, 5])
            return env["s"][e["s"]]
        a, b = self.eval(e["a"], env), self.eval(e["b"], env)
        if a is None or b is None:
            return None
        op = e["op"]
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "**":
            return a ** b
        return a // b if b and a % b == 0 else None

    def resolve(self, se, env):
        if "ref" in se:
            return self.resolve(self.shobjs[se["ref"]], env)
        if "sh" in se:
            return list(env["sh"][se["sh"]])
        if "tup" in se:
            return list(se["tup"])
        out = []
        for s in se["cat"]:
            out += self.resolve(s, env)
        return out

    def fit_shape(self, shape, env):
        r = self.rng
        out = []
        for e in shape:
            if e == "...":
                out += [r.choice([1, 2, 3]) for _ in range(r.choice([0, 0, 1, 2]))]
            elif e == -1:
                out.append(r.choice([1, 2, 3, 4]))
            elif isinstance(e, dict) and ("sh" in e or "cat" in e or "ref" in e):
                out += self.fit_shape(self.resolve(e, env), env)
            elif isinstance(e, dict) and "star" in e:
                out += self.fit_shape(self.resolve(e["star"], env), env)
            else:
                n = self.eval(e, env)
                if n is None or n < 0:
                    n = r.choice([1, 2])
                out.append(min(n, 4000))
        return out

    def fit(self, a, env):
        """ A value meant to match. """
        r = self.rng
        k = a["k"]
        if k == "arr":
            shape = a["shape"]
            if shape is None:
                s = [r.choice([1, 2, 3]) for _ in range(r.choice([0, 1, 2]))]
            else:
                s = self.fit_shape(shape, env)
            return {"k": "arr", "be": a["be"], "dt": self.fit_dtype(a["be"], a["dt"]), "shape": tame(s)}
        if k in ("list", "vtup", "seq"):
            if a.get("form") == "bare":
                return {"k": "list", "v": [{"k": "int", "v": 1}]}
            n = r.choice([0, 1, 2, 2, 3])
            if r.random() < 0.04 and a["of"]["k"] == "arr" and not self.p["feats"].get("hard"):
                n = r.choice([8, 12, 20, 33])
            vals = [self.fit(a["of"], env) for _ in range(n)]
            kind = {"list": "list", "vtup": "tup", "seq": r.choice(["list", "tup", "list", "tup", "row", "deque"])}[k]
            return {"k": kind, "v": vals}
        if k == "tup":
            return {"k": "tup", "v": [self.fit(x, env) for x in a["of"]]}
        if k == "nt":
            v = {"k": "nt", "cls": nt_key(a), "v": [self.fit(x, env) for x in a["of"]]}
            if r.random() < 0.1:
                v["sub"] = True
            return v
        if k == "set":
            return {"k": "set", "v": [self.fit(a["of"], env) for _ in range(r.choice([0, 1, 1, 2]))]}
        if k == "dict":
            if a.get("form") == "bare":
                return {"k": "dict", "v": {"a": {"k": "int", "v": 1}}}
            return {"k": "dict", "v": {key: self.fit(a["of"], env) for key in "abc"[: r.choice([0, 1, 2])]}}
        if k == "td":
            must = model.required(a)
            return {"k": "dict", "v": {key: self.fit(x, env) for key, x in a["of"].items() if key in must or r.random() < 0.6}}
        if k == "opt":
            if r.random() < 0.3:
                return {"k": "none"}
            return self.fit(a["of"], env)
        if k == "union":
            return self.fit(r.choice(a["of"]), env)
        if k in ("any", "object"):
            return r.choice([{"k": "int", "v": 1}, {"k": "obj"}, {"k": "str", "v": "a"}])
        if k == "int":
            return {"k": "int", "v": r.choice([0, 1, 7])}
        if k == "str":
            return {"k": "str", "v": "s"}
        if k == "float":
            return {"k": "float", "v": 0.5}
        if k == "callable":
            return {"k": "callable"}
        if k == "iter":
            return {"k": "iter", "v": [1, 2, 3]}
        if k == "literal":
            return {"k": "str", "v": "a"}
        if k == "type":
            return {"k": "type"}
        return {"k": "none"}

    def fit_dtype(self, be, dt):
        r = self.rng
        if dt is None:
            return r.choice(ALT[be])
        table = {"np": NP_DTYPES + NP_KINDS, "tf": TF_DTYPES, "torch": TORCH_DTYPES}[be]
        have = [h for w, h in table if w == dt]
        if not have:
            name = dt.split(":", 1)[1]
            have = [{"<U0": "<U3", "S0": "S2"}.get(name, name)]
        return r.choice(have)

    def wrong(self, a, v, env, depth=0):
        """ Change a value a little, so that it may no longer match. """
        r = self.rng
        k = v.get("k")
        if k == "arr" and (a["k"] == "arr" or r.random() < 0.9):
            if r.random() < self.p["wrong"]:
                return r.choice(WRONG)
            x = r.random()
            s = list(v["shape"])
            v = dict(v)
            if x < 0.2:
                v["dt"] = r.choice(ALT[v["be"]])
                return v
            if x < 0.25 and (self.tf or self.torch):
                be = self.backend()
                v["be"], v["dt"] = be, r.choice(ALT[be])
                return v
            if s and x < 0.65:
                i = r.randrange(len(s))
                s[i] = max(0, s[i] + r.choice([1, -1, 1, -1, 2]))
            elif s and x < 0.75:
                del s[r.randrange(len(s))]
            elif x < 0.85:
                s.insert(r.randrange(len(s) + 1), r.choice([1, 2, 3]))
            elif s and x < 0.9:
                s[r.randrange(len(s))] = 0
            elif len(s) > 1:
                i, j = r.sample(range(len(s)), 2)
                s[i], s[j] = s[j], s[i]
            else:
                s.append(2)
            v["shape"] = tame(s)
            return v
        if a["k"] == "td" and k == "dict" and r.random() < 0.3:
            coll = dict(v["v"])
            if coll and r.random() < 0.6:
                del coll[r.choice(list(coll))]
            else:
                coll["zz"] = {"k": "int", "v": 1}
            return dict(v, v=coll)
        if k in ("list", "tup", "nt", "dict", "row", "deque", "set") and v["v"] and r.random() < 0.8:
            subs = list(v["v"]) if k == "dict" else list(range(len(v["v"])))
            key = r.choice(subs)
            sub = a.get("of")
            if a["k"] in ("tup", "nt"):
                sub = a["of"][key] if key < len(a["of"]) else a["of"][0]
            elif a["k"] == "td":
                sub = a["of"].get(key, {"k": "any"})
            elif a["k"] in ("opt", "union"):
                sub = {"k": "any"}
            if isinstance(sub, dict) and sub.get("k") in NOT_WRONG and (sub["k"] == "any" or r.random() < 0.5):
                return v
            new = self.wrong(sub if isinstance(sub, dict) and "k" in sub else {"k": "arr"}, v["v"][key], env, depth + 1)
            if k == "set" and (new["k"] in ("list", "dict", "tup") or new.get("be", "torch") != "torch"):
                new = {"k": "int", "v": 3}  # elements must have a hash
            coll = dict(v["v"]) if k == "dict" else list(v["v"])
            coll[key] = new
            return dict(v, v=coll)
        if a["k"] == "none_ret" or ((a["k"] in NOT_WRONG or a.get("form") == "bare") and r.random() < 0.5):
            return v
        if k == "tup" and v["v"] and r.random() < 0.5:
            return dict(v, v=v["v"][:-1])
        if k == "list" and r.random() < 0.4:
            return {"k": r.choice(["tup", "row", "deque"]), "v": v["v"]}
        if k == "tup" and r.random() < 0.3:
            return {"k": r.choice(["list", "row"]), "v": v["v"]}
        if k == "set":
            return {"k": "list", "v": v["v"]}
        if k == "nt" and r.random() < 0.5:
            return {"k": "tup", "v": v["v"]}
        return r.choice(WRONG)

    def value(self, a, env, near=None):
        v = self.fit(a, env)
        if self.rng.random() < (self.p["near"] if near is None else near) / 1.5:
            v = self.wrong(a, v, env)
        return v

    # -- functions and operations ------------------------------------------
    def func(self, i):
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3] if not self.p.get("rhyming") else [2, 2, 3])
        names = list("xyz")
        if r.random() < 0.05 and not self.p["feats"].get("hard"):
            n = r.choice([4, 5, 6, 8])
            names = list("xyzuvwpq")
        elif r.random() < 0.12:
            names = r.sample(["args", "kwargs", "decorated", "name", "value", "ox", "fn", "func", "annotations", "f", "item", "ret"], 3)
            if r.random() < 0.3:
                names[0] = r.choice(["self", "cls"])
        params = []
        seen = False
        self.nhard = 0
        env = self.env()
        for j in range(n):
            a = self.ann()
            if r.random() < 0.04:
                a["note"] = True
            p = {"name": names[j], "ann": a}
            if (seen or r.random() < 0.12) and a["k"] != "nt":
                p["default"] = self.value(a, env)
                seen = True
            elif seen:
                p["kw"] = True
            if r.random() < 0.08:
                p["kw"] = True
            params.append(p)
        kwseen = False
        for p in params:
            kwseen = kwseen or p.get("kw", False)
            if kwseen:
                p["kw"] = True
        f = {"name": "f%d" % i, "params": params}
        if r.random() < self.p["ret"]:
            f["ret"] = self.ann()
        elif r.random() < 0.1:
            f["ret"] = {"k": "none_ret"}
        if r.random() < self.p["methods"]:
            f["kind"] = r.choice(["method", "classmethod", "staticmethod", "imethod", "iclassmethod", "istaticmethod"])
            if names[0] in ("self", "cls"):
                del f["kind"]
        if r.random() < 0.1 and not params[0].get("kw"):
            f["posonly"] = True
        return f

    def call(self, depth=0):
        r = self.rng
        fi = r.randrange(len(self.funcs))
        f = self.funcs[fi]
        env = self.env()
        op = {"op": "call", "f": fi, "args": [], "kw": {}}
        near = self.p["near"] if r.random() < 0.7 else 0.0
        positional = True
        for p in f["params"]:
            if "default" in p and r.random() < 0.5:
                positional = False
                continue
            v = self.value(p["ann"], env, near)
            if p.get("kw") or not positional or (r.random() < 0.15 and not (f.get("posonly") and p is f["params"][0])):
                positional = False
                op["kw"][p["name"]] = v
            else:
                op["args"].append(v)
        body = {}
        if depth < 3 and r.random() < self.p["nest"] / (depth + 1):
            body["ops"] = [self.op(depth + 1) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < self.p["bodyraise"]:
            body["raise"] = r.choice(USER)
        elif f.get("ret") is not None:
            if f["ret"]["k"] == "none_ret":
                body["ret"] = {"k": "none"}
            elif r.random() < 0.15 and op["args"] and f["ret"]["k"] not in NOT_WRONG:
                body["ret"] = {"k": "arg", "i": r.randrange(len(op["args"]))}
            else:
                # The body may have assigned names: use what holds now.
                late = self.env()
                late["s"] = env["s"]
                body["ret"] = self.value(f["ret"], late, near)
        else:
            body["ret"] = r.choice([{"k": "none"}, {"k": "int", "v": 5}, {"k": "obj"}])
            if op["args"] and r.random() < 0.3:
                body["ret"] = {"k": "arg", "i": r.randrange(len(op["args"]))}
        op["body"] = body
        if depth and r.random() < 0.25:
            op["prop"] = True
        return op

    def setdim(self):
        r = self.rng
        d = r.choice(self.dims)
        if r.random() < self.p["badval"]:
            return {"op": "setdim", "name": d, "val": {"bad": r.choice(BAD_DIMS)}}
        v = r.choice(self.dimpool[d])
        if r.random() < self.p.get("huge", 0 if self.p["feats"].get("hard") else 0.02):
            # No array is this big, and some of these hash like small numbers.
            return {"op": "setdim", "name": d, "val": v + r.choice(HUGE)}
        self.dim_now[d] = v
        self.hist.setdefault(d, []).append(v)
        return {"op": "setdim", "name": d, "val": v}

    def setshape(self):
        r = self.rng
        s = r.choice(self.shapes)
        if r.random() < self.p["badval"]:
            return {"op": "setshape", "name": s, "val": {"bad": r.choice(BAD_SHAPES)}}
        v = r.choice(self.shapepool[s])
        if v and r.random() < self.p.get("huge", 0 if self.p["feats"].get("hard") else 0.02):
            i = r.randrange(len(v))
            return {"op": "setshape", "name": s, "val": [x + r.choice(HUGE) if j == i else x for j, x in enumerate(v)]}
        self.shape_now[s] = v
        self.hist.setdefault(s, []).append(v)
        return {"op": "setshape", "name": s, "val": v}

    def isinst(self):
        r = self.rng
        # Named dimensions stand for unknown sizes here until they are assigned.
        a = self.static_arr() if r.random() < (0.3 if self.p.get("rhyming") else 0.75) else self.arr()
        if self.checked and r.random() < 0.25:
            a = r.choice(self.checked)[0]
        elif self.funcs and r.random() < (0.6 if self.p.get("rhyming") else 0.25):
            # The size of a parameter with dims in the place of symbols or the other way round.
            arrs = [q["ann"] for f in self.funcs for q in f["params"] if q["ann"]["k"] == "arr"]
            if arrs:
                a = self.twin(r.choice(arrs), r.uniform(0.35, 1.0))
        if a.pop("note", None):
            a = dict(a)
        v = self.value(a, self.env())
        if self.checked and r.random() < 0.25:
            v = r.choice(self.checked)[1]
        self.checked.append((a, v))
        return {"op": "isinst", "ann": a, "val": v}

    def static_arr(self):
        """ An array annotation without named dims and shapes. """
        old = self.feats
        self.nhard = 0
        self.feats = {k: (v if k in ("lit", "any", "dots", "sym", "symexpr", "hard") else 0) for k, v in old.items()}
        try:
            return self.arr()
        finally:
            self.feats = old

    def op(self, depth=0):
        r = self.rng
        table = dict(self.p["ops"])
        if depth:
            table.pop("def", None)
            table = {k: v for k, v in table.items() if k in ("call", "setdim", "setshape", "getdim", "getshape", "isinst", "hash", "use")}
            table["call"] = max(table.get("call", 0), 6)
            if r.random() > self.p["bodyset"]:
                table.pop("setdim", None)
                table.pop("setshape", None)
        if not self.funcs:
            table.pop("call", None)
            table.pop("agree", None)
        k = self.w(table)
        op = self.op_of(k, depth)
        if not depth and r.random() < self.p["fault"]:
            if r.random() < (0.3 if k == "call" else 0.0):
                op["fault"] = {"at": "write", "n": r.choice([1, 1, 2, 3, 4, 6, 8]), "exc": r.choice(WEXCS)}
            else:
                top = {"call": 700, "agree": 500, "isinst": 150, "use": 500, "def": 150}.get(k, 16)
                n = r.randrange(1, top) if r.random() < 0.6 else r.randrange(1, max(2, top // 6))
                op["fault"] = {"at": "step", "n": n, "exc": r.choice(EXCS)}
        return op

    def op_of(self, k, depth):
        r = self.rng
        if k == "call":
            return self.call(depth)
        if k == "setdim":
            return self.setdim()
        if k == "setshape":
            return self.setshape()
        if k == "getdim":
            return {"op": "getdim", "name": r.choice(self.dims)}
        if k == "getshape":
            return {"op": "getshape", "name": r.choice(self.shapes)}
        if k == "def":
            late = [i for i, f in enumerate(self.funcs) if f.get("when") == "late"]
            if late:
                return {"op": "def", "f": r.choice(late)}
            return {"op": "getdim", "name": r.choice(self.dims)}
        if k == "isinst":
            if self.slots and r.random() < 0.5 and self.p["ops"].get("ann"):
                return {"op": "isinst", "slot": r.randrange(self.slots), "val": self.slot_value()}
            return self.isinst()
        if k == "agree":
            cands = [i for i, f in enumerate(self.funcs) if f.get("agree")]
            if not cands:
                return self.isinst()
            i = r.choice(cands)
            return {"op": "agree", "f": i, "val": self.value(self.funcs[i]["params"][0]["ann"], self.env())}
        if k == "ann":
            a = self.arr() if r.random() < 0.8 else self.ann()
            arrs = [i for i, x in enumerate(self.slot_anns) if x["k"] == "arr"]
            if arrs and r.random() < 0.35:
                # All but the same as an earlier one.
                i = r.choice(arrs)
                a = self.twin(self.slot_anns[i])
                self.slot_anns.append(a)
                self.slots += 1
                self.twins.append((i, self.slots - 1))
                return {"op": "ann", "slot": self.slots - 1, "ann": a}
            if r.random() < 0.4:
                a = {"k": "arr", "be": "np", "dt": self.any_dtype("np"), "shape": None}
            elif self.slot_anns and r.random() < 0.3:
                a = r.choice(self.slot_anns)
            self.slot_anns.append(a)
            self.slots += 1
            return {"op": "ann", "slot": self.slots - 1, "ann": a}
        if not self.slots:
            return self.op_of("ann", depth)
        if k == "derive":
            self.slots += 1
            src = r.randrange(self.slots - 1)
            if self.twins and r.random() < 0.4:
                src = r.choice(r.choice(self.twins))
            sh = self.shape()
            if self.shapes_used and r.random() < 0.5:
                sh = r.choice(self.shapes_used)
            self.shapes_used.append(sh)
            old = self.slot_anns[src]
            be, dt = old.get("be", "np"), old.get("dt")
            op = {"op": "derive", "from": src, "slot": self.slots - 1, "shape": sh}
            if r.random() < 0.2:
                dt = op["dt"] = self.any_dtype(be)
                if r.random() < 0.4:
                    sh = op["shape"] = None
            self.slot_anns.append({"k": "arr", "be": be, "dt": dt, "shape": sh})
            return op
        if k == "hash":
            return {"op": "hash", "slot": r.randrange(self.slots)}
        if k == "repr":
            return {"op": "repr", "slot": r.randrange(self.slots)}
        if k == "eq":
            if self.twins and r.random() < 0.6:
                a, b = r.sample(r.choice(self.twins), 2)
                return {"op": "eq", "a": a, "b": b}
            return {"op": "eq", "a": r.randrange(self.slots), "b": r.randrange(self.slots)}
        if k == "wrap":
            self.slots += 1
            src = r.randrange(self.slots - 1)
            self.slot_anns.append(self.slot_anns[src])
            return {"op": "wrap", "slot": src, "to": self.slots - 1, "how": r.choice(["list", "dict", "tuple", "opt", "seq"])}
        if k == "use":
            return {"op": "use", "slot": r.randrange(self.slots), "val": self.slot_value()}
        raise ValueError(k)

    def twin(self, a, x=None):
        """ An annotation which differs a little from ``a``, or not at all. """
        r = self.rng
        a = json.loads(json.dumps(a))
        x = r.random() if x is None else x
        if x < 0.35 and a["dt"] in TWINS and a["be"] == "np":
            a["dt"] = r.choice(TWINS[a["dt"]])
            a.pop("form", None) if a["dt"] is None else None
            return a
        if x < 0.35 and a["be"] != "np":
            a["dt"] = r.choice([None, self.any_dtype(a["be"])])
            a.pop("form", None) if a["dt"] is None else None
            return a

        def swap(e):
            if isinstance(e, list):
                return [swap(y) for y in e]
            if not isinstance(e, dict):
                return e
            if "d" in e and x < 0.7:
                return {"s": e["d"]}
            if "s" in e and x < 0.7 and e["s"] in DIMS:
                return {"d": e["s"]}
            return {k: (swap(v) if k in ("a", "b") else v) for k, v in e.items()}

        if a["shape"]:
            if x < 0.75:
                a["shape"] = swap(a["shape"])
            elif x < 0.85:
                i = r.randrange(len(a["shape"]))
                if isinstance(a["shape"][i], int):
                    a["shape"][i] = self.size()
        elif a["shape"] is None and x < 0.8:
            a["shape"] = []
            a["form"] = "whole"
        return a

    def slot_value(self):
        r = self.rng
        a = r.choice(self.slot_anns)
        if self.slot_vals and r.random() < 0.4:
            return r.choice(self.slot_vals)
        v = self.value(a, self.env())
        self.slot_vals.append(v)
        if r.random() < 0.3 and v["k"] == "arr":
            how = r.choice(["list", "tup", "dict"])
            v = {"k": how, "v": {"a": v} if how == "dict" else [v]}
        return v

    def config(self):
        r = self.rng
        mode = self.p["config"]
        cfg = {}
        if mode == "soft":
            cfg["raise-errors"] = "no"
            if r.random() < 0.5:
                cfg["print-passes"] = "no"
        elif mode in ("reports", "mix"):
            cfg["raise-errors"] = r.choice(["yes", "yes", "no"])
            cfg["print-passes"] = r.choice(["yes", "no", "no"] if mode == "reports" else ["yes", "no"])
        else:
            if r.random() < 0.3:
                cfg["print-passes"] = "no"
        if r.random() < 0.1:
            cfg["check-all-sequence-elements"] = "no"
        if r.random() < 0.08:
            cfg["check-non-asta-types"] = "yes"
        return cfg

    def program(self):
        r = self.rng
        p = self.p
        prog = {"tf": self.tf, "torch": self.torch, "config": self.config(), "reports": p["reports"]}
        self.slot_anns, self.shapes_used, self.twins, self.slot_vals = [], [], [], []
        self.funcs = []
        if self.feats.get("ref"):
            for _ in range(r.choice([1, 2, 2, 3])):
                s = self.shape_expr(0)
                if "sh" in s and r.random() < 0.7:
                    s = {"cat": [s, self.shape_expr(1)]}
                self.shobjs.append(s)
                if len(self.shobjs) and r.random() < 0.6:
                    # Reuse of a composition inside others.
                    i = len(self.shobjs) - 1
                    extra = r.choice([{"tup": [self.plain_size()]}, {"sh": r.choice(self.shapes)}])
                    cat = [{"ref": i}, extra] if r.random() < 0.6 else [extra, {"ref": i}]
                    self.shobjs.append({"cat": cat})
        prog["shobjs"] = self.shobjs
        nfun = r.choice(p.get("nfun", [1, 2, 2, 3]))
        early = r.random() < 0.35  # names assigned before the annotations are built
        setup = []
        for d in self.dims:
            if r.random() < p["assign"]:
                v = r.choice(self.dimpool[d])
                self.dim_now[d] = v
                self.hist.setdefault(d, []).append(v)
                setup.append({"op": "setdim", "name": d, "val": v})
        for s in self.shapes:
            if r.random() < p["assign"]:
                v = r.choice(self.shapepool[s])
                self.shape_now[s] = v
                self.hist.setdefault(s, []).append(v)
                setup.append({"op": "setshape", "name": s, "val": v})
        if not any(self.feats.get(k) for k in ("dim", "dimexpr", "mixed")):
            setup = [o for o in setup if o["op"] != "setdim" or p is PROFILES["C03"]]
        if not any(self.feats.get(k) for k in ("shape", "shapecat", "star", "ref")):
            setup = [o for o in setup if o["op"] != "setshape"]
        for i in range(nfun):
            self.funcs.append(self.func(i))
            if r.random() < p["late"]:
                self.funcs[-1]["when"] = "late"
        if p["ops"].get("agree") and not p.get("rhyming"):
            for _ in range(r.choice([1, 2, 3])):
                self.funcs.append({"name": "f%d" % len(self.funcs), "params": [{"name": "x", "ann": self.static_arr()}], "agree": True})
        if all(f.get("when") == "late" for f in self.funcs):
            self.funcs[0].pop("when", None)
        prog["defs_first"] = not early
        prog["funcs"] = self.funcs
        prog["setup"] = setup
        x = r.random()
        multi = max(p["threads"]) > 1
        variant = "plain"
        if p["ops"].get("call"):
            if x < 0.3 and multi:
                variant = "duel"
            elif x < 0.34:
                variant = "deep"
            elif x < 0.355 and not p["feats"].get("hard"):
                variant = "long"
        if r.random() < 0.3:
            prog["share"] = True
        if variant == "duel":
            self.duel(prog)
            return self.spice(prog)
        if variant == "deep":
            nthreads = r.choice([1, 1, 2]) if multi else 1
            threads = [[] for _ in range(nthreads)]
            for t in threads:
                for _ in range(r.choice([1, 2])):
                    t.append(self.deep(r.choice([3, 5, 6, 8, 10, 14, 24])))
                t.append(self.op())
        elif variant == "long":
            nthreads = 1
            n = r.choice([40, 80, 140])
            threads = [[self.op(9) if r.random() < 0.7 else self.op() for _ in range(n)]]
            if p["fault"] and n < 100:
                for op in threads[0]:
                    if op["op"] == "call" and "fault" not in op and r.random() < 0.6:
                        op["fault"] = {"at": "step", "n": r.randrange(1, 400), "exc": r.choice(EXCS)}
        else:
            nthreads = r.choice(p["threads"])
            if nthreads > 1 and r.random() < 0.04:
                nthreads = r.choice([4, 5, 6])
            nops = r.choice([2, 3, 4, 5, 7]) if nthreads > 1 else r.choice([3, 5, 8, 10])
            # Interleave generation so that each thread knows what the others assign.
            threads = [[] for _ in range(nthreads)]
            for _ in range(nops):
                for t in threads:
                    t.append(self.op())
            if nthreads > 1 and r.random() < 0.12:
                self.waits(threads)
        if r.random() < 0.12:
            self.same_objects(threads)
        prog["threads"] = threads
        final = []
        pf = self.p["fault"]
        self.p = dict(self.p, fault=0.0)
        for _ in range(r.choice([0, 1, p["finals"]])):
            final.append(self.op())
        if r.random() < 0.2:
            final += self.probes()
        self.p = dict(self.p, fault=pf)
        prog["final"] = final
        prog["sched"], prog["granularity"] = self.sched(nthreads)
        return self.spice(prog)

    # -- special forms of programs -----------------------------------------
    def classes(self, prog):
        """ Functions become methods of decorated classes. """
        r = self.rng
        free = [i for i, f in enumerate(self.funcs) if not f.get("agree") and f["params"][0]["name"] not in ("self", "cls")]
        prog["groups"] = []
        while free:
            n = r.choice([1, 2, 3, 3, 5])
            mine, free = free[:n], free[n:]
            if not self.p.get("classes") and r.random() < 0.3:
                continue
            gid = len(prog["groups"])
            late = self.funcs[mine[0]].get("when")
            names = r.sample(["f", "g", "run", "_hidden", "__mangled", "__call__", "__len__", "forward", "K", "decorated", "__getitem__"], len(mine))
            for i, name in zip(mine, names):
                f = self.funcs[i]
                for key in ("cls", "mod", "when"):
                    f.pop(key, None)
                f["group"] = gid
                f["name"] = name
                f["kind"] = r.choice(["method", "method", "classmethod", "staticmethod"])
                f["via"] = r.choice(["early", "late", "class", "sub", "subclass"])
                if late:
                    f["when"] = late
            extras = r.sample(sorted(EXTRAS), r.choice([0, 1, 2, 4, 8, 14]))
            prog["groups"].append({
                "name": r.choice(["K", "_K", "Layer", "f"]), "mod": r.choice(["usermod", "usermod", "pkg.sub.mod"]),
                "style": r.choice(["plain", "plain", "plain", "slots", "meta", "abc", "base", "generic", "local"]),
                **({"othermod": "othermod"} if r.random() < 0.5 else {}),
                "extras": [[x, r.randrange(len(mine) + len(extras) + 1)] for x in extras],
            })

    def spice(self, prog):
        """ What no rule mentions and no check may depend on; and now and then sheer numbers. """
        r = self.rng
        if r.random() < 0.12:
            same = r.random() < 0.5
            for f in self.funcs:
                f["name"] = "f"
                f["cls"] = "K"
                if not same:
                    f["mod"] = r.choice(["usermod", "othermod", "pkg.sub.mod"])
        if r.random() < self.p.get("classes", 0.04):
            self.classes(prog)
        vary, kinds = r.random() < 0.25, r.random() < 0.2
        if vary or kinds:
            one = r.choice(VARS) if r.random() < 0.5 else None
            for v in values_of(prog):
                if v["k"] == "arr" and v["be"] == "np" and vary and "obj" not in v and r.random() < 0.5:
                    v["var"] = one or r.choice(VARS)
                elif kinds and v["k"] in ("list", "tup") and r.random() < 0.4:
                    v["sub"] = True
                elif kinds and v["k"] == "dict" and r.random() < 0.4:
                    v["sub"] = r.choice(["ordered", "default"])
        phases = [prog["setup"], prog["final"]]
        if len(prog["threads"]) == 1:
            phases.append(prog["threads"][0])
        if r.random() < self.p.get("hot", 0.006) and self.funcs:
            ops = r.choice(phases)
            calls = []
            for _ in range(r.choice([1, 1, 2])):
                calls.append(self.call(9))
            for c in calls:
                c["body"].pop("ops", None)
            if not self.p["feats"].get("hard"):
                n = r.choice([20, 70, 140, 300, 1050])
                if any(len(json.dumps(c)) > 1200 for c in calls):
                    n = 20
                # Twice: what many calls leave behind shows in others.
                ops.insert(r.randrange(len(ops) + 1), {"op": "hot", "calls": calls, "n": n})
                prog["final"] += self.probes()
        if r.random() < self.p.get("bulk", 0.006):
            ops = r.choice(phases)
            kinds = [k for k, o in (("d", "setdim"), ("sh", "setshape"), ("ann", "ann"), ("ann", "isinst")) if self.p["ops"].get(o)]
            if kinds:
                op = {"op": "bulk", "kind": r.choice(kinds), "n": r.choice([20, 70, 130, 260]), "base": r.choice([0, 1, 5])}
                if op["kind"] == "ann" and r.random() < 0.5:
                    op["dt"] = "py:float"
                elif r.random() < 0.3:
                    op["rounds"] = 2
                ops.insert(r.randrange(len(ops) + 1), op)
                prog["final"] += self.probes()
        if r.random() < 0.08:
            for ops in [prog["setup"], prog["final"]] + prog["threads"]:
                for _ in range(r.choice([0, 1, 2])):
                    ops.insert(r.randrange(len(ops) + 1), {"op": "clock", "by": r.choice([0.5, 2, 61, 3601, 86401, -5, -3700])})
        return prog

    def probes(self):
        """ Calls which tell the newest values of the names from older ones. """
        r = self.rng
        out = []
        if not self.p["ops"].get("call"):
            return out
        for d in self.dims:
            if "getdim" in self.p["ops"]:
                out.append({"op": "getdim", "name": d})
        for s in self.shapes:
            if "getshape" in self.p["ops"]:
                out.append({"op": "getshape", "name": s})
        r.shuffle(out)
        out = out[: r.choice([0, 1, 3])]
        for _ in range(r.choice([2, 3, 4])):
            self.pick = r.choice(["last", "last", "any"])
            out.append(self.call(9))
        self.pick = None
        return out

    def deep(self, n):
        """ Calls nested to depth n. """
        op = self.call(9)
        near = self.p
        if n:
            self.p = dict(self.p, near=0.1 * self.p["near"], wrong=0.0)
            op = self.call(9)
            self.p = near
            op["body"].pop("raise", None)
            op["body"]["ops"] = [self.deep(n - 1)]
            if self.rng.random() < 0.2:
                op["body"]["ops"].append(self.call(9))
        return op

    def waits(self, threads):
        """ Bodies in one thread wait for operations of a later one. """
        r = self.rng
        for tid, ops in enumerate(threads[:-1]):
            for op in ops:
                if op["op"] == "call" and r.random() < 0.6:
                    other = r.randrange(tid + 1, len(threads))
                    wait = {"op": "await", "t": other, "n": r.randrange(1, len(threads[other]) + 1)}
                    body = op["body"].setdefault("ops", [])
                    body.insert(r.choice([0, len(body)]), wait)

    def same_objects(self, threads):
        """ Arrays which are passed again and again, with another shape each time. """
        for tid, ops in enumerate(threads):
            for op in ops:
                if op["op"] != "call" or op["body"].get("ret", {}).get("k") == "arg":
                    continue
                vals = [("a%d" % i, v) for i, v in enumerate(op["args"])] + sorted(op["kw"].items())
                for name, v in vals:
                    if v["k"] == "arr" and v["be"] == "np" and self.rng.random() < 0.8:
                        v["obj"] = "%d.%s" % (tid, name)

    def duel(self, prog):
        """ One operation against another, one pause at any point of it, then a close look. """
        r = self.rng
        p = self.p
        sets = [k for k in ("setdim", "setshape") if p["ops"].get(k)]
        if prog["defs_first"]:
            for _ in range(r.choice([0, 1, 1, 2])):
                self.pick = "last"
                prog["setup"].append(self.call(9))
        self.pick = None
        threads = []
        for tid in range(2):
            ops = []
            for _ in range(r.choice([1, 1, 1, 2])):
                if sets and r.random() < (0.6 if tid == 0 else 0.3):
                    ops.append(self.op_of(r.choice(sets), 0))
                    if r.random() < p["fault"]:
                        ops[-1]["fault"] = {"at": "step", "n": r.randrange(1, 30), "exc": r.choice(EXCS)}
                else:
                    if r.random() < 0.4:
                        self.pick = r.choice(["last", "any"])
                    ops.append(self.op())
                    self.pick = None
            threads.append(ops)
        prog["threads"] = threads
        pf = self.p["fault"]
        self.p = dict(self.p, fault=0.0)
        prog["final"] = self.probes() or [self.op()]
        self.p = dict(self.p, fault=pf)
        sched, gran = self.sched(2)
        if r.random() < 0.85:
            pauses = []
            for first in ([0] if r.random() < 0.8 else [0, 1]):
                top = 14 if threads[first][0]["op"] in ("setdim", "setshape", "getdim", "getshape") else 1500
                n = r.randrange(1, top) if r.random() < 0.5 else int(top ** r.random())
                if gran == "opcode":
                    n *= r.randrange(1, 9)
                pauses.append([first, n, r.choice([3, 30, 10 ** 9, 10 ** 9, 10 ** 9])])
            sched = {"policy": "preempt", "seed": sched["seed"], "first": 0, "pauses": pauses}
        prog["sched"], prog["granularity"] = sched, gran

    def sched(self, n):
        r = self.rng
        gran = "opcode" if r.random() < 0.15 else "line"
        seed = r.randrange(1 << 30)
        if n == 1:
            return {"policy": "serial", "seed": seed, "p": 0.0}, gran
        x = r.random()
        if x < 0.35:
            return {"policy": "random", "seed": seed, "p": r.choice([0.3, 0.1, 0.03, 0.01])}, gran
        if x < 0.65:
            return {"policy": "focus", "seed": seed, "p": r.choice([0.05, 0.1, 0.2])}, gran
        if x < 0.9:
            length = r.choice([200, 600, 1500, 3000]) * (6 if gran == "opcode" else 1)
            return {"policy": "pct", "seed": seed, "depth": r.choice([1, 2, 3, 5]), "length": length}, gran
        return {"policy": "serial", "seed": seed, "p": 0.5}, gran


VARS = ["sub", "ma", "ro", "F", "nc", "neg", "T"]


def values_of(node, inside=False):
    """ All values in a program, outer ones first. """
    if isinstance(node, dict):
        if inside and "k" in node:
            yield node
            if isinstance(node.get("v"), (dict, list)):
                for v in (node["v"].values() if isinstance(node["v"], dict) else node["v"]):
                    yield from values_of(v, True)
            return
        for key, sub in node.items():
            if key == "kw" and isinstance(sub, dict):
                for v in sub.values():
                    yield from values_of(v, True)
            elif key in ("args", "val", "default") or (key == "ret" and "params" not in node):
                yield from values_of(sub, True)
            else:
                yield from values_of(sub)
    elif isinstance(node, list):
        for sub in node:
            yield from values_of(sub, inside)


NOT_WRONG = ("any", "int", "str", "float", "callable", "iter", "literal", "type", "object", "none_ret")


def nonlinear(e):
    if {"sh", "cat", "ref", "star"} & set(e):
        return False
    try:
        return model.p_deg(model.eval_expr(model.tag(e), None)) > 1
    except model.Unknown:
        return True


def tame(shape):
    """ Printing a value must stay cheap: numpy prints 6 ** ndim elements. """
    size = 1
    for n in shape:
        size *= n
    return shape[: 8 if size <= 1000 else 4]


def nt_key(a):
    return json.dumps(a, sort_keys=True)


def has_tuple_risk(shape):
    return any(isinstance(e, dict) and ("sh" in e or "cat" in e or "ref" in e or "star" in e) for e in shape)


def fix_star(shape):
    """ Unpacking twice in a row may bring two '...' together: not with integers only. """
    out = []
    for e in shape:
        if e == "..." and out and out[-1] == "...":
            continue
        out.append(e)
    return out


def generate(name, seed):
    if name in ("C07", "C08"):
        from . import life

        return {"C07": life.gen_c07, "C08": life.gen_c08}[name](seed)
    if name == "C13":
        from . import multi

        return multi.gen_c13(seed)
    if name == "C20" and seed % 2:
        name = "C20R"
    if name == "C06":
        name = ("C06", "C06", "C06R", "C06S")[seed % 4]
    return Gen(PROFILES[name], seed).program()


def runner(world, prog):
    """ The object that executes a program. """
    kind = prog.get("type")
    if kind == "life":
        from .life import Life

        return Life(world, prog)
    if kind == "multi":
        from .multi import Multi

        return Multi(world, prog)
    from .execu import Run

    return Run(world, prog)
