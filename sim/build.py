"""Turns annotation and value trees of a program into real objects."""
import collections
import collections.abc
import json
import operator
import threading
import types
import typing

import numpy as np

from . import model

NPT = {
    "int8": np.int8, "int16": np.int16, "int32": np.int32, "int64": np.int64,
    "uint8": np.uint8, "float16": np.float16, "float32": np.float32,
    "float64": np.float64, "complex64": np.complex64, "complex128": np.complex128,
    "bool": np.bool_,
}
PY = {
    "int": int, "float": float, "bool": bool, "complex": complex, "str": str,
    "bytes": bytes, "object": object,
}


def uses_shapes(shape):
    return any(isinstance(e, dict) and {"sh", "cat", "ref", "star"} & set(e) for e in shape)


class SkipBuild(Exception):
    """ The program asks for an annotation which nobody would write. """


class SubArray(np.ndarray):
    """ An array class of the simulated user. """


class SubList(list):
    """ A list class of the simulated user. """


class SubTuple(tuple):
    """ A tuple class of the simulated user. """


class Row(collections.abc.Sequence):
    """ A sequence of the simulated user: indices are integers only. """

    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, i):
        return self.items[operator.index(i)]

    def __len__(self):
        return len(self.items)


def vary(arr, how):
    """ The same array to a check: another class, layout or flag. """
    if how == "sub":
        return arr.view(SubArray)
    if how == "ma":
        return np.ma.array(arr)
    if how == "ro":
        arr.flags.writeable = False
        return arr
    if how == "F":
        return np.asfortranarray(arr) if arr.ndim else arr
    if how == "nc" and arr.ndim:
        return np.zeros(arr.shape[:-1] + (2 * arr.shape[-1],), arr.dtype)[..., ::2]
    if how == "neg" and arr.ndim:
        return arr[::-1]
    if how == "T" and arr.ndim > 1:
        return np.zeros(arr.shape[::-1], arr.dtype).T
    return arr


def layout(items):
    """ How the sizes are nested: only calls of decorated functions flatten them. """
    return [layout(i) if isinstance(i, tuple) else None for i in items]


class Builder:
    """ Builds annotations and values in the current simulated process. """

    def __init__(self, world, share=False):
        self.world = world
        self.asta = world.asta
        self.share = share  # equal array annotations are one object
        self.arrs = {}
        self.objs = {}
        self.nts = {}
        self.local = threading.local()
        self.empty = False  # an empty tuple stood in a subscript
        self.shobjs = []  # (object, parts) of named shape compositions

    @property
    def reads(self):
        """ (kind, name, observed) of the last build in this thread. """
        if not hasattr(self.local, "reads"):
            self.local.reads = []
        return self.local.reads

    @reads.setter
    def reads(self, value):
        self.local.reads = value

    # -- annotations -------------------------------------------------------
    def cls(self, be):
        return {
            "np": self.asta.Array, "tf": self.asta.TFTensor, "torch": self.asta.Tensor,
        }[be]

    def dtype(self, be, dt):
        form, name = dt.split(":", 1)
        if form == "py":
            return PY[name]
        if form == "npt":
            return NPT[name]
        if form == "np":
            return np.dtype(name)
        if form == "tf":
            return getattr(self.world.tf, name)
        if form == "torch":
            return getattr(self.world.torch_stub, name)
        raise ValueError(dt)

    def expr(self, e):
        """ -> (object, built tree) """
        if isinstance(e, int):
            return e, e
        if e == "...":
            return Ellipsis, "..."
        if "d" in e:
            obj = getattr(self.world.dims, e["d"])
            if isinstance(obj, int):
                self.reads.append(("d", e["d"], obj))
                return obj, obj
            self.reads.append(("d", e["d"], None))
            return obj, e
        if "s" in e:
            return getattr(self.world.symbols, e["s"]), e
        a, ta = self.expr(e["a"])
        b, tb = self.expr(e["b"])
        op = e["op"]
        if op == "+":
            obj = a + b
        elif op == "-":
            obj = a - b
        elif op == "*":
            obj = a * b
        elif op == "**":
            obj = a ** b
        else:
            obj = a / b
        if isinstance(ta, int) and isinstance(tb, int):
            if not isinstance(obj, int):
                raise SkipBuild("size written with a quotient of integers")
            return obj, obj
        tree = {"op": op, "a": ta, "b": tb}
        if model.vanishes(tree):
            raise SkipBuild("size in which a name drops out")
        return obj, tree

    def shape_expr(self, se):
        """ Named shape, tuple or concatenation -> (object, parts). """
        res = self._shape_expr(se)
        if res[0] == ():
            self.empty = True
        return res

    def _shape_expr(self, se):
        if "ref" in se:
            return self.shobjs[se["ref"]]
        if "sh" in se:
            obj = getattr(self.world.shapes, se["sh"])
            if isinstance(obj, tuple):
                self.reads.append(("sh", se["sh"], list(obj)))
                return obj, list(obj)
            self.reads.append(("sh", se["sh"], None))
            return obj, [se]
        if "tup" in se:
            objs, trees = [], []
            for e in se["tup"]:
                o, t = self.expr(e)
                objs.append(o)
                trees.append(t)
            return tuple(objs), trees
        obj, parts = self.shape_expr(se["cat"][0])
        parts = list(parts)
        for sub in se["cat"][1:]:
            o, p = self.shape_expr(sub)
            obj = obj + o
            parts = parts + list(p)
        return obj, parts

    def define_shobjs(self, specs):
        for se in specs:
            self.shobjs.append(self.shape_expr(se))

    def shape_items(self, shape):
        """ -> (list of subscript items, parts) """
        items, parts = [], []
        for e in shape:
            if isinstance(e, dict) and ("sh" in e or "cat" in e or "ref" in e):
                o, p = self.shape_expr(e)
                items.append(o)
                parts.extend(p)
            elif isinstance(e, dict) and "star" in e:
                o, p = self.shape_expr(e["star"])
                items.extend([*o])
                parts.extend(p)
            else:
                o, t = self.expr(e)
                items.append(o)
                parts.append(t)
        return items, parts

    def arr(self, a):
        """ -> (annotation object, built tree); the same object again if the program shares them. """
        if not self.share:
            return self._arr(a)
        key = json.dumps(a, sort_keys=True)
        if key not in self.arrs:
            self.arrs.setdefault(key, self._arr(a))
        return self.arrs[key]

    def _arr(self, a):
        cls = self.cls(a["be"])
        dt = self.dtype(a["be"], a["dt"]) if a["dt"] is not None else None
        shape = a["shape"]
        built = {"k": "arr", "be": a["be"], "dt": a["dt"], "parts": None}
        if shape is None:
            return (cls if dt is None else cls[dt]), built
        items, parts = self.shape_items(shape)
        built["parts"] = parts
        built["layout"] = layout(items)
        if uses_shapes(shape):
            built["named"] = True  # only calls of decorated functions flatten these
        form = a.get("form", "flat")
        if len(items) == 1 and isinstance(items[0], tuple) and not shape == []:
            sub = items[0]
            form = "whole"
        else:
            sub = tuple(items)
        if not items:
            sub, form = (), "whole"
            if a.get("form") == "scalar":
                sub = self.asta.Scalar
        if form == "size" and all(type(e) is int and e >= 0 for e in items):
            world = self.world
            sub = (world.torch_stub.Size if a["be"] == "torch" else world.tf.TensorShape)(items)
            return (cls[sub] if dt is None else cls[dt][sub]), built
        if form == "chain" and dt is not None:
            base = cls[dt]
            return (base[sub] if len(sub) != 1 else base[sub[0]]), built
        if form == "whole" or (form == "tuple" and dt is not None):
            return (cls[sub] if dt is None else cls[dt, sub]), built
        if form == "tuple":
            return cls[sub], built
        if dt is None:
            return (cls[sub] if len(sub) != 1 else cls[sub[0]]), built
        return cls[(dt,) + sub], built

    def ann(self, a):
        """ -> (annotation object, built tree) """
        obj, built = self._ann(a)
        if a.get("note"):
            obj = typing.Annotated[obj, "note"]
        return obj, built

    def _ann(self, a):
        k = a["k"]
        if k == "set":
            o, b = self.ann(a["of"])
            form = a.get("form")
            obj = set[o] if form == "builtin" else typing.AbstractSet[o] if form == "abs" else typing.Set[o]
            return obj, dict(a, of=b)
        if k == "arr":
            return self.arr(a)
        if k in ("list", "seq", "dict") and a.get("form") == "bare":
            obj = {"list": typing.List, "seq": typing.Sequence, "dict": typing.Dict}[k]
            return obj, a
        if k in ("list", "seq", "vtup", "opt"):
            o, b = self.ann(a["of"])
            new = dict(a, of=b)
            builtin = a.get("form") == "builtin"
            if k == "list":
                return (list[o] if builtin else typing.List[o]), new
            if k == "seq":
                return (
                    collections.abc.Sequence[o] if builtin else typing.Sequence[o]
                ), new
            if k == "vtup":
                return (tuple[o, ...] if builtin else typing.Tuple[o, ...]), new
            if a.get("form") == "pipe":
                return o | None, new
            return typing.Optional[o], new
        if k == "dict":
            o, b = self.ann(a["of"])
            builtin = a.get("form") == "builtin"
            return (dict[str, o] if builtin else typing.Dict[str, o]), dict(a, of=b)
        if k in ("tup", "union"):
            objs, builts = [], []
            for sub in a["of"]:
                o, b = self.ann(sub)
                objs.append(o)
                builts.append(b)
            new = dict(a, of=builts)
            if k == "tup":
                builtin = a.get("form") == "builtin"
                return (tuple[tuple(objs)] if builtin else typing.Tuple[tuple(objs)]), new
            return typing.Union[tuple(objs)], new
        if k == "nt":
            key = json.dumps(a, sort_keys=True)
            if key in self.nts:
                return self.nts[key]
            fields, builts = [], []
            for i, sub in enumerate(a["of"]):
                o, b = self.ann(sub)
                fields.append(("f%d" % i, o))
                builts.append(b)
            cls = typing.NamedTuple("NT%d" % len(self.nts), fields)
            if a.get("sub"):
                # With methods, say.
                cls = type("Sub" + cls.__name__, (cls,), {"__slots__": ()})
            # Another thread may have been faster: there is one class per annotation.
            return self.nts.setdefault(key, (cls, dict(a, of=builts, cls=key)))
        if k == "td":
            hints, builts = {}, {}
            for key, sub in a["of"].items():
                o, b = self.ann(sub)
                if key in a.get("nreq", ()):
                    o = typing.NotRequired[o]
                elif key in a.get("req", ()):
                    o = typing.Required[o]
                hints[key] = o
                builts[key] = b
            bases = ()
            if a.get("inh"):
                mine = {key: hints.pop(key) for key in a["inh"]}
                bases = (typing.TypedDict("TB", mine, total=a.get("base_total", True)),)
            if bases:
                ns = {"__annotations__": hints, "__module__": "usermod"}
                obj = types.new_class("TD", bases, {"total": a.get("total", True)}, lambda d: d.update(ns))
            else:
                obj = typing.TypedDict("TD", hints, total=a.get("total", True))
            return obj, dict(a, of=builts)
        if k == "any":
            return typing.Any, a
        if k == "object":
            return object, a
        if k == "int":
            return int, a
        if k == "str":
            return str, a
        if k == "float":
            return float, a
        if k == "callable":
            return typing.Callable[[int], int], a
        if k == "iter":
            return typing.Iterable[int], a
        if k == "literal":
            return typing.Literal["a", "b"], a
        if k == "type":
            return typing.Type[int], a
        if k == "none":
            return type(None), a
        if k == "none_ret":
            return None, a
        raise ValueError(k)

    # -- values ------------------------------------------------------------
    def value(self, v):
        k = v["k"]
        if k == "arr":
            return self.array(v)
        if k == "list":
            out = [self.value(x) for x in v["v"]]
            return SubList(out) if v.get("sub") else out
        if k == "tup":
            out = tuple(self.value(x) for x in v["v"])
            return SubTuple(out) if v.get("sub") else out
        if k == "row":
            return Row(self.value(x) for x in v["v"])
        if k == "deque":
            return collections.deque(self.value(x) for x in v["v"])
        if k == "set":
            return {self.value(x) for x in v["v"]}
        if k == "nt":
            if v["cls"] in self.nts:
                cls = self.nts[v["cls"]][0]
                if v.get("sub"):
                    cls = type("Late", (cls,), {})
                return cls(*[self.value(x) for x in v["v"]])
            return tuple(self.value(x) for x in v["v"])
        if k == "dict":
            out = {key: self.value(x) for key, x in v["v"].items()}
            if v.get("sub") == "ordered":
                return collections.OrderedDict(out)
            if v.get("sub") == "default":
                return collections.defaultdict(list, out)
            return out
        if k == "none":
            return None
        if k in ("int", "str", "float"):
            return v["v"]
        if k == "callable":
            return lambda x: x
        if k == "type":
            return bool
        if k == "iter":
            return iter(list(v["v"]))
        if k == "obj":
            return object()
        if k == "npscalar":
            return np.float64(1.0)
        if k == "bytes":
            return b"xy"
        raise ValueError(k)

    def array(self, v):
        shape = tuple(v["shape"])
        if v["be"] == "np":
            dt = np.dtype(v["dt"])
            size = 1
            for n in shape:
                size *= n
            if "obj" in v and size <= 64:
                # One object which changes its shape between the calls it is passed to.
                obj = self.objs.get((v["obj"], v["dt"]))
                if obj is None:
                    obj = self.objs[v["obj"], v["dt"]] = np.zeros(shape, dt)
                obj.resize(shape, refcheck=False)
                return obj
            if size > 64:
                return np.broadcast_to(np.zeros((), dt), shape)
            return vary(np.zeros(shape, dt), v.get("var"))
        if v["be"] == "tf":
            tf = self.world.tf
            if v["dt"] == "string":
                return tf.fill(shape, "")
            return tf.zeros(shape, getattr(tf, v["dt"]))
        stub = self.world.torch_stub
        return stub.Tensor(shape, getattr(stub, v["dt"]))


BAD_DIM = {
    "float": 3.0, "str": "3", "none": None, "npint": np.int64(3), "list": [3],
    "tuple": (3,), "complex": 3j, "dict": {},
}
BAD_SHAPE = {
    "list": [2, 3], "int": 3, "none": None, "str": "23", "floatelem": (2, 3.0),
    "noneelem": (None, 2), "strelem": (2, "3"), "npelem": (np.int64(2), 3),
    "nested": ((2, 3),), "dots": (2, ...), "set": {2, 3}, "lastbad": (2, 3, 4.5),
}
