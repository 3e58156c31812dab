"""Executable reference model: what the documented rules say about a check.

Shares no code with the package under test and does not use sympy.
Annotations and values are the JSON trees of the generated program.
"""
from fractions import Fraction
from math import gcd

UNSET = "<unset>"


# --------------------------------------------------------------------------
# Polynomials: {monomial: coefficient}, monomial = tuple of (symbol, exponent).
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_sym(s):
    return {((s, 1),): Fraction(1)}


def p_add(a, b, sign=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sign * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    d = dict(m)
    for s, e in n:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_is_const(a):
    return all(m == () for m in a)


def p_value(a):
    return a.get((), Fraction(0))


def p_syms(a):
    return {s for m in a for s, _ in m}


def p_subst(a, sym, poly):
    r = {}
    for m, c in a.items():
        rest = tuple((s, e) for s, e in m if s != sym)
        e = dict(m).get(sym, 0)
        t = {rest: c}
        if e:
            t = p_mul(t, p_pow(poly, e))
        r = p_add(r, t)
    return r


def p_deg(a):
    return max((sum(e for _, e in m) for m in a), default=0)


def _uni(a, s):
    d = max(dict(m).get(s, 0) for m in a)
    out = [Fraction(0)] * (d + 1)
    for m, c in a.items():
        out[dict(m).get(s, 0)] += c
    return out


def _trim(p):
    while p and p[-1] == 0:
        p.pop()
    return p


def _pgcd(a, b):
    a, b = _trim(list(a)), _trim(list(b))
    while b:
        while len(a) >= len(b):
            f = a[-1] / b[-1]
            sh = len(a) - len(b)
            for i, c in enumerate(b):
                a[i + sh] -= f * c
            _trim(a)
            if not a:
                break
        a, b = b, a
    return a


def solvable(eqs):
    """ Do the equations poly == 0 have a common (complex) solution?  None: unknown. """
    eqs = [e for e in eqs if e]
    for _ in range(60):
        nxt = []
        for e in eqs:
            if not e:
                continue
            if p_is_const(e):
                return False
            nxt.append(e)
        eqs = nxt
        if not eqs:
            return True
        lin = None
        for e in sorted(eqs, key=lambda q: (len(p_syms(q)), len(q))):
            if p_deg(e) == 1:
                lin = e
                break
        if lin is None:
            break
        sym = sorted(p_syms(lin))[0]
        c = lin[((sym, 1),)]
        rest = {m: -v / c for m, v in lin.items() if m != ((sym, 1),)}
        eqs = [p_subst(e, sym, rest) for e in eqs if e is not lin]
    else:
        return None
    # Only non-linear equations are left.
    if all(len(p_syms(e)) == 1 for e in eqs):
        by = {}
        for e in eqs:
            by.setdefault(next(iter(p_syms(e))), []).append(e)
        for s, es in by.items():
            g = _uni(es[0], s)
            for e in es[1:]:
                g = _pgcd(g, _uni(e, s))
            if len(_trim(list(g))) < 2:
                return False
        return True
    if len(eqs) == 1:
        return True
    return None


# --------------------------------------------------------------------------
class Chooser:
    """ Replays a prefix of choices, then takes first options. """

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.widths = []

    def pick(self, options):
        i = len(self.taken)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(k)
        self.widths.append(len(options))
        return options[k]


def explore(fn, cap=256):
    """ All results of fn(chooser) over all choices; None if there are too many. """
    results = []
    prefix = []
    n = 0
    while True:
        ch = Chooser(prefix)
        results.append(fn(ch))
        n += 1
        if n > cap:
            return None
        i = len(ch.taken) - 1
        while i >= 0 and ch.taken[i] + 1 >= ch.widths[i]:
            i -= 1
        if i < 0:
            return results
        prefix = ch.taken[:i] + [ch.taken[i] + 1]


# --------------------------------------------------------------------------
class Reject(Exception):
    def __init__(self, why, name=None):
        super().__init__(why)
        self.why = why
        self.name = name


class Unknown(Exception):
    pass


NP_PY = {
    "int": "int64", "float": "float64", "bool": "bool", "complex": "complex128",
}
NP_KIND = {"str": "U", "bytes": "S", "object": "O"}
TORCH_PY = {"int": "int32", "float": "float32", "bool": "bool", "bytes": "uint8"}
TF_PY = {
    "int": "int32", "float": "float32", "complex": "complex128", "bool": "bool",
    "bytes": "string", "str": "string",
}


def np_kind(name):
    if name[:2] in ("<U", ">U"):
        return "U"
    if name.startswith("S"):
        return "S"
    if name == "O":
        return "O"
    return ""


def dtype_ok(be, want, have):
    if want is None:
        return True
    form, name = want.split(":", 1)
    if be == "np":
        if form == "py":
            if name in NP_KIND:
                return np_kind(have) == NP_KIND[name]
            return NP_PY[name] == have
        return name == have
    table = TF_PY if be == "tf" else TORCH_PY
    if form == "py":
        return table[name] == have
    return name == have


def eval_expr(e, dim, top=True):
    """ Expression tree -> polynomial; dim(name) gives an int or UNSET. """
    if isinstance(e, int):
        return p_const(e)
    if "d" in e:
        v = dim(e["d"])
        if v == UNSET:
            raise Reject("unassigned", e["d"])
        return p_const(v)
    if "s" in e:
        return p_sym(e["s"])
    a = eval_expr(e["a"], dim)
    b = eval_expr(e["b"], dim)
    op = e["op"]
    if op == "+":
        return p_add(a, b)
    if op == "-":
        return p_add(a, b, -1)
    if op == "*":
        return p_mul(a, b)
    if op == "**":
        if not p_is_const(b):
            raise Unknown("symbolic exponent")
        n = p_value(b)
        if n.denominator != 1 or n < 0 or n > 6:
            raise Unknown("exponent")
        return p_pow(a, int(n))
    if op == "/":
        if not p_is_const(b) or p_value(b) == 0:
            raise Unknown("division")
        return p_mul(a, p_const(1 / p_value(b)))
    raise Unknown(op)


def has_names(e):
    """ Does the expression tree use a dimension or symbol? """
    if isinstance(e, int) or isinstance(e, str):
        return False
    if "d" in e or "s" in e:
        return True
    return has_names(e["a"]) or has_names(e["b"])


def tag(e):
    """ Dims as symbols of another name, so that they differ from symbols. """
    if isinstance(e, int):
        return e
    if "d" in e:
        return {"s": "dim " + e["d"]}
    if "s" in e:
        return e
    return {"op": e["op"], "a": tag(e["a"]), "b": tag(e["b"])}


def leaf_names(e):
    """ Names written in a tagged expression. """
    if isinstance(e, int):
        return set()
    if "s" in e:
        return {e["s"]}
    return leaf_names(e["a"]) | leaf_names(e["b"])


def vanishes(e):
    """ May some name drop out of the expression, as in D - D or D / D? """
    if isinstance(e, int):
        return False
    if e.get("op") == "/" and leaf_names(tag(e["a"])) & leaf_names(tag(e["b"])):
        return True
    t = tag(e)
    if "op" in t and (vanishes(e["a"]) or vanishes(e["b"])):
        return True
    try:
        return p_syms(eval_expr(t, None)) != leaf_names(t)
    except Unknown:
        return False


def expr_names(e, key):
    if isinstance(e, (int, str)):
        return []
    if "d" in e or "s" in e:
        return [e[key]] if key in e else []
    return expr_names(e["a"], key) + expr_names(e["b"], key)


def resolve_shape(parts, dim, shp):
    """ Parts of a (built) shape -> list of 'any', 'dots', int or polynomial. """
    out = []
    unset = []
    for part in parts:
        if isinstance(part, dict) and "sh" in part:
            v = shp(part["sh"])
            if v == UNSET:
                unset.append(part["sh"])
                continue
            out.extend("any" if x == -1 else x for x in v)
            continue
        if part == "...":
            out.append("dots")
        elif part == -1:
            out.append("any")
        elif isinstance(part, int):
            out.append(part)
        else:
            cache = {}

            def look(name):
                # One reading per name and size, as sizes are substituted one by one.
                if name not in cache:
                    cache[name] = dim(name)
                return cache[name]

            try:
                poly = eval_expr(part, look)
            except Reject as err:
                if err.why == "unassigned":
                    unset.append(err.name)
                    continue
                raise
            if p_is_const(poly):
                v = p_value(poly)
                if v.denominator != 1:
                    raise Reject("non-integer")
                v = int(v)
                if v == -1:
                    raise Unknown("size expression with value -1")
                out.append(v)
            else:
                out.append(poly)
    if unset:
        raise Reject("unassigned", unset)
    return out


def align(pat, shape):
    """ All ways to lay ``pat`` over ``shape``: list of lists of equations. """
    results = []

    def rec(i, j, eqs):
        if len(results) > 200:
            return
        if i == len(pat):
            if j == len(shape):
                results.append(eqs)
            return
        p = pat[i]
        if p == "dots":
            k = j
            while True:
                rec(i + 1, k, eqs)
                if k >= len(shape) or shape[k] == 0:
                    break
                k += 1
            return
        if j >= len(shape):
            return
        n = shape[j]
        if p == "any":
            if n != 0:
                rec(i + 1, j + 1, eqs)
        elif isinstance(p, int):
            if p == n:
                rec(i + 1, j + 1, eqs)
        else:
            rec(i + 1, j + 1, eqs + [p_add(p, p_const(n), -1)])

    rec(0, 0, [])
    return results


def match_array(ann, val, dim, shp):
    """ Equations of a match; raises Reject or Unknown. """
    parts = ann["parts"]
    pat = None
    if parts is not None:
        pat = resolve_shape(parts, dim, shp)
    if val.get("k") != "arr" or val["be"] != ann["be"]:
        raise Reject("not an array")
    if not dtype_ok(ann["be"], ann["dt"], val["dt"]):
        raise Reject("dtype")
    if pat is None:
        return []
    if any(a == "dots" and b == "dots" for a, b in zip(pat, pat[1:])):
        raise Unknown("repeated dots")
    shape = list(val["shape"])
    ways = align(pat, shape)
    if not ways:
        raise Reject("shape")
    if pat == ["dots"] and 0 in shape:
        raise Reject("zero")
    distinct = {}
    for w in ways:
        distinct.setdefault(frozenset(frozenset(e.items()) for e in w if e), w)
    verdicts = [solvable(w) for w in distinct.values()]
    if not any(v is not False for v in verdicts):
        raise Reject("no solution")
    if pat.count("dots") > 1 and 0 in shape and any(isinstance(p, dict) for p in pat):
        raise Unknown("known finding: no backtracking over several '...'")
    if len(distinct) > 1:
        # Known finding: the first alignment is taken, solvable or not.
        raise Unknown("ambiguous symbols")
    if None in verdicts:
        raise Unknown("system")
    return ways[0]


def other(k, val):
    """ Types which are only checked on request. """
    vk = val["k"]
    good = {
        "int": {"int"}, "str": {"str"}, "float": {"float", "npscalar"}, "callable": {"callable"}, "type": {"type"},
        "iter": {"iter", "list", "tup", "nt", "dict", "str", "bytes", "row", "deque", "set"}, "literal": set(),
    }.get(k)
    if good is None or vk in good or (k == "literal" and vk == "str" and val["v"] in ("a", "b")):
        return
    if (k == "callable" and vk == "type") or (k == "iter" and vk in ("arr", "npscalar", "type")) or (
            k == "literal" and vk not in ("str", "int", "float", "none", "obj")):
        raise Unknown("other types")
    raise Reject("other type")


def required(td):
    """ Keys a typed dictionary must have. """
    out = set()
    for key in td["of"]:
        total = td.get("base_total", True) if key in td.get("inh", ()) else td.get("total", True)
        if key in td.get("req", ()) or (total and key not in td.get("nreq", ())):
            out.add(key)
    return out


ANY_KINDS = ("any", "int", "str", "float", "callable", "iter", "literal", "type", "object", "none_ret")


class Ctx:
    """ Options of a check and the way to look up names. """

    def __init__(self, dim, shp, all_elems=True, non_asta=False):
        self.dim = dim
        self.shp = shp
        self.all = all_elems
        self.non_asta = non_asta


def names(name):
    return [name] if isinstance(name, str) else list(name)


def each(pairs, ctx, leaves):
    """ Equations of all parts of a value; which part fails first is not specified. """
    out = []
    first = None
    for a, v in pairs:
        try:
            out = out + check(a, v, ctx, leaves)
        except (Reject, Unknown) as err:
            if first is None:
                if isinstance(err, Unknown):
                    raise
                first = err
            elif first.why == "unassigned" and getattr(err, "why", None) == "unassigned":
                first.name = names(first.name) + names(err.name)
            elif isinstance(err, Unknown) or {"unassigned", "non-integer"} & {first.why, err.why}:
                # Which of them is reported?
                first.why = "several"
    if first is not None:
        raise first
    return out


def check(ann, val, ctx, leaves):
    """ Equations of a conforming value; raises Reject or Unknown. """
    k = ann["k"]
    vk = val.get("k")
    if k == "arr":
        eqs = match_array(ann, val, ctx.dim, ctx.shp)
        leaves.append(ann)
        return eqs
    if k in ("list", "seq"):
        if k == "list" and vk != "list":
            raise Reject("not a list")
        if k == "seq" and vk not in ("list", "tup", "str", "nt", "bytes", "row", "deque"):
            raise Reject("not a sequence")
        if ann.get("form") == "bare":
            return []
        if vk == "str":
            if val["v"] == "":
                return []
            elems = [{"k": "str", "v": c} for c in val["v"]]
        elif vk == "bytes":
            elems = [{"k": "int", "v": 120}, {"k": "int", "v": 121}]
        else:
            elems = val["v"]
        if not ctx.all:
            elems = elems[:1]
        return each([(ann["of"], v) for v in elems], ctx, leaves)
    if k == "vtup":
        if vk not in ("tup", "nt"):
            raise Reject("not a tuple")
        return each([(ann["of"], v) for v in val["v"]], ctx, leaves)
    if k == "tup":
        if vk not in ("tup", "nt"):
            raise Reject("not a tuple")
        if len(val["v"]) != len(ann["of"]):
            raise Reject("length")
        return each(zip(ann["of"], val["v"]), ctx, leaves)
    if k == "nt":
        if vk != "nt" or val["cls"] != ann["cls"]:
            raise Reject("not the named tuple")
        return each(zip(ann["of"], val["v"]), ctx, leaves)
    if k == "dict":
        if vk != "dict":
            raise Reject("not a dict")
        if ann.get("form") == "bare":
            return []
        return each([(ann["of"], v) for v in val["v"].values()], ctx, leaves)
    if k == "td":
        if vk != "dict":
            raise Reject("not a dict")
        if not required(ann) <= set(val["v"]) <= set(ann["of"]):
            raise Reject("keys")
        return each([(a, val["v"][key]) for key, a in ann["of"].items() if key in val["v"]], ctx, leaves)
    if k == "set":
        if vk != "set":
            raise Reject("not a set")
        return each([(ann["of"], v) for v in val["v"]], ctx, leaves)
    if k in ("opt", "union"):
        alts = ann["of"] if k == "union" else [ann["of"], {"k": "none"}]
        good = []
        for a in alts:
            sub = []
            try:
                eqs = check(a, val, ctx, sub)
            except Reject:
                continue
            good.append((eqs, sub))
        if not good:
            raise Reject("union")
        if len(good) > 1:
            raise Unknown("several types of a union match")
        leaves.extend(good[0][1])
        return good[0][0]
    if k == "none":
        if vk != "none":
            raise Reject("not None")
        return []
    if k in ANY_KINDS:
        if ctx.non_asta:
            other(k, val)
        return []
    raise Unknown(k)


def judge(items, ctx, base=()):
    """ Judge (ann, val) pairs together.  -> (status, eqs, info, leaves)

    status: 'acc', 'rej' or 'unk'; info: reason of the rejection, a dict.
    """
    leaves = []
    eqs = list(base)
    unk = None
    unsure = []
    rej = None
    per = {}
    for name, ann, val in items:
        had = len(leaves)
        try:
            eqs = eqs + check(ann, val, ctx, leaves)
            per[name] = len(leaves) - had
        except Reject as err:
            if rej is None:
                rej = {"why": err.why, "name": err.name, "param": name}
            else:
                rej.setdefault("more", []).append(name)
            rej.setdefault("whys", {})[name] = err.why
        except Unknown as err:
            unk = str(err)
            unsure.append(name)
    if rej and unk:
        # Whatever the message says may be about one of these.
        rej["unk"] = unk
        rej.setdefault("more", []).extend(unsure)
    if rej:
        return "rej", [], rej, leaves
    if unk:
        return "unk", [], {"why": unk}, leaves
    ok = solvable(eqs)
    if ok is None:
        return "unk", [], {"why": "system"}, leaves
    if not ok:
        return "rej", [], {"why": "joint", "param": None}, leaves
    return "acc", eqs, {"per": per}, leaves


# --------------------------------------------------------------------------
class Register:
    """ History of one named dimension or shape; which values may a reader see? """

    def __init__(self):
        self.writes = []  # (begin, end or None, value, state)

    def begin(self, clock, value):
        w = [clock, None, value, "open"]
        self.writes.append(w)
        return w

    def candidates(self, start, end):
        """ Values an observation during [start, end] may yield. """
        cands = []
        # Assignments that returned before the observation started.
        done = [w for w in self.writes if w[3] == "ok" and w[1] is not None and w[1] < start]
        newest_begin = max((w[0] for w in done), default=None)
        if newest_begin is None:
            cands.append(UNSET)
        for w in self.writes:
            if w[0] > end:
                continue
            if w[3] == "rejected":
                continue
            # Overwritten by one that began after this one ended, before the start?
            if w[1] is not None and any(d[0] > w[1] for d in done if d is not w):
                continue
            v = w[2]
            if v not in cands:
                cands.append(v)
        return cands
