"""Library boundary: axiomatised numpy / astropy / scipy as seen by the code under verification.

Every entry here is an assumed contract on a dependency (listed in the evidence as trusted).
Anything not listed raises Unsupported when it meets symbolic data.
"""
import builtins, types, math, collections, inspect
import numpy as np
import astropy.units as au
from astropy.units import UnitBase
from .terms import *
from . import terms as T
from .ctx import *
from .sym import *
from . import sym as S_
from .ctx import unsupported

SMALL = 64


class SymSeq:
    """sequence of symbolic length n whose k-th element is given by a function of k"""

    def __init__(self, n, elem, pre=None):
        self.n = canon(lift(n))
        self._elem = elem
        self.items = None

    def elem(self, i):
        return self._elem(lift(i))

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, m, st = slice_bounds(k, self.n)
            return SymSeq(m, lambda i: self.elem(add(lo, mul(const(st), i))))
        i = k.term() if isinstance(k, Sym) else lift(int(k))
        return self.elem(norm_index(i, self.n))

    def __len__(self):
        if self.n.op == "const": return int(self.n.val)
        unsupported("len() of a symbolic sequence")

    def __iter__(self):
        if self.n.op == "const":
            return iter([self.elem(const(i)) for i in range(int(self.n.val))])
        unsupported("iteration over a symbolic-length sequence")

    def __bool__(self):
        return decide(lt(ZERO, self.n))

    def __contains__(self, x):
        if self.n.op == "const": return any(bool(e == x) for e in self)
        return bool(v_any(eval_map(self, lambda e: e == x)))

    def __mul__(self, o):
        if isinstance(o, UnitBase): return coerce(self) * o
        unsupported("symbolic list * %r" % type(o))
    __rmul__ = __mul__

    def _as_sym(self):
        v = fresh("i", "int", "nonneg")
        c = CUR[0]
        n0 = len(c.pc)
        m0 = c.enter(v, self.n)
        try:
            e = coerce(self.elem(v))
        except BaseException:
            del c.pc[n0:n0 + m0]
            raise
        c.leave(v, n0, m0, "sequence")
        unit, kind = e._unit, e.kind
        memo = {}

        def f(idx):
            i = idx[0]
            x = memo.get(i)
            if x is None:
                x = coerce(self.elem(i))
                memo[i] = x
            g = x.elem_in(unit)
            return g(idx[1:])
        return Sym(f, (self.n,) + e._shape, unit, kind)
    _vf_symbolic = True


class SymList(SymSeq):
    """a list of symbolic length that grows at its end (in place, as python lists do)"""

    def append(self, x):
        n, old = self.n, self._elem

        def elem(i):
            c = canon(eq(i, n))
            if c is TRUE: return x
            if c is FALSE: return old(i)
            a, b = coerce(old(i)), coerce(x)
            if a.ndim or b.ndim or a._unit is not None or b._unit is not None: unsupported("list of arrays of symbolic length")
            return Sym.scalar(ite(c, b.term(), a.term()), None, "f" if "f" in (a.kind, b.kind) else a.kind)
        self._elem, self.n = elem, canon(add(n, ONE))

    def __iadd__(self, xs):
        if not isinstance(xs, (list, tuple)): unsupported("list of symbolic length extended by %r" % type(xs))
        for x in xs: self.append(x)
        return self

    def extend(self, xs): self += xs


def as_seq(x):
    """iterable -> SymSeq when its length is symbolic, else None"""
    if isinstance(x, SymSeq):
        return x if x.n.op != "const" else None
    if isinstance(x, Sym):
        if x._shape and x._shape[0].op != "const":
            return SymSeq(x._shape[0], lambda i: x._row(lift(i)))
        return None
    if isinstance(x, MaskIdx):
        if x.n.op == "const": return None
        s = x._sym()
        return SymSeq(s._shape[0], lambda i: s._row(lift(i)))
    return None


def eval_map(seq, fn):
    """[fn(e) for e in seq] over a symbolic length: evaluated once at an arbitrary index"""
    c = CUR[0]
    v = fresh("m", "int", "nonneg")
    n0 = len(c.pc)
    m0 = c.enter(v, seq.n)
    c.map_vars = getattr(c, "map_vars", []) + [v]
    try:
        r = fn(seq.elem(v))
    finally:
        c.map_vars = c.map_vars[:-1]
    c.leave(v, n0, m0, "comprehension")
    return SymSeq(seq.n, lambda i: inst(r, v, i))


def inst(r, v, i):
    """instantiate the arbitrary index v of an evaluated element"""
    if i is v: return r
    if isinstance(r, Sym):
        f = r.box.f
        w = []
        return Sym(lambda idx: subst(f(idx), {v: i}), tuple(subst(s, {v: i}) for s in r._shape), r._unit, r.kind)
    if isinstance(r, MaskIdx):
        mf = r.maskf
        return MaskIdx(r.n, lambda k: subst(mf(k), {v: i}))
    if isinstance(r, (tuple, list)):
        return type(r)(inst(x, v, i) for x in r)
    if isinstance(r, SymSeq):
        return SymSeq(subst(r.n, {v: i}), lambda k: inst(r.elem(k), v, i))
    return r


def listcomp(it, fn, cond=None):
    seq = as_seq(it)
    if seq is None:
        if cond is None: return [fn(x) for x in it]
        return [fn(x) for x in it if cond(x)]
    if cond is not None: unsupported("filtered comprehension over a symbolic length")
    return eval_map(seq, fn)


def genexp(it, fn, cond=None):
    if as_seq(it) is not None: return listcomp(it, fn, cond)
    if cond is None: return (fn(x) for x in it)
    return (fn(x) for x in it if cond(x))


# ---------------------------------------------------------------- builtins
def v_len(x):
    if isinstance(x, Sym):
        if not x._shape: raise TypeError("len() of unsized object")
        return dimint(x._shape[0])
    if isinstance(x, SymSeq): return dimint(x.n)
    if isinstance(x, MaskIdx): return x.size
    if isinstance(x, SymTable): return dimint(x.nrows)
    return builtins.len(x)


def v_range(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            n = a[0].term() if isinstance(a[0], Sym) else lift(a[0])
            return SymSeq(n, lambda i: Sym.scalar(i, kind="i"))
        if len(a) == 2:
            lo = coerce(a[0]).term(); hi = coerce(a[1]).term()
            return SymSeq(sub(hi, lo), lambda i: Sym.scalar(add(lo, i), kind="i"))
        unsupported("range with symbolic step")
    return builtins.range(*a)


def v_zip(*its):
    if any(as_seq(x) is not None for x in its):
        ss = []
        for x in its:
            s = as_seq(x)
            if s is None:
                if isinstance(x, (builtins.list, builtins.tuple, Sym, SymSeq)):
                    unsupported("zip of symbolic and concrete lengths")
                unsupported("zip of %r" % type(x))
            ss.append(s)
        for s in ss[1:]:
            if s.n is not ss[0].n and not decide(eq(s.n, ss[0].n)):
                unsupported("zip of different symbolic lengths")
        return SymSeq(ss[0].n, lambda i: tuple(s.elem(i) for s in ss))
    return builtins.zip(*its)


def v_enumerate(it, start=0):
    s = as_seq(it)
    if s is None: return builtins.enumerate(it, start)
    return SymSeq(s.n, lambda i: (Sym.scalar(add(i, lift(start)), kind="i"), s.elem(i)))


def v_reversed(it):
    s = as_seq(it)
    if s is None:
        return builtins.reversed(it)
    return SymSeq(s.n, lambda i: s.elem(sub(sub(s.n, ONE), i)))


def v_list(it=()):
    s = as_seq(it)
    if s is None: return builtins.list(it)
    return s


def v_tuple(it=()):
    s = as_seq(it)
    if s is None: return builtins.tuple(it)
    return s


def v_sum(it, start=0):
    if isinstance(it, Sym) or isinstance(it, SymSeq):
        if as_seq(it) is not None:
            return start + np_reduce("sum", coerce(it), 0) if not (isinstance(start, int) and start == 0) else np_reduce("sum", coerce(it), 0)
    return builtins.sum(it, start)


def v_minmax(which):
    real = getattr(builtins, which)

    def f(*a, **k):
        if len(a) == 1 and isinstance(a[0], types.GeneratorType): a = (builtins.list(a[0]),)
        if len(a) == 1 and (isinstance(a[0], (Sym, SymSeq)) ) and not k:
            return np_reduce(which, coerce(a[0]))
        if len(a) == 1 and isinstance(a[0], (builtins.list, builtins.tuple)) and any_sym(a[0]) and not k:
            return np_reduce(which, coerce(a[0]))
        if len(a) > 1 and any(isinstance(x, Sym) for x in a) and not k:
            r = a[0]
            for x in a[1:]:
                r = NPF["minimum" if which == "min" else "maximum"](r, x)
            return r
        return real(*a, **k)
    return f


def v_any(it):
    if isinstance(it, (Sym, SymSeq)): return np_any(coerce(it))
    return builtins.any(it)


def v_all(it):
    if isinstance(it, (Sym, SymSeq)): return np_all(coerce(it))
    return builtins.all(it)


def v_abs(x):
    return np_abs(x) if isinstance(x, Sym) else builtins.abs(x)


def v_round(x, nd=None):
    if isinstance(x, Sym):
        if nd is None: return NPF["round"](x).astype(int)
        return NPF["round"](x, nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def v_sorted(it, **k):
    if isinstance(it, (Sym,)) and as_seq(it) is not None and not k:
        return it[np_argsort(it)]
    if as_seq(it) is not None: unsupported("sorted")
    return builtins.sorted(it, **k)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return False
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)
    def __getattr__(cls, nm): return getattr(cls._real, nm)


def _fconv(x=0.0):
    if isinstance(x, Sym):
        if x.kind == "s":
            return x._pynum("float")
        if x._unit is not None: x = x.to(au.dimensionless_unscaled)
        r = Sym.scalar(x.term())
        return r
    if isinstance(x, SymStr): return x.to_float()
    return float(x)


def _iconv(x=0, *a):
    if isinstance(x, Sym):
        if x._unit is not None: x = x.to(au.dimensionless_unscaled)
        t = canon(x.term())
        if t.op == "const": return int(t.val)
        if x.kind == "i": return Sym.scalar(t, kind="i")
        return Sym.scalar(app("int", (t,)), kind="i")
    if isinstance(x, SymStr): return x.to_int()
    return int(x, *a)


class _SeqMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or (isinstance(x, SymSeq) and cls._real is list)
    def __subclasscheck__(cls, c): return issubclass(c, cls._real)
    def __call__(cls, *a):
        return cls._conv(*a)
    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)
    def __getattr__(cls, nm): return getattr(cls._real, nm)


VList = _SeqMeta("list", (), {"_real": list, "_conv": staticmethod(v_list)})
VTuple = _SeqMeta("tuple", (), {"_real": tuple, "_conv": staticmethod(v_tuple)})


class SymStr(str):
    """the text of an arbitrary number: reads as that number, and as an integer only if it is written as one; no blank or
    line break inside.  Anything else done to it is refused (the underlying characters are a placeholder)."""
    def __new__(cls, num, integer=False):
        s = str.__new__(cls, "7" if integer else "7.25")
        s.num, s.integer = num, integer
        return s

    def to_float(self): return self.num

    def to_int(self):
        if not self.integer: raise ValueError("invalid literal for int() with base 10")
        return self.num

    def strip(self, *a): return self
    lstrip = rstrip = strip

    def replace(self, a, b, *n):
        if any(ch in "0123456789+-.eE" for ch in a) and not (a == "." and not b): unsupported("replacement inside a number's text")
        if a == "." and not b: return SymStr(None, True)
        return self

    def __eq__(self, o):
        if isinstance(o, SymStr): return self.num is o.num or unsupported("comparison of number texts")
        if isinstance(o, str):
            try: float(o)
            except ValueError: return False
            unsupported("comparison with a number's text")
        return False

    def __ne__(self, o): return not (self == o)
    def __hash__(self): unsupported("number text used as a key")

    def __contains__(self, o):
        if any(ch not in "0123456789+-.eE" for ch in o): return False
        unsupported("search inside a number's text")


def _refuse(nm):
    def f(self, *a, **k): unsupported("str.%s on the text of a number" % nm)
    return f


for _nm in ("split", "rsplit", "lower", "upper", "startswith", "endswith", "isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "find", "index", "count",
            "partition", "rpartition", "encode", "splitlines", "casefold", "join", "title", "capitalize", "translate", "__getitem__", "__iter__", "__add__"):
    setattr(SymStr, _nm, _refuse(_nm))


VFloat = _NumMeta("float", (), {"dtype": np.dtype(float), "_real": float, "_conv": staticmethod(_fconv)})
VInt = _NumMeta("int", (), {"dtype": np.dtype(int), "_real": int, "_conv": staticmethod(_iconv)})


def v_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(v_isinstance(x, c) for c in cls)
    if isinstance(x, Sym):
        if cls is VFloat or cls is float:
            return x._unit is None and x.kind == "f" and x._shape == () and not x.column
        if cls is VInt or cls is int:
            return x._unit is None and x.kind == "i" and x._shape == ()
        if cls in (list, tuple, dict, str, VList, VTuple): return cls is str and x.kind == "s" and x._shape == ()
        if cls is bool: return x.kind == "b" and x._shape == ()
    if isinstance(x, SymSeq) and (cls is list or cls is VList): return True
    if cls is VFloat: cls = float
    if cls is VInt: cls = int
    if cls is VList: cls = list
    if cls is VTuple: cls = tuple
    return builtins.isinstance(x, cls)


def v_hasattr(x, nm):
    if nm == "__dict__" and isinstance(x, (Sym, SymSeq)): return False
    return builtins.hasattr(x, nm)


def v_map(fn, *its):
    if any(as_seq(x) is not None for x in its):
        if len(its) == 1: return eval_map(as_seq(its[0]), fn)
        return eval_map(v_zip(*its), lambda t: fn(*t))
    return builtins.map(fn, *its)


# ---------------------------------------------------------------- numpy
NPF = {}


_HARMLESS = {"dtype", "copy", "order", "kind", "casting", "subok", "like", "precision", "suppress_small"}


def npf(*names, always=False):
    """a function of numpy under contract.  A keyword the contract does not name is refused, not ignored."""
    def deco(f):
        ufunc = isinstance(getattr(np, names[0], None), np.ufunc)
        sig = inspect.signature(f).parameters
        takes = {p.name for p in sig.values() if p.kind is p.POSITIONAL_OR_KEYWORD or p.kind is p.KEYWORD_ONLY}
        nin = getattr(np, names[0]).nin if ufunc else 0

        def g(*a, **k):
            if not always and not any_sym(*a) and not any_sym(*k.values()):
                return getattr(np, names[0])(*a, **k)
            out = where = None
            if ufunc:
                if len(a) > nin:
                    if len(a) > nin + 1: unsupported("numpy.%s(*)" % names[0])
                    a, k = a[:nin], {**k, "out": a[nin]}
                out, where = k.pop("out", None), k.pop("where", None)
                if isinstance(out, tuple): out = out[0] if len(out) == 1 else unsupported("out=")
                if where is True: where = None
            for q in k:
                if q not in takes and q not in _HARMLESS and k[q] is not None and k[q] is not False: unsupported("numpy.%s(%s=)" % (names[0], q))
            if q_float(k): k.pop("dtype", None) if "dtype" not in takes else None
            r = f(*a, **k)
            if where is not None:
                if out is None: unsupported("where= without out=")
                r = _where(where, r, out)
            if out is not None:
                if not isinstance(out, Sym): unsupported("out=")
                if out._unit is None and r._unit is not None: raise TypeError("cannot store quantity in an array")
                out[...] = r if out._unit is not None else r
                return out
            return r
        g.__name__ = names[0]
        if ufunc:
            def refuse(*a, **k): unsupported("method of the ufunc numpy.%s" % names[0])
            g.reduce = g.accumulate = g.outer = g.at = g.reduceat = refuse
        for n in names:
            NPF[n] = g
        return f
    return deco


def q_float(k): return k.get("dtype") in (float, np.float64, VFloat, None) or getattr(k.get("dtype"), "_real", None) is float


def _dless(x):
    x = coerce(x)
    if x._unit is not None:
        if not x._unit.is_equivalent(au.dimensionless_unscaled):
            raise au.UnitTypeError("Can only apply function to dimensionless quantities")
        return Sym(x.elem_in(au.dimensionless_unscaled), x._shape, au.dimensionless_unscaled)
    return num(x)


def _un(fname, flags=None):
    def f(x, *a, **k):
        x = _dless(x)
        return elementwise(lambda t: app(fname, (t,), flags), x, unit=x._unit)
    return f


npf("exp")(_un("exp"))
npf("log")(_un("log"))
npf("log10")(_un("log10"))


@npf("log2")
def _log2(x): return NPF["log"](x) / float(np.log(2.0))


@npf("sqrt")
def _sqrt(x):
    x = num(coerce(x))
    return elementwise(lambda t: sqrt(t), x, unit=None if x._unit is None else x._unit ** 0.5)


@npf("square")
def _square(x): return coerce(x) ** 2


@npf("power")
def _power(a, b): return coerce(a) ** b


npf("abs", "absolute", "fabs")(lambda x: np_abs(x))


@npf("floor")
def _floor(x):
    x = coerce(x)        # the unit is kept: floor(3.5 min) is 3 min
    return elementwise(lambda t: app("floor", (t,)), x, unit=x._unit, kind="f")


@npf("ceil")
def _ceil(x):
    x = coerce(x)        # the unit is kept: floor(3.5 min) is 3 min
    return elementwise(lambda t: app("ceil", (t,)), x, unit=x._unit, kind="f")


@npf("trunc", "fix")
def _trunc(x):
    x = coerce(x)        # the unit is kept: floor(3.5 min) is 3 min
    return elementwise(lambda t: app("int", (t,)), x, unit=x._unit, kind="f")


@npf("modf")
def _modf(x):
    x = _dless(x)
    i = _trunc(x)
    return x - i, i


@npf("round", "around")
def _round(x, decimals=0, **k):
    x = coerce(x)
    d = Fr(10) ** int(decimals)
    f = (lambda t: app("rint", (t,))) if d == 1 else (lambda t: mul(const(1 / d), app("rint", (mul(const(d), t),))))
    return elementwise(f, x, unit=x._unit)


@npf("isnan")
def _isnan(x):
    x = coerce(x)
    return elementwise(lambda t: T.isnan(t), x, kind="b")


@npf("isfinite")
def _isfinite(x):
    x = coerce(x)
    return elementwise(lambda t: not_(T.isnan(t)), x, kind="b")


@npf("isinf")
def _isinf(x):
    x = coerce(x)
    return elementwise(lambda t: FALSE, x, kind="b")


@npf("nan_to_num")
def _n2n(x, nan=0.0, **k):
    x = coerce(x)
    return elementwise(lambda t: ite(T.isnan(t), lift(nan), t), x, unit=x._unit)


npf("logical_and", "bitwise_and")(lambda a, b, **k: boollike(a, b, and_))
npf("logical_or", "bitwise_or")(lambda a, b, **k: boollike(a, b, or_))
npf("logical_not", "invert")(lambda a: ~(coerce(a) if coerce(a).kind == "b" else coerce(a).astype(bool)))
npf("logical_xor")(lambda a, b: boollike(a, b, lambda x, y: not_(iff(x, y))))
npf("add")(lambda a, b: addlike(a, b, add))
npf("subtract")(lambda a, b: addlike(a, b, sub))
npf("multiply")(lambda a, b: mullike(coerce(a), b))
npf("divide", "true_divide")(lambda a, b: divlike(coerce(a), b))
npf("floor_divide")(lambda a, b: coerce(a) // b)
npf("negative")(lambda a: -coerce(a))
npf("greater")(lambda a, b: coerce(a) > b)
npf("greater_equal")(lambda a, b: coerce(a) >= b)
npf("less")(lambda a, b: coerce(a) < b)
npf("less_equal")(lambda a, b: coerce(a) <= b)
npf("equal")(lambda a, b: coerce(a) == b)
npf("not_equal")(lambda a, b: coerce(a) != b)
npf("any")(lambda a, axis=None, **k: np_any(a, axis))
npf("all")(lambda a, axis=None, **k: np_all(a, axis))
npf("dot")(lambda a, b: np_dot(a, b))
npf("ravel")(lambda a: np_ravel(a))
npf("argsort")(lambda a, **k: np_argsort(a))
npf("sort")(lambda a, **k: coerce(a)[np_argsort(a)])
npf("argmin")(lambda a, **k: np_arg("argmin", a))
npf("argmax")(lambda a, **k: np_arg("argmax", a))
npf("prod")(lambda a, axis=None, **k: np_reduce("prod", a, axis))
npf("sum")(lambda a, axis=None, **k: np_reduce("sum", a, axis))
npf("min", "amin", "nanmin")(lambda a, axis=None, **k: np_reduce("min", a, axis))
npf("max", "amax", "nanmax")(lambda a, axis=None, **k: np_reduce("max", a, axis))
npf("mean")(lambda a, axis=None, **k: np_mean(a, axis))
npf("ptp")(lambda a: np_reduce("max", a) - np_reduce("min", a))
npf("inner")(lambda a, b: np_dot(a, b) if coerce(a).ndim == coerce(b).ndim == 1 else unsupported("inner"))
npf("vdot")(lambda a, b: np_dot(a, b) if coerce(a).ndim == coerce(b).ndim == 1 else unsupported("vdot"))
npf("matmul")(lambda a, b: np_dot(a, b) if coerce(a).ndim and coerce(b).ndim else unsupported("matmul"))
npf("hypot")(lambda a, b: _sqrt(coerce(a) ** 2 + coerce(b) ** 2))
npf("reciprocal")(lambda a: divlike(coerce(1.0), a))
npf("positive")(lambda a: coerce(a).copy())
npf("take")(lambda a, i, axis=None: coerce(a)[i] if coerce(a).ndim == 1 else unsupported("take"))
npf("compress", "extract")(lambda m, a, axis=None: coerce(a)[m] if coerce(a).ndim == 1 else unsupported("compress"))
npf("isclose")(lambda a, b, rtol=1e-5, atol=1e-8: np_abs(coerce(a) - b) <= coerce(atol) + coerce(rtol) * np_abs(coerce(b)))
npf("ediff1d")(lambda a: _diff(a))
npf("column_stack")(lambda xs: stack(list(xs)).T if all(coerce(x).ndim == 1 for x in xs) else unsupported("column_stack"))
npf("broadcast_to")(lambda a, sh: Sym(broadcast_to(coerce(a), _shape_arg(sh)), _shape_arg(sh), coerce(a)._unit, coerce(a).kind))


@npf("average")
def _average(a, axis=None, weights=None):
    if weights is None: return np_mean(a, axis)
    a, weights = coerce(a), coerce(weights)
    if a.ndim != 1 or weights.ndim != 1: unsupported("weighted average")
    return np_reduce("sum", a * weights) / np_reduce("sum", weights)


@npf("nanmean")
def _nanmean(a, axis=None):
    a = coerce(a)
    if a.ndim != 1 or axis is not None: unsupported("nanmean")
    return np_reduce("sum", _n2n(a)) / np_reduce("sum", ~_isnan(a))


@npf("sign")
def _sign(a):
    a = coerce(a)
    return elementwise(lambda t: ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), const(-1), ZERO)), num(a), kind=a.kind)


@npf("cumsum")
def _cumsum(a, axis=None):
    a = num(coerce(a))
    if a.ndim != 1: unsupported("cumsum")
    f = a.box.f
    return Sym(lambda idx: sum_(add(idx[0], ONE), lambda i: f((i,))), a._shape, a._unit, a.kind)


@npf("roll")
def _roll(a, shift, axis=None):
    a = coerce(a)
    if a.ndim != 1 or isinstance(shift, Sym) or int(shift) not in (1, -1): unsupported("roll")
    f, n = a.box.f, a._shape[0]
    if int(shift) == 1: g = lambda idx: f((ite(eq(idx[0], ZERO), sub(n, ONE), sub(idx[0], ONE)),))
    else: g = lambda idx: f((ite(eq(idx[0], sub(n, ONE)), ZERO, add(idx[0], ONE)),))
    return Sym(g, a._shape, a._unit, a.kind)


@npf("expand_dims")
def _expand(a, axis):
    a = coerce(a)
    if a.ndim != 1 or axis not in (0, 1, -1): unsupported("expand_dims")
    return a[None, :] if axis == 0 else a[:, None]


@npf("atleast_2d")
def _a2d(a):
    a = coerce(a)
    if a.ndim != 1: unsupported("atleast_2d")
    return a[None, :]


@npf("select")
def _select(conds, vals, default=0):
    r = default
    for c, v in reversed(list(zip(conds, vals))): r = _where(c, v, r)
    return r


def _fromiter(it, dtype=float, count=-1, **k):
    xs = list(it) if not isinstance(it, Sym) else it
    if not any_sym(xs): return np.fromiter(xs, getattr(dtype, "_real", dtype), count)
    return _array(xs if count in (-1, None) else xs[:count], dtype)


NPF["fromiter"] = _fromiter


@npf("swapaxes")
def _swap(a, i, j):
    a = coerce(a)
    if a.ndim != 2 or i == j: unsupported("swapaxes")
    return a.T
npf("copy")(lambda a: coerce(a).copy())
npf("transpose")(lambda a: coerce(a).T)
npf("squeeze")(lambda a, **k: coerce(a).squeeze())
npf("shape")(lambda a: coerce(a).shape)
npf("size")(lambda a: coerce(a).size)
npf("ndim")(lambda a: coerce(a).ndim)
npf("nansum")(lambda a, axis=None: np_reduce("sum", _n2n(a), axis))


@npf("minimum", "fmin")
def _minimum(a, b):
    u, a, b = common_unit(num(coerce(a)), num(coerce(b)))
    return elementwise(lambda x, y: ite(lt(y, x), y, x), a, b, unit=u, kind=numkind(a, b))


@npf("maximum", "fmax")
def _maximum(a, b):
    u, a, b = common_unit(num(coerce(a)), num(coerce(b)))
    return elementwise(lambda x, y: ite(lt(x, y), y, x), a, b, unit=u, kind=numkind(a, b))


def _ufunc_reduce(name, red):
    def reduce(a, axis=0, **k):
        if k: unsupported("keywords of %s.reduce" % name)
        if not any_sym(a): return getattr(np, name).reduce(a, axis=axis)
        a = stack_if_list(a)
        return red(a, axis if a.ndim > 1 else None)
    NPF[name].reduce = reduce


def stack_if_list(a):
    return stack([coerce(x) for x in a]) if isinstance(a, (list, tuple)) and coerce(a[0]).ndim else coerce(a)


_ufunc_reduce("add", lambda a, x: np_reduce("sum", a, x))
_ufunc_reduce("multiply", lambda a, x: np_reduce("prod", a, x))
_ufunc_reduce("minimum", lambda a, x: np_reduce("min", a, x))
_ufunc_reduce("maximum", lambda a, x: np_reduce("max", a, x))
_ufunc_reduce("logical_and", lambda a, x: np_all(a) if x is None else unsupported("reduce"))
_ufunc_reduce("logical_or", lambda a, x: np_any(a) if x is None else unsupported("reduce"))


@npf("clip")
def _clip(a, lo=None, hi=None, a_min=None, a_max=None, **k):
    lo, hi = a_min if lo is None else lo, a_max if hi is None else hi
    if lo is not None: a = _maximum(a, lo)
    if hi is not None: a = _minimum(a, hi)
    return a


@npf("where")
def _where(c, *ab):
    c = coerce(c)
    if c.kind != "b": c = c.astype(bool)
    if not ab:
        if c.ndim == 1:
            f = c.box.f
            return (MaskIdx(c._shape[0], lambda i: f((i,))),)
        unsupported("np.where on %d-d" % c.ndim)
    a, b = coerce(ab[0]), coerce(ab[1])
    if a.kind == "s" or b.kind == "s":
        return elementwise(ite, c, a, b, kind="s")
    u, a, b = common_unit(num(a), num(b))
    return elementwise(ite, c, a, b, unit=u, kind=numkind(a, b))


@npf("flatnonzero")
def _flatnonzero(c): return _nonzero(c)[0]


@npf("nonzero")
def _nonzero(c):
    c = coerce(c)
    if c.ndim != 1: unsupported("nonzero nd")
    f = c.box.f
    g = (lambda i: f((i,))) if c.kind == "b" else (lambda i: not_(eq(f((i,)), ZERO)))
    return (MaskIdx(c._shape[0], g),)


@npf("count_nonzero")
def _cnz(c):
    return _nonzero(c)[0].size


def _shape_arg(sh):
    if isinstance(sh, (tuple, list)):
        return tuple(dimterm(s) for s in sh)
    return (dimterm(sh),)


def _is_big(sh):
    if any(isinstance(s, Sym) for s in (sh if isinstance(sh, (tuple, list)) else (sh,))):
        return False
    p = 1
    for s in (sh if isinstance(sh, (tuple, list)) else (sh,)):
        p *= int(s)
    return p > SMALL


def _filled(name, val):
    def f(shape, dtype=float, *a, **k):
        if _is_big(shape):
            return getattr(np, name)(shape, getattr(dtype, "_real", dtype), *a, **k)
        kd = kind_of_dtype(getattr(dtype, "_real", dtype))
        t = lift(val)
        if kd == "b": t = lift(bool(val))
        if kd == "s": t = lift(str(val) if val else "")
        return Sym(lambda idx: t, _shape_arg(shape), None, "f" if kd == "O" else kd)
    return f


NPF["zeros"] = _filled("zeros", 0)
NPF["ones"] = _filled("ones", 1)


def _empty(shape, dtype=float, *a, **k):
    if _is_big(shape): return np.empty(shape, getattr(dtype, "_real", dtype))
    fresh_name = fresh("uninit").val
    return Sym(lambda idx: app(fresh_name, idx, set()), _shape_arg(shape), None, "f")


NPF["empty"] = _empty


def _full(shape, fill_value, dtype=None, **k):
    if _is_big(shape) and not any_sym(fill_value): return np.full(shape, fill_value)
    v = coerce(fill_value)
    sh = _shape_arg(shape)
    f = broadcast_to(v, sh)
    return Sym(f, sh, v._unit, "f" if v.kind == "i" and dtype is not None else v.kind)


NPF["full"] = _full


@npf("zeros_like")
def _zl(x, dtype=None, **k):
    x = coerce(x)
    k = x.kind if dtype is None else kind_of_dtype(getattr(dtype, "_real", dtype))
    z = FALSE if k == "b" else ZERO
    return Sym(lambda idx: z, x._shape, x._unit, k)


@npf("ones_like")
def _ol(x, dtype=None, **k):
    x = coerce(x)
    k = x.kind if dtype is None else kind_of_dtype(getattr(dtype, "_real", dtype))
    o = T.TRUE if k == "b" else ONE
    return Sym(lambda idx: o, x._shape, x._unit, k)


@npf("empty_like")
def _el(x, dtype=None, **k):
    x = coerce(x)
    nm = fresh("uninit").val
    return Sym(lambda idx: app(nm, idx, set()), x._shape, x._unit, x.kind if dtype is None else kind_of_dtype(getattr(dtype, "_real", dtype)))


@npf("full_like")
def _fl(x, fill, dtype=None, **k):
    x = coerce(x)
    if dtype is not None: x = x.astype(getattr(dtype, "_real", dtype))
    elif x.kind == "i" and coerce(fill).kind == "f": unsupported("full_like of integers")
    f = broadcast_to(x._conv_in(fill), x._shape)
    return Sym(f, x._shape, x._unit, x.kind)


def _array(x, dtype=None, copy=True, **k):
    if type(x).__name__ == "Struct": return x.copy()
    if isinstance(x, SymSeq):
        x = coerce(x)
    if not any_sym(x):
        r = np.array(x, getattr(dtype, "_real", dtype)) if dtype is not None else np.array(x)
        if isinstance(x, au.Quantity): r = np.array(x.value)
        if r.size <= SMALL and r.dtype.kind in "fiub" and r.ndim <= 2 and not isinstance(x, au.Quantity):
            return S_._from_array(r, None)
        return r
    if isinstance(x, MaskIdx): x = x._sym()
    s = coerce(x)
    if isinstance(x, (list, tuple)) and s._unit is not None and s._unit != au.dimensionless_unscaled:
        raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
    s = s._raw()          # np.array(quantity) drops the unit
    r = s.copy() if copy else s
    if dtype is not None: r = r.astype(getattr(dtype, "_real", dtype))
    return r


NPF["array"] = _array


def _asarray(x, dtype=None, **k):
    if isinstance(x, Sym):
        if x._unit is None and not x.column: return x if dtype is None else x.astype(dtype)
        return _array(x, dtype, copy=False)
    return _array(x, dtype, copy=False)


NPF["asarray"] = _asarray
NPF["ascontiguousarray"] = _asarray
NPF["asanyarray"] = lambda x, *a, **k: x if isinstance(x, Sym) else _asarray(x)
NPF["atleast_1d"] = lambda x: (x if coerce(x).ndim else np_ravel(coerce(x))) if any_sym(x) else np.atleast_1d(x)
NPF["float64"] = VFloat
NPF["isscalar"] = lambda x: (x._shape == () and x._unit is None) if isinstance(x, Sym) else np.isscalar(x)


@npf("trapz")
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = coerce(y)
    f = y.box.f
    if x is None:
        raise_dx = coerce(dx)
        n = y._shape[0]
        return np_reduce("sum", (y[1:] + y[:-1])) * 0.5 * raise_dx
    x = coerce(x)
    g = x.box.f
    if x.ndim != 1: unsupported("trapz x")
    u = None
    if x._unit is not None or y._unit is not None:
        u = (y._unit or au.dimensionless_unscaled) * (x._unit or au.dimensionless_unscaled)
    n = x._shape[0]
    if y.ndim == 1:
        bshape(y._shape, x._shape)
        m = canon(sub(n, ONE))
        return Sym.scalar(trapz_term(n, lambda i: f((i,)), lambda i: g((i,))), u)
    if y.ndim == 2:
        if axis not in (-1, 1): unsupported("trapz axis")
        return Sym(lambda idx: trapz_term(n, lambda i: f((idx[0], i)), lambda i: g((i,))), (y._shape[0],), u)
    unsupported("trapz")


NPF["trapezoid"] = NPF["trapz"]


def trapz_term(n, f, g):
    m = canon(sub(n, ONE))
    def body(i):
        j = add(i, ONE)
        return mul(const(Fr(1, 2)), sub(g(j), g(i)), add(f(i), f(j)))
    return sum_(m, body)


@npf("diff")
def _diff(x, n=1, axis=-1):
    x = coerce(x)
    if n != 1 or x.ndim != 1: unsupported("diff")
    f = x.box.f
    m = canon(sub(x._shape[0], ONE))
    return Sym(lambda idx: sub(f((add(idx[0], ONE),)), f((idx[0],))), (m,), x._unit, x.kind)


@npf("append")
def _append(a, b, axis=None):
    a, b = np_ravel(a), np_ravel(b)
    return concat([a, b])


def concat(xs, axis=0):
    xs = [coerce(x) for x in xs]
    u = None
    for x in xs:
        if x._unit is not None: u = x._unit; break
    if u is not None:
        xs = [x if x._unit is not None else x * au.dimensionless_unscaled for x in xs]
    fs = [x.elem_in(u) for x in xs]
    kind = "s" if any(x.kind == "s" for x in xs) else ("f" if any(x.kind == "f" for x in xs) else xs[0].kind)
    offs, o = [], ZERO
    for x in xs:
        offs.append(o)
        o = canon(add(o, x._shape[0]))

    def f(idx):
        r = fs[-1]((sub(idx[0], offs[-1]),) + idx[1:]) if True else None
        for k in range(len(xs) - 2, -1, -1):
            c = canon(lt(idx[0], offs[k + 1]))
            if c is FALSE: continue
            if c is TRUE:
                r = fs[k]((sub(idx[0], offs[k]),) + idx[1:]); continue
            r = ite(c, fs[k]((sub(idx[0], offs[k]),) + idx[1:]), r)
        return r
    return Sym(lambda idx: f((canon(idx[0]),) + idx[1:]), (o,) + xs[0]._shape[1:], u, kind)


@npf("concatenate", "hstack")
def _concatenate(xs, axis=0, **k):
    xs = list(xs)
    if axis not in (0, None) and not (axis == -1 and all(coerce(x).ndim == 1 for x in xs)): unsupported("concatenate along axis %r" % (axis,))
    return concat(xs)


@npf("vstack", "row_stack")
def _vst(xs, **k): return stack(list(xs))


@npf("stack")
def _stack(xs, axis=0, **k):
    xs = list(xs)
    if axis == 0: return stack(xs)
    if axis in (1, -1) and all(coerce(x).ndim == 1 for x in xs): return stack(xs).T
    unsupported("stack along axis %r" % (axis,))


@npf("repeat")
def _repeat(a, repeats, axis=None):
    """one value as often as told; each of a few values as often as told"""
    a = coerce(a)
    if a.ndim > 1 or axis not in (None, 0): unsupported("numpy.repeat of a table")
    n = coerce(repeats)
    if n.ndim or n.kind != "i": unsupported("numpy.repeat by a list")
    if a.ndim == 1 and a._shape[0].op != "const": unsupported("numpy.repeat of a list of any length")
    if a.ndim == 0: return _full(repeats, a)
    return concat([_full(repeats, a[i]) for i in range(int(a._shape[0].val))])


@npf("tile")
def _tile(a, reps):
    a = coerce(a)
    if a.ndim == 0 or (a.ndim == 1 and a._shape[0] == ONE): return _full(reps, a if a.ndim == 0 else a[0])
    if a.ndim == 1 and isinstance(reps, int) and reps >= 1: return concat([a] * reps)
    unsupported("numpy.tile")


npf("expm1")(lambda x: NPF["exp"](x) - 1.0)
npf("log1p")(lambda x: NPF["log"](coerce(1.0) + x))
npf("exp2")(lambda x: coerce(2.0) ** x)
npf("float_power")(lambda a, b: coerce(a).astype(float) ** b)
npf("deg2rad", "radians")(lambda x: coerce(x) * float(np.pi / 180) if coerce(x)._unit is None else unsupported("numpy.deg2rad of a quantity"))


@npf("copyto", always=True)
def _copyto(dst, src, where=True):
    if not isinstance(dst, Sym):
        if any_sym(src, where): unsupported("numpy.copyto into an array that is not symbolic")
        return np.copyto(dst, src, where=where)
    dst[...] = src if where is True else _where(where, src, dst)


@npf("putmask", always=True)
def _putmask(a, mask, values):
    if coerce(values).ndim: unsupported("numpy.putmask with a list of values")
    _copyto(a, values, mask)


def _spread(f):
    def g(a, axis=None, ddof=0):
        a = coerce(a)
        if a.ndim != 1 or axis not in (None, 0): unsupported("numpy.var of a table")
        v = np_reduce("sum", (a - np_mean(a)) ** 2) / (coerce(a.size) - ddof)
        return f(v)
    return g


npf("var")(_spread(lambda v: v))
npf("std")(_spread(lambda v: _sqrt(v)))


@npf("insert")
def _insert(a, pos, v, axis=None):
    a = np_ravel(a)
    if isinstance(pos, (list, tuple)) and len(pos) == 1: pos = pos[0]
    if pos == 0 and not isinstance(pos, Sym):
        return concat([np_ravel(a._conv_in(v) if a._unit is None else coerce(v)), a])
    unsupported("np.insert")


@npf("delete")
def _delete(a, idx, axis=None):
    a = coerce(a)
    f = a.box.f
    n = a._shape[0]
    if isinstance(idx, MaskIdx):
        mf = idx.maskf
        return a._mask(n, lambda i: not_(mf(i)))
    t = coerce(idx)
    if t.ndim == 0:
        i = norm_index(t.term(), n)
        return Sym(lambda k: f((ite(lt(k[0], i), k[0], add(k[0], ONE)),)), (sub(n, ONE),), a._unit, a.kind)
    unsupported("np.delete")


@npf("flip", "flipud")
def _flip(a, axis=None):
    a = coerce(a)
    if a.ndim != 1: unsupported("flip")
    f, n = a.box.f, a._shape[0]
    return Sym(lambda idx: f((sub(sub(n, ONE), idx[0]),)), (n,), a._unit, a.kind)


def _lin(a, b, n, endpoint=True):
    m = sub(n, ONE) if endpoint else n
    return lambda i: add(a, mul(sub(b, a), div(i, m)))


@npf("linspace")
def _linspace(a, b, num=50, endpoint=True, **k):
    a, b = coerce(a), coerce(b)
    u, a, b = common_unit(a, b)
    n = dimterm(num)
    at, bt = a.term(), b.term()
    return Sym(lambda idx: _lin(at, bt, n, endpoint)(idx[0]), (n,), u)


@npf("logspace")
def _logspace(a, b, num=50, endpoint=True, **k):
    a, b = _dless(a), _dless(b)
    n = dimterm(num)
    at, bt = a.term(), b.term()
    lin = _lin(at, bt, n, endpoint)
    def f(idx):
        if idx[0] is ZERO: return app("pow10", (at,))
        return app("pow10", (canon(lin(idx[0])),))
    return Sym(f, (n,), None)


@npf("geomspace")
def _geomspace(a, b, num=50, **k):
    return _logspace(NPF["log10"](a), NPF["log10"](b), num)


@npf("arange")
def _arange(*a, **k):
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    lo, hi, st = coerce(lo), coerce(hi), coerce(st)
    u, lo, hi = common_unit(lo, hi)
    l, h, s = lo.term(), hi.term(), st.term()
    n = canon(app("ceil", (div(sub(h, l), s),)))
    if not T.nonneg(n) and decide(lt(n, ZERO)): n = ZERO
    kind = "i" if lo.kind == hi.kind == st.kind == "i" else "f"
    return Sym(lambda idx: add(l, mul(s, idx[0])), (n,), u, kind)


@npf("convolve")
def _convolve(a, v, mode="full"):
    a, v = coerce(a), coerce(v)
    if mode != "same": unsupported("convolve mode")
    u = None if a._unit is None and v._unit is None else (a._unit or au.dimensionless_unscaled) * (v._unit or au.dimensionless_unscaled)
    n, m = a._shape[0], v._shape[0]
    if not decide(le(m, n)): unsupported("kernel longer than the data")
    fa, fv = a.box.f, v.box.f
    # (a*v)[j] = sum_p v[p] a[j + (m-1)//2 - p] over valid positions
    half = app("floor", (div(sub(m, ONE), const(2)),))

    def g(idx):
        def body(p):
            q = sub(add(idx[0], half), p)
            return ite(and_(le(ZERO, q), lt(q, n)), mul(fv((p,)), fa((q,))), ZERO)
        return sum_(m, body)
    return Sym(g, (n,), u)


@npf("outer")
def _outer(a, b):
    a, b = coerce(a), coerce(b)
    return a[:, None] * b[None, :]


@npf("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8): return np_all(NPF["isclose"](a, b, rtol=rtol, atol=atol))


@npf("array_equal")
def _array_equal(a, b):
    a, b = coerce(a), coerce(b)
    if a.ndim != b.ndim: return False
    return np_all(a == b)


@npf("interp")
def _npinterp(x, xp, fp, left=None, right=None):
    x, xp, fp = coerce(x), coerce(xp), coerce(fp)
    need_sorted(xp, "np.interp")
    tag = "npinterp[%s,%s]" % (left, right)
    if isinstance(left, (int, float)) and left == right: tag = "interp1d[linear,%s]" % ("nan" if math.isnan(left) else canon(coerce(left).term()))
    return Sym(interp_fn(tag, xp, fp, x), x._shape, None)


@npf("array2string", "array_repr", "array_str")
def _a2s(x, *a, **k): return repr(x)


class NPMod(types.ModuleType):
    def __getattr__(self, nm):
        if nm in NPF: return NPF[nm]
        r = getattr(np, nm)
        if isinstance(r, types.ModuleType): return r
        if isinstance(r, type):
            if nm == "ndarray": return VNdarray
            if nm in ("str_", "float64"): return r
            return r
        if callable(r):
            def g(*a, **k):
                if any_sym(*a) or any_sym(*k.values()):
                    unsupported("numpy.%s on symbolic data" % nm)
                return r(*a, **k)
            g.__name__ = nm
            return g
        return r


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray) or (isinstance(x, Sym) and x._shape != ())


VNdarray = _NdMeta("ndarray", (), {})
NP = NPMod("numpy")


# ---------------------------------------------------------------- interpolation
def need_sorted(x, who):
    """obligation of the interpolators that do not sort their samples"""
    from . import prover
    v, n = fresh("o", "int", "nonneg"), x._shape[0]
    if n is ONE: return
    f = x.box.f
    r = prover.prove(le(f((v,)), f((add(v, ONE),))), list(ctx().pc) + [lt(add(v, ONE), n)])
    if not r.ok: unsupported("%s on samples that are not provably in increasing order" % who)


def interp_fn(tag, xp, fp, x):
    """element function of an interpolator; linear in the sampled values"""
    n = xp._shape[0]
    bshape(xp._shape, fp._shape)
    xf, ff, g = xp.box.f, fp.box.f, x.box.f
    v = fresh("s", "int", "nonneg")
    body = canon(ff((v,)))
    coef = ONE
    p = nf(body)
    if not p:
        return lambda idx: ZERO
    fills = tag[tag.index("[") + 1:-1].split(",") if "[" in tag else []
    if all(f.strip("() ") in ("linear", "0", "0.0", "nan", "None", "extrapolate", "raise") for f in fills):     # proportional to the samples
        out = None
        for m, c in p.items():
            _, o = T._split_mono(m, v)
            d = dict(o)
            if out is None: out = d
            else: out = {a: e for a, e in out.items() if d.get(a) == e}
        lead = next(iter(p.values())) if len(p) == 1 else Fr(1)
        if len(p) > 1:
            vals = list(p.values())
            if all(x == vals[0] for x in vals): lead = vals[0]
        out = {a: e for a, e in (out or {}).items()}
        cm = tuple(sorted(((a, -e) for a, e in out.items()), key=lambda z: z[0].uid))
        p2 = pmul({cm: 1 / lead}, p)
        coef = mul(const(lead), *[powc(a, e) for a, e in out.items()])
        body = poly_term(p2)
        if v not in T.fvs(body):
            # constant samples: still subject to the fill value outside the range
            pass
    ly = canon(mk_lam(v, body))
    lx = canon(lam(lambda i: xf((i,))))
    return lambda idx: mul(coef, app(tag, (n, lx, ly, canon(g(idx))), set()))


class Interp1d:
    """scipy.interpolate.interp1d"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y = coerce(x), coerce(y)
        self.kind, self.axis = kind, axis
        if assume_sorted: need_sorted(self.x, "interp1d(assume_sorted=True)")
        if isinstance(fill_value, str): fill = fill_value
        elif fill_value is None or (isinstance(fill_value, float) and math.isnan(fill_value)): fill = "raise" if bounds_error in (None, True) else "nan"
        elif isinstance(fill_value, (tuple, list)): fill = repr(tuple(fill_value))
        else:
            t = canon(coerce(fill_value).term())
            fill = str(t)
        if bounds_error and fill != "extrapolate": fill = "raise"
        self.fill = fill
        n = self.x._shape[0]
        ax = self.y._shape[0] if (axis == 0 or self.y.ndim == 1) else self.y._shape[-1]
        if ax is not n and not decide(eq(ax, n)):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")

    def __call__(self, xi):
        xi = coerce(xi)
        if xi.kind == "b": unsupported("interp of bool")
        x, y = self.x, self.y
        if self.kind == "linear" and self.fill == "extrapolate" and x._shape[0].op == "const" and x._shape[0].val == 2 and xi.ndim == 0 and (self.axis == 0 or y.ndim == 1):
            x0, x1 = x.at(0), x.at(1)
            t = div(sub(xi.term(), x0), sub(x1, x0))
            f = y.box.f
            return Sym(lambda idx: add(f((ZERO,) + idx), mul(t, sub(f((ONE,) + idx), f((ZERO,) + idx)))), y._shape[1:], None)
        if y.ndim != 1: unsupported("interp1d over several axes")
        tag = "interp1d[%s,%s]" % (self.kind, self.fill)
        if xi.ndim == 1 and xi._shape[0] is x._shape[0]:
            v = fresh("node", "int", "nonneg")
            if canon(xi.box.f((v,))) is canon(x.box.f((v,))): return Sym(y.box.f, y._shape, None)     # interpolation through its own nodes
        if self.fill == "raise":
            # the real code raises ValueError outside the sampled range: callers keep inside (precondition)
            pass
        return Sym(interp_fn(tag, x, y, xi), xi._shape, None)


# ---------------------------------------------------------------- units
class _QMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, au.Quantity) or (isinstance(x, Sym) and x._unit is not None and not x.column)

    def __call__(cls, value, unit=None, dtype=None, copy=True, **k):
        if any_sym(value) or isinstance(value, (SymSeq, MaskIdx)):
            if isinstance(value, Sym) and value._unit is not None:
                r = value.to(unit) if unit is not None else value
                r = r.copy() if copy or r.column else r
                r.column = False
                return r
            s = coerce(value)
            if s._unit is None:
                return s.copy() * au.Unit(unit if unit is not None else "")
            return s.to(unit) if unit is not None else s
        return au.Quantity(value, unit, **k)

    def __getattr__(cls, nm): return getattr(au.Quantity, nm)


VQuantity = _QMeta("Quantity", (), {})


class UMod(types.ModuleType):
    def __getattr__(self, nm):
        if nm == "Quantity": return VQuantity
        return getattr(au, nm)


U = UMod("astropy.units")
U.__file__ = au.__file__

_patched = [False]


def patch_units():
    if _patched[0]: return
    _patched[0] = True

    def wrap(name, fn):
        orig = getattr(UnitBase, name)

        def g(self, m):
            if isinstance(m, (Sym, SymSeq)) or (isinstance(m, (list, tuple)) and any_sym(m)):
                c = coerce(m)
                if isinstance(m, (list, tuple)) and c._unit is not None:
                    # Quantity(list, unit): quantities inside the list are converted
                    c = c.to(self if "mul" in name else self ** -1)._raw()
                return fn(self, c)
            return orig(self, m)
        setattr(UnitBase, name, g)
    wrap("__mul__", lambda u, m: mullike(m, u))
    wrap("__rmul__", lambda u, m: mullike(m, u))
    wrap("__truediv__", lambda u, m: divlike(u, m))
    wrap("__rtruediv__", lambda u, m: divlike(m, u))


# ---------------------------------------------------------------- tables
class SymRow:
    """one row of a table"""

    def __init__(self, table, k):
        self._t, self._k = table, k

    colnames = property(lambda s: s._t.colnames)

    def keys(self): return self._t.keys()

    def __getitem__(self, c):
        if isinstance(c, str): return self._t[c][self._k]
        unsupported("table row index %r" % (c,))

    def __setitem__(self, c, v): unsupported("table row assignment")


class SymTable:
    """astropy QTable / Table: ordered named columns of one common length"""
    _vf_symbolic = True
    qtable = True

    def __init__(self, data=None, names=None, meta=None, **k):
        self._cols = collections.OrderedDict()
        self.meta = collections.OrderedDict(meta or {})
        self._nrows = None
        if isinstance(data, SymTable):
            for c in data._cols: self[c] = data._cols[c]
            self.meta = collections.OrderedDict(data.meta)
        elif isinstance(data, dict):
            for c in data: self[c] = data[c]
        elif data is not None and type(data).__name__ == "Struct":
            unsupported("table of a structured array")
        elif isinstance(data, (list, tuple)) and names is not None:
            for c, v in zip(names, data): self[c] = v
        elif data is not None:
            unsupported("table constructor")

    @property
    def nrows(self): return self._nrows if self._nrows is not None else ZERO

    def __len__(self):
        if self.nrows.op == "const": return int(self.nrows.val)
        unsupported("len of symbolic table")

    def __bool__(self):
        if self.nrows.op == "const": return int(self.nrows.val) > 0
        return decide(lt(ZERO, self.nrows))

    def keys(self): return list(self._cols)
    @property
    def colnames(self): return list(self._cols)
    @property
    def columns(self): return self._cols
    def values(self): return list(self._cols.values())
    def itercols(self): return iter(list(self._cols.values()))
    def items(self): return list(self._cols.items())

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._cols[k]
        if isinstance(k, (list, tuple)) and all(isinstance(c, str) for c in k):
            t = type(self)()
            for c in k: t[c] = self._cols[c]
            t.meta = collections.OrderedDict(self.meta)
            return t
        if isinstance(k, (Sym, slice, MaskIdx)):
            if isinstance(k, Sym) and k.kind == "i" and k.ndim == 0: return SymRow(self, k)
            t = type(self)()
            for c in self._cols: t[c] = self._cols[c][k]
            t.meta = collections.OrderedDict(self.meta)
            return t
        if isinstance(k, (int, np.integer)) and not isinstance(k, bool): return SymRow(self, int(k))
        unsupported("table index %r" % (k,))

    def __setitem__(self, k, v):
        if not isinstance(k, str): unsupported("table row assignment")
        if isinstance(v, (str,)): v = Sym.scalar(lift(v), kind="s")
        s = coerce(v)
        if s.ndim == 0:
            if self._nrows is None:
                raise TypeError("Empty table cannot have column set to scalar value")
            t = s.term()
            s = Sym(lambda idx: t, (self._nrows,), s._unit, s.kind)
        n = s._shape[0]
        if self._nrows is not None and (self._cols or True):
            if n is not self._nrows:
                if n is ONE and self._cols and self._nrows is not ONE:
                    f0 = s.box.f
                    s = Sym(lambda idx: f0((ZERO,) + idx[1:]), (self._nrows,) + s._shape[1:], s._unit, s.kind)
                elif not self._cols or (len(self._cols) == 1 and k in self._cols):
                    pass
                elif not decide(eq(n, self._nrows)):
                    raise ValueError("Inconsistent data column lengths")
        fr = CUR[0].frames if CUR[0] is not None else ()
        for frame in fr: frame.touch(self)
        c = Sym(s.box.f, s._shape, s._unit, s.kind, column=s._unit is None)
        self._cols[k] = c
        self._nrows = c._shape[0]

    def __delitem__(self, k): self.remove_column(k)
    def __contains__(self, k): unsupported("'in' on a table")
    def __iter__(self): unsupported("row iteration")

    def remove_column(self, k): self.remove_columns([k])

    def remove_columns(self, ks):
        if isinstance(ks, str): ks = [ks]
        for k in list(ks):
            if k not in self._cols: raise KeyError(k)
        for frame in (CUR[0].frames if CUR[0] is not None else ()): frame.touch(self)
        for k in list(ks): del self._cols[k]
        if not self._cols: self._nrows = None

    def rename_column(self, a, b):
        if a not in self._cols: raise KeyError(a)
        if b in self._cols and b != a: raise KeyError("Column %s already exists" % b)
        for frame in (CUR[0].frames if CUR[0] is not None else ()): frame.touch(self)
        self._cols = collections.OrderedDict((b if k == a else k, v) for k, v in self._cols.items())

    def rename_columns(self, a, b):
        for x, y in zip(list(a), list(b)): self.rename_column(x, y)

    def add_column(self, col, index=None, name=None, **k):
        if index is not None or k or name is None: unsupported("add_column")
        if name in self._cols: raise ValueError("Duplicate column names")
        self[name] = col

    def add_columns(self, cols, indexes=None, names=None, **k):
        if indexes is not None or k or names is None: unsupported("add_columns")
        for c, n in zip(cols, names): self.add_column(c, name=n)

    def keep_columns(self, ks):
        if isinstance(ks, str): ks = [ks]
        for k in list(ks):
            if k not in self._cols: raise KeyError(k)
        self.remove_columns([c for c in self._cols if c not in ks])

    def replace_column(self, name, col, copy=True):
        if name not in self._cols: raise ValueError("column name %s is not in the table" % name)
        self[name] = col.copy() if copy and hasattr(col, "copy") else col

    def setdefault(self, name, default):
        if name not in self._cols: self[name] = default
        return self._cols[name]

    def update(self, other, copy=True):
        for k in list(other.keys()): self[k] = other[k]

    def copy(self, copy_data=True):
        t = type(self)()
        for c, v in self._cols.items():
            t._cols[c] = v.copy() if copy_data else v
            t._nrows = self._nrows
        t.meta = collections.OrderedDict(self.meta)
        return t

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c
        t = self.copy()
        t.meta = _c.deepcopy(self.meta, memo)
        memo[id(self)] = t
        return t

    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        from astropy.table import QTable
        if hasattr(QTable, nm): unsupported("table attribute %s" % nm)
        raise AttributeError(nm)

    def __repr__(self): return "<symtable %s>" % list(self._cols)
    def __format__(self, s): return repr(self)


class SymPlainTable(SymTable):
    qtable = False

    def __new__(cls, data=None, *a, **k):
        if cls is SymPlainTable and type(data).__name__ == "Struct":
            from .h5 import Encoded
            return Encoded(data)          # a table whose columns have a unit attribute of their own
        return object.__new__(cls)


def _merge_meta(out, tabs):
    for t in tabs: out.meta.update(t.meta)


def t_hstack(tabs, join_type="outer", **k):
    tabs = [tabs] if isinstance(tabs, SymTable) else list(tabs)
    if len(tabs) == 1: return tabs[0]
    out = SymTable()
    cnt = collections.Counter(c for t in tabs for c in t.keys())
    n = tabs[0].nrows
    for t in tabs[1:]:
        if t.nrows is not n and not decide(eq(t.nrows, n)):
            unsupported("hstack of tables with different lengths")
    for i, t in enumerate(tabs):
        for c in t.keys():
            nm = c if cnt[c] == 1 else "%s_%d" % (c, i + 1)
            v = t._cols[c]
            out._cols[nm] = v.copy()
            out._nrows = n
    _merge_meta(out, tabs)
    return out


def t_vstack(tabs, join_type="outer", **k):
    tabs = [tabs] if isinstance(tabs, SymTable) else list(tabs)
    if len(tabs) == 1: return tabs[0]
    out = SymTable()
    names = []
    for t in tabs:
        for c in t.keys():
            if c not in names: names.append(c)
    if join_type == "inner":
        names = [c for c in names if all(c in t._cols for t in tabs)]
    for c in names:
        if not all(c in t._cols for t in tabs):
            unsupported("vstack with missing (masked) columns")
        u0 = tabs[0]._cols[c]._unit
        col = concat([t._cols[c] for t in tabs])
        col.column = col._unit is None
        out._cols[c] = col
        out._nrows = col._shape[0]
    _merge_meta(out, tabs)
    return out


# ---------------------------------------------------------------- misc modules
def _alien(*xs):
    """values of this engine, which a library that has no contract cannot be handed"""
    return any_sym(*xs) or any(type(x).__module__.startswith("vf.") and not isinstance(x, type) for x in xs)


class _GuardedClass(type):
    """a class of a library: usable in isinstance, constructed for real unless an argument is symbolic"""
    def __call__(cls, *a, **k):
        if _alien(*a, *k.values()): unsupported("%s (no contract)" % cls.__name__)
        return cls._real(*a, **k)
    def __instancecheck__(cls, x): return isinstance(x, cls._real)
    def __subclasscheck__(cls, x): return x is cls or issubclass(x, cls._real)
    def __getattr__(cls, nm):
        if nm == "_real": raise AttributeError(nm)
        return getattr(cls._real, nm)


class LibMod(types.ModuleType):
    """facade of a library module.  What it does not define is the real thing, refused on symbolic data
    (no contract is assumed for it) — never missing."""
    def __getattr__(self, nm):
        if nm.startswith("__") and nm.endswith("__"): raise AttributeError(nm)
        import importlib
        full = self.__name__ + "." + nm
        reg = self.__dict__.get("_registry") or {}
        if full in reg: return reg[full]
        real = importlib.import_module(self.__name__)
        try:
            r = getattr(real, nm)
        except AttributeError:
            try:
                r = importlib.import_module(full)
            except ImportError:
                raise AttributeError("module %r has no attribute %r" % (self.__name__, nm)) from None
        if isinstance(r, types.ModuleType): return r
        if isinstance(r, type):
            if issubclass(r, BaseException): return r
            g = _GuardedClass(nm, (), {"_real": r, "__doc__": r.__doc__})
        elif callable(r):
            def g(*a, **k):
                if _alien(*a, *k.values()): unsupported("%s (no contract)" % full)
                return r(*a, **k)
            g.__name__ = nm
        else: g = r
        self.__dict__[nm] = g
        return g


def mod(name, **attrs):
    m = LibMod(name)
    m.__dict__.update(attrs)
    return m


class _Dummy:
    def __init__(self, name): self.__dict__["_n"] = name
    def __getattr__(self, nm):
        if nm.startswith("__") and nm.endswith("__"): raise AttributeError(nm)
        return _Dummy(self._n + "." + nm)
    def __call__(self, *a, **k): return _Dummy(self._n + "()")
    def __iter__(self): return iter((_Dummy(self._n), _Dummy(self._n)))


class DummyMod(types.ModuleType):
    def __getattr__(self, nm):
        if nm.startswith("__") and nm.endswith("__"): raise AttributeError(nm)
        return _Dummy(self.__name__ + "." + nm)


def opaque_fn(name, flags=()):
    """library function kept uninterpreted: result is a function symbol of its argument terms"""
    def f(*a, **k):
        unsupported("%s (no contract)" % name)
    return f


def ellippi(n, m):
    n, m = coerce(n), coerce(m)
    return Sym.scalar(app("ellippi", (canon(n.term()), canon(m.term())), {"pos"}))


def _binned_statistic(x, values, statistic="mean", bins=10, **k):
    x, values, bins = coerce(x), coerce(values), coerce(bins)
    if statistic != "mean": unsupported("binned_statistic %r" % (statistic,))
    b, xf, vf = bins.box.f, x.box.f, values.box.f
    nb = canon(sub(bins._shape[0], ONE))
    n = x._shape[0]

    def f(idx):
        j = idx[0]
        last = eq(j, sub(nb, ONE))
        def m(i):
            return and_(le(b((j,)), xf((i,))), ite(last, le(xf((i,)), b((add(j, ONE),))), lt(xf((i,)), b((add(j, ONE),)))))
        s = sum_(n, lambda i: ite(m(i), vf((i,)), ZERO))
        c = sum_(n, lambda i: ite(m(i), ONE, ZERO))
        return ite(eq(c, ZERO), NAN, div(s, c))
    return (Sym(f, (nb,), None), bins, None)


def _j1(x):
    if any_sym(x): unsupported("j1")
    from scipy.special import j1
    return j1(x)


class ConstMod(types.ModuleType):
    def __getattr__(self, nm):
        import astropy.constants as c
        return getattr(c, nm)


def _mathfn(nm, via):
    import math as m
    real = getattr(m, nm)
    def f(*a):
        if not any_sym(*a): return real(*a)
        for x in a:
            x = coerce(x)
            if x.ndim and x._shape != (ONE,): raise TypeError("only length-1 arrays can be converted to Python scalars")
            if x._unit is not None and not x._unit.is_equivalent(au.dimensionless_unscaled): raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
        a = [Sym.scalar(Sym(y.elem_in(au.dimensionless_unscaled), y._shape).term(), None, y.kind) if y._unit is not None else y if not y.ndim else y[0] for y in map(coerce, a)]
        return via(*a)
    f.__name__ = nm
    return f


def _domain(f, ok):
    def g(x):
        if not decide(ok(x.term())): raise ValueError("math domain error")
        return f(x)
    return g


def _intres(f):
    return lambda x: Sym.scalar(f(x).term(), None, "i")


_POS = lambda t: lt(ZERO, t)
MATH = {"sqrt": _domain(lambda x: NPF["sqrt"](x), lambda t: le(ZERO, t)), "exp": lambda x: NPF["exp"](x), "log": _domain(lambda x: NPF["log"](x), _POS), "log10": _domain(lambda x: NPF["log10"](x), _POS),
        "floor": _intres(_floor), "ceil": _intres(_ceil), "trunc": _intres(_trunc), "fabs": lambda x: np_abs(x), "pow": lambda a, b: a ** b, "hypot": lambda a, b: NPF["hypot"](a, b),
        "isnan": lambda x: _isnan(x), "isfinite": lambda x: _isfinite(x), "isinf": lambda x: _isinf(x)}


CONST = ConstMod("astropy.constants")
TABLE = mod("astropy.table", QTable=SymTable, Table=SymPlainTable, hstack=t_hstack, vstack=t_vstack,
            Column=Sym)
INTERP = mod("scipy.interpolate", interp1d=Interp1d)


def default_modules():
    patch_units()
    from scipy import signal as sps
    sig = mod("scipy.signal", convolve2d=opaque_fn("convolve2d"))
    from . import h5
    out = {
        **h5.install(),
        "numpy": NP,
        "astropy": mod("astropy", units=U, constants=CONST, table=TABLE),
        "astropy.units": U,
        "astropy.constants": CONST,
        "astropy.table": TABLE,
        "scipy": mod("scipy", signal=sig),
        "scipy.signal": sig,
        "scipy.interpolate": INTERP,
        "scipy.integrate": mod("scipy.integrate", cumulative_trapezoid=opaque_fn("cumulative_trapezoid")),
        "scipy.stats": mod("scipy.stats", binned_statistic=_binned_statistic),
        "scipy.special": mod("scipy.special", j1=_j1),
        "math": mod("math", **{k: _mathfn(k, v) for k, v in MATH.items()}),
        "mpmath": mod("mpmath", ellippi=ellippi, mpf=float),
        "matplotlib": DummyMod("matplotlib"),
        "matplotlib.pyplot": DummyMod("matplotlib.pyplot"),
        **{"matplotlib." + m: DummyMod("matplotlib." + m) for m in ("lines", "patches", "ticker", "colors", "cm", "figure", "axes", "gridspec")},
        "mpl_toolkits.axes_grid1": DummyMod("mpl_toolkits.axes_grid1"),
        "photutils": DummyMod("photutils"),
        "pandas": mod("pandas", read_csv=opaque_fn("read_csv")),
    }
    for m in out.values():
        if isinstance(m, LibMod): m.__dict__["_registry"] = out
    return out
