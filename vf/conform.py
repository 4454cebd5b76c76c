"""Conformance of the library contracts (facades): the same small programs run on the facades and on numpy / astropy / scipy.

On the facades they run on symbolic arrays, every branch being taken as one random valuation of the symbols says; the terms of the
result are evaluated under that valuation and compared, with shape and unit, with what the real libraries give for it.
Run by `vf.run --selftest`.
"""
import ast
import copy
import inspect
import random
import types

import numpy as np
import astropy.units as au
from astropy.table import QTable
from scipy.interpolate import interp1d
import scipy.integrate

from . import audit as A
from . import ctx as C
from . import facades as F
from . import terms as T
from .dsl import variant
from .loader import Desugar, Loader
from .sym import MaskIdx, Sym

PROGRAMS = []


class Program:
    def __init__(self, name, texts):
        self.name, self.texts = name, texts


def _compiled(tree, name, env):
    ast.fix_missing_locations(tree)
    env = dict(env)
    exec(compile(tree, __file__, "exec"), env)
    return env[name]


def _import(name, g=None, l=None, fromlist=(), level=0):
    if name == "math": return F.default_modules()["math"]
    return __import__(name, g, l, fromlist, level)


def program(f):
    """every element of the list a program returns becomes an expression of its own, evaluated after the statements"""
    tree = ast.parse(inspect.getsource(f))
    tree.body[0].decorator_list = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.List):
            n.value.elts = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e) for e in n.value.elts]
            n.value.elts and setattr(f, "texts", [ast.unparse(e.body) for e in n.value.elts])
    g = Program(f.__name__, getattr(f, "texts", []))
    g.real = _compiled(copy.deepcopy(tree), f.__name__, globals())
    b = Loader._make_builtins(types.SimpleNamespace(_import=_import))
    g.facade = _compiled(Desugar().visit(tree), f.__name__, {"__builtins__": b, "__name__": "programs"})
    PROGRAMS.append(g)
    return g


class Guided(C.Ctx):
    """one path: the one a valuation takes"""

    def __init__(self, v):
        C.Ctx.__init__(self)
        self.v = v

    def decide(self, t, label=None):
        t = T.canon(t)
        if t is T.TRUE: return True
        if t is T.FALSE: return False
        c = self.v.ev(t)
        self.pc.append(t if c else T.not_(t))
        return c

    def assume(self, t): pass


class Values(A.Valuation):
    """symbols of the programs: sizes, and arrays drawn once"""

    def __init__(self, seed):
        A.Valuation.__init__(self, seed)
        self.rng = random.Random(seed)
        self.dims, self.arrays, self.reals, self.real_name = {}, {}, {}, {}

    def size(self, name, lo):
        if name not in self.dims: self.dims[name] = self.rng.randint(lo, lo + 4)
        return self.dims[name]

    def real(self, name, pos=False):
        if name not in self.reals: self.reals[name] = self.number(pos)
        return self.reals[name]

    def number(self, pos, kind="f"):
        r = self.rng
        if kind == "b": return r.random() < .5
        if kind == "i": return r.randint(0 if pos else -4, 5)
        v = r.choice([0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.5]) if r.random() < .7 else round(r.uniform(0.1, 5), 3)
        return v if pos or r.random() < .6 else r.choice([-v, 0.0])

    def array(self, name, sizes, pos, increasing, kind):
        if name not in self.arrays:
            a = np.array([self.number(pos, kind) for _ in range(int(np.prod(sizes)))]).reshape(sizes)
            if increasing: a = np.cumsum(np.abs(a) + 0.25)
            self.arrays[name] = a
        return self.arrays[name]

    def ev(self, t, env=None):
        if t.op == "sym":
            nm = self.real_name.get(t.val, t.val)
            if nm in self.dims: return A.mp.mpf(self.dims[nm])
            if nm in self.reals: return A.mp.mpf(self.reals[nm])
        return A.Valuation.ev(self, t, env)

    def app(self, f, a, env):
        f = self.real_name.get(f, f)
        if f in self.arrays:
            ix = tuple(int(self.ev(x, env)) for x in a)
            arr = self.arrays[f]
            if any(not 0 <= i < n for i, n in zip(ix, arr.shape)): raise A.Undefined
            v = arr[ix]
            return bool(v) if arr.dtype == bool else A.mp.mpf(float(v))
        if f == "argsort":
            n, l = int(self.ev(a[0], env)), a[1]
            xs = [self.ev(l.args[0], {**(env or {}), T.bvar(l.h): A.mp.mpf(i)}) for i in range(n)]
            order = sorted(range(n), key=lambda i: xs[i])
            return A.mp.mpf(order[int(self.ev(a[2], env))])
        if f.startswith(("interp1d[", "npinterp[")):
            n, lx, ly = int(self.ev(a[0], env)), a[1], a[2]
            x = self.ev(a[3], env)
            row = lambda l: [self.ev(l.args[0], {**(env or {}), T.bvar(l.h): A.mp.mpf(i)}) for i in range(n)]
            xs, ys = row(lx), row(ly)
            if any(q is A.NAN for q in [x] + xs + ys): return A.NAN
            o = sorted(range(n), key=lambda i: xs[i])
            xs, ys = [xs[i] for i in o], [ys[i] for i in o]
            kind, fill = f[f.index("[") + 1:-1].split(",", 1)
            below, above = x < xs[0], x > xs[-1]
            if below or above:
                if f.startswith("npinterp"):
                    side = kind if below else fill
                    return (ys[0] if below else ys[-1]) if side == "None" else A.NAN if side == "nan" else A.mp.mpf(float(side))
                if fill == "nan": return A.NAN
                if fill == "raise": raise A.Undefined
                if fill != "extrapolate": return A.mp.mpf(float(T.Fr(fill) if "/" in fill else float(fill)))
            k = 0 if below else n - 2 if above else max(0, min(n - 2, next((i for i in range(n - 1) if x <= xs[i + 1]), n - 2)))
            return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
        return A.Valuation.app(self, f, a, env)


class Facade:
    symbolic = True
    QTable = F.SymTable
    interp1d = F.Interp1d

    def __init__(self, v):
        self.v, self.np, self.u = v, F.NP, F.U

    def name(self, name, fl):
        n = variant(name, fl)
        self.v.real_name[n] = name
        return n

    def dim(self, name, lo=1):
        self.v.size(name, lo)
        fl = ["int", "pos" if lo else "nonneg"]
        return Sym.scalar(T.sym(self.name(name, fl), *fl), kind="i")

    def real(self, name, unit=None, pos=False):
        self.v.real(name, pos)
        fl = ["pos"] if pos else []
        return Sym.scalar(T.sym(self.name(name, fl), *fl), None if unit is None else au.Unit(unit))

    def arr(self, name, *dims, unit=None, pos=False, increasing=False, kind="f"):
        sh = tuple(d.term() if isinstance(d, Sym) else T.const(d) for d in dims)
        self.v.array(name, tuple(int(self.v.ev(T.canon(d))) for d in sh), pos, increasing, kind)
        fl = {"b": {"bool"}, "i": {"int"}}.get(kind, set()) | ({"mono"} if increasing else set()) | ({"pos"} if (pos or increasing) and kind == "f" else {"nonneg"} if pos else set())
        name = self.name(name, fl)
        return Sym(lambda idx: T.app(name, tuple(T.canon(i) for i in idx), fl), sh, None if unit is None else au.Unit(unit), kind)


class Real:
    symbolic = False
    QTable = QTable
    interp1d = staticmethod(interp1d)

    def __init__(self, v):
        self.v, self.np, self.u = v, np, au

    def dim(self, name, lo=1): return self.v.dims[name]
    def real(self, name, unit=None, pos=False): return self.v.reals[name] * (1 if unit is None else au.Unit(unit))
    def arr(self, name, *dims, unit=None, **k): return self.v.arrays[name].copy() if unit is None else self.v.arrays[name] * au.Unit(unit)


# ---------------------------------------------------------------- the programs
@program
def arithmetic(S):
    n = S.dim("n"); a, b, c = S.arr("a", n, unit="um"), S.arr("b", n, unit="nm", pos=True), S.real("c", pos=True)
    return [a + b, a - b, a * b, a / b, b ** 2, -a, abs(a), a * c, c / b, 2 - c * (a / b).to(""), (a + b).to("m"), (a * b).to("um2"), a.value, (a / b).decompose(),
            S.np.sqrt(b * b), b ** 0.5, S.np.square(a), S.np.exp((a / b).to("") * 1e-4), S.np.log(c * b.value), S.np.log10(b.value)]


@program
def rounding(S):
    n = S.dim("n"); a = S.arr("a", n); c = S.real("c")
    np_ = S.np
    return [np_.floor(a), np_.ceil(a), np_.trunc(a), np_.round(a), np_.fix(a), a // 2, a % 2, np_.floor(c), np_.ceil(c), np_.modf(a)[0], np_.modf(a)[1], a.astype(int), np_.rint(a) if not S.symbolic else np_.round(a)]


@program
def comparisons(S):
    n = S.dim("n"); a, b = S.arr("a", n, unit="um"), S.arr("b", n, unit="nm")
    np_, c = S.np, S.real("c", unit="m")
    return [a < b, a <= b, a > b, a == b, a != b, (a < c) & (a > b), (a < b) | (b > c), ~(a < b), np_.logical_and(a < b, b < c), np_.logical_xor(a < b, b < c), np_.any(a < b), np_.all(a < b),
            np_.count_nonzero(a < b), (a < b).sum(), np_.where(a < b, a, b), np_.minimum(a, b), np_.maximum(a, b), np_.clip(a, -1 * S.u.um, 1 * S.u.um), np_.isnan(a)]


@program
def reductions(S):
    n = S.dim("n", lo=2); a = S.arr("a", n, unit="um"); np_ = S.np
    return [a.sum(), a.min(), a.max(), a.mean(), np_.argmin(a), np_.argmax(a), np_.sum(a), np_.min(a), np_.max(a), np_.mean(a), np_.prod(a.value), np_.diff(a), np_.dot(a.value, a.value), a[a.argmin()], a.size, a.shape[0]]


@program
def indexing(S):
    n = S.dim("n", lo=4); a = S.arr("a", n, unit="um"); m = S.arr("m", n, kind="b"); np_ = S.np
    return [a[0], a[-1], a[1:], a[:-1], a[::-1], a[1:-1], a[::2], a[m], a[~m], a[np_.where(m)], a[np_.where(m)[0]], a[m].sum(), a[1:3], a[-2:], a[np_.array([2, 0, 1])], np_.flip(a), a[m].size]


@program
def writing(S):
    n = S.dim("n", lo=4); a = S.arr("a", n, unit="um"); m = S.arr("m", n, kind="b")
    b, c, d, e = a.copy(), a.copy(), a.copy(), a.copy()
    b[0] = 3 * S.u.um; c[m] = 0; c[1] = 5 * S.u.nm; d *= 2; d += 1 * S.u.mm; e[m] = e[m] * 2; e[1:] = e[:-1].copy()
    v = e[1:3]; v[0] = 7 * S.u.um
    return [a, b, c, d, e, v]


@program
def building(S):
    n = S.dim("n", lo=2); a, b = S.arr("a", n, unit="um"), S.arr("b", n, unit="um"); np_ = S.np
    x = S.arr("x", n)
    return [np_.zeros(n), np_.ones(n) * 2, np_.zeros_like(x), np_.ones_like(x), np_.full(n, 3.5), np_.arange(n), np_.arange(1, 4), np_.linspace(0, 1, 5), np_.append(x, 1.0), np_.concatenate([a, b]),
            np_.insert(x, 0, 9.0), np_.delete(x, 0), np_.hstack([x, x]), np_.outer(x, x), np_.array([S.real("c"), 2.0]), np_.linspace(S.real("c"), 3.0, 4), np_.logspace(0, 2, 3), np_.copy(a)]


@program
def planes(S):
    n, k = S.dim("n", lo=2), S.dim("k", lo=2)
    a, r, c = S.arr("a", n, k), S.arr("r", k), S.arr("c", n); np_ = S.np
    return [a.sum(), a.sum(axis=0), a.sum(axis=1), a.max(axis=0), a * r, a * c[:, np_.newaxis], a.T, a[0], a[:, 1], a[1:, :-1], a.mean(axis=1), c[:, None] + r[None, :], a.min(), a.shape[1], a.ravel(), a[::-1, :], a.max()]


@program
def nans(S):
    n = S.dim("n", lo=2); a = S.arr("a", n); np_ = S.np
    b = np_.where(a > 1, a, np_.nan)
    return [b, np_.isnan(b), b + 1, b * 0, np_.nan_to_num(b), b[~np_.isnan(b)], b > 0, b == b, np_.nansum(b), np_.isfinite(b), np_.isnan(b).sum(), b.sum(), np_.sum(b[:1])]


@program
def integrals(S):
    n = S.dim("n", lo=2); x, y = S.arr("x", n, unit="um", increasing=True), S.arr("y", n, unit="W/um"); np_ = S.np
    return [np_.trapz(y, x), np_.trapz(y.value, x=x.value), np_.trapz(y, x=x).to("W")]


@program
def interpolation(S):
    n, k = S.dim("n", lo=2), S.dim("k"); x, y, t = S.arr("x", n, increasing=True), S.arr("y", n), S.arr("t", k, pos=True); np_ = S.np
    c = S.real("c")
    f = S.interp1d(x, y, bounds_error=False, fill_value=0.0)
    g = S.interp1d(x, c * y, bounds_error=False, fill_value="extrapolate")
    h = S.interp1d(x, y * 2, bounds_error=False, fill_value=0.5, assume_sorted=False)
    return [f(t), np_.interp(t, x, y), np_.interp(t, x, y * 3, left=0, right=0), g(t), h(t), f(x), S.interp1d(x, y * y, bounds_error=False)(t)]


@program
def ordering(S):
    n = S.dim("n", lo=2); a = S.arr("a", n); np_ = S.np
    x = S.arr("x", n, increasing=True)
    o = np_.argsort(a)
    return [np_.sort(a), a[o], x[o].sum() - x.sum(), np_.argsort(x), np_.argsort(x[::-1])]


@program
def tables(S):
    n = S.dim("n", lo=3); t = S.QTable(); a = S.arr("a", n, unit="um")
    t["x"] = a; t["y"] = S.arr("y", n, unit="ct/s"); t["z"] = S.arr("z", n)
    a[0] = 99 * S.u.um                                # a table keeps a copy
    m = S.arr("m", n, kind="b")
    s = t[m]; u = t.copy(); u["x"] = u["x"] * 2; w = t[1:]
    t["y"] = t["y"] * 3
    return [t["x"], t["y"], t["z"] * 2, s["x"], s["y"], u["x"], u["y"], w["z"], len(t.colnames), t[0]["x"], t[-1]["y"], t["y"].to("ct/h"), t["x"][m], "x" in t.colnames, list(t.keys()) == ["x", "y", "z"]]


@program
def more_functions(S):
    n = S.dim("n", lo=2); a, b = S.arr("a", n), S.arr("b", n, pos=True); np_ = S.np; w, z = S.arr("w", n, unit="um", pos=True), S.arr("z", n, unit="nm", pos=True); m = S.arr("m", n, kind="b")
    return [np_.hypot(a, b), np_.reciprocal(b), np_.sign(a), np_.inner(a, b), np_.vdot(a, b), np_.matmul(a, b), a @ b, np_.ptp(a), np_.average(a), np_.average(a, weights=b), np_.average(w, weights=b), np_.cumsum(a), np_.roll(a, 1), np_.roll(w, -1), np_.ediff1d(a),
            np_.add.reduce(a), np_.maximum.reduce(a), np_.minimum.reduce([a, b]), np_.multiply.reduce(b), np_.logical_or.reduce(m), np_.take(a, [0, 1]), a.take([1, 0]), np_.compress(m, a), np_.extract(m, a), np_.isclose(a, b), np_.column_stack([a, b]), np_.expand_dims(a, 0), np_.expand_dims(a, 1),
            np_.select([m, a > 0], [a, b], default=0.0), np_.nanmean(np_.where(m, a, np_.nan)), np_.flatnonzero(m), m.nonzero()[0], a.clip(0, 1), np_.clip(a, a_min=0, a_max=2), a.clip(min=0.5), a.round(1), np_.broadcast_to(a, (2, n)), np_.cumsum(w)[-1], np_.subtract(w, z), np_.multiply(w, z), np_.full_like(a, 2), np_.ones_like(w), np_.ones_like(a, dtype=bool), np_.zeros_like(m), np_.zeros_like(a, dtype=int),
            np_.divide(a, b, out=np_.zeros_like(b), where=b > 1), np_.divide(w, z, out=np_.zeros(n) * S.u.um / S.u.nm, where=m), np_.multiply(a, 2, out=np_.zeros(n)), np_.sqrt(a, out=np_.ones(n), where=a > 0), np_.fromiter((x * 2 for x in S.arr("k", 3)), dtype=float), np_.allclose(a, a + 1e-12)]


@program
def still_more_functions(S):
    n = S.dim("n", lo=2); a, b = S.arr("a", n), S.arr("b", n, pos=True); np_ = S.np; w, z = S.arr("w", n, unit="um", pos=True), S.arr("z", n, unit="nm", pos=True); m = S.arr("m", n, kind="b"); c, q = S.real("c", pos=True), S.real("q", unit="um")
    d, e, f, g = a.copy(), w.copy(), a.copy(), b.copy()
    np_.copyto(d, b); np_.copyto(e, z, where=m); np_.putmask(f, m, 2.5); np_.copyto(g, 1.5, where=a > 0)
    return [np_.repeat(c, n), np_.repeat(q, n), np_.repeat(q, 3), np_.repeat([c, 2.0], 2), np_.repeat(w[0], len(w)), np_.tile(c, n), np_.tile(q, 2), np_.tile([c, 2.0, 3.0], 2), np_.expm1(a), np_.log1p(b), np_.exp2(a), np_.float_power(b, 2), np_.deg2rad(a), np_.radians(a), d, e, f, g,
            np_.var(a), np_.std(a), np_.std(w), np_.var(w), np_.std(a, ddof=1), np_.stack([a, b], axis=1), np_.stack([a, b]), np_.stack([w, z], axis=-1), np_.row_stack([a, b]), np_.concatenate([a, b], axis=-1), np_.repeat(c, S.dim("k", lo=0, hi=3)).size]


@program
def functions_of_math(S):
    import math
    c, q = S.real("c", pos=True), S.real("q", unit="um", pos=True); x = S.real("x")
    return [math.sqrt(c), math.exp(-c), math.log(c), math.log10(c), math.floor(x), math.ceil(x), math.trunc(x), math.fabs(x), math.pow(c, 2), math.isnan(x), math.isfinite(x), math.sqrt(q / (1 * S.u.nm)), math.pi * c, math.hypot(c, x), math.log(x), math.sqrt(x), math.exp(q)]


@program
def table_methods(S):
    n = S.dim("n", lo=3); x, y = S.arr("x", n), S.arr("a", n, unit="um")
    def new():
        t = S.QTable(); t["x"] = x; t["y"] = y
        return t
    a, b, c, d, e = new(), new(), new(), new(), new()
    a.add_columns([x * 2, y * 3], names=["p", "q"]); a.keep_columns(["y", "q"])
    b.rename_columns(["y", "x"], ["z", "y"]); b.replace_column("z", b["z"] * 2)
    c.update({"x": x * 5, "w": y}); c.setdefault("x", x); c.setdefault("v", y * 7)
    d.remove_columns(["x"]); d.add_column(x, name="late")
    out = []
    for f in (lambda: e.add_column(x, name="x"), lambda: e.replace_column("none", x), lambda: e.keep_columns(["none"]), lambda: e.rename_columns(["none"], ["u"]), lambda: e.rename_column("x", "y")):
        try: f(); out.append(0)
        except Exception as err: out.append([k.__name__ for k in type(err).__mro__ if k.__name__ in ("ValueError", "KeyError")][0])
    return [a["q"], a["y"], list(a.keys()) == ["y", "q"], b["y"], b["z"], list(b.keys()) == ["y", "z"], c["x"], c["v"], c["w"], list(d.keys()) == ["y", "late"], d["late"], e["x"], out]


@program
def in_place_operators(S):
    n = S.dim("n", lo=2); x, m, k = S.arr("x", n), S.arr("m", n, kind="b"), S.arr("k", n, kind="b")
    y, z, p, q = x, x.copy(), m, k
    y %= 2; z //= 2; p |= k; q &= m
    r = k.copy(); r ^= m
    return [x, y, z, m, p, k, q, r, S.arr("a", n) << S.u.m, S.arr("b", n, unit="um") << S.u.nm]


@program
def units(S):
    x = S.real("c", pos=True) * S.u.um; u = S.u; n = S.dim("n"); f = S.arr("a", n, unit="W / (m2 um)", pos=True)
    return [x.to(u.nm), x.to("m").value, (x / u.m).decompose(), x.to(u.um) ** 2, (f * x).to("W/cm2"), (1 / x).to(1 / u.nm), (x * u.sr).unit == u.um * u.sr, x.unit == u.um, u.Quantity(x, u.nm), f * (3 * u.m ** 2), f.to(u.W / u.m ** 3),
            (f / f).value, x.to(u.m).unit == u.m, (x ** 0.5).unit == u.um ** 0.5, f.unit.is_equivalent("W/m3"), u.um.is_equivalent(u.s)]


@program
def rejected(S):
    x, n = S.real("c", pos=True) * S.u.um, S.dim("n", lo=2); a = S.arr("a", n); out = []
    for f in (lambda: x + 1 * S.u.s, lambda: x.to("s"), lambda: x + 1, lambda: S.np.exp(x), lambda: a + S.np.ones(n + 1), lambda: S.u.Unit("nonsense"), lambda: S.QTable()["missing"], lambda: x < 3 * S.u.s, lambda: S.np.append(x * S.np.ones(2), 1 * S.u.s)):
        try: f(); out.append("accepted")
        except Exception as e: out.append([c.__name__ for c in type(e).__mro__ if c.__name__ in ("UnitConversionError", "ValueError", "KeyError", "TypeError")][0])
    return out


@program
def text(S):
    n = S.dim("n"); a = S.arr("a", n, unit="um")
    return [S.np.array(["a", "b", "a"]) == "a", str(a.unit), S.u.Unit("W/m2") == S.u.W / S.u.m ** 2, "%d" % 3]


@program
def sharing(S):
    """which results share memory with their source"""
    n = S.dim("n", lo=4); a = S.arr("a", n, unit="um"); np_ = S.np
    x = S.arr("x", n); y = S.arr("y", n); z = S.arr("z", n, unit="um"); w = S.arr("w", n, unit="um"); q = S.arr("q", n); t = S.arr("t", n, unit="um")
    v = a[1:]; v *= 2
    b = x; b += 1
    c = y + 0; c[0] = 77.0
    d = z.copy(); d[0] = 7 * S.u.um
    e = w.to("nm"); e[0] = 5 * S.u.nm
    f = q * S.u.um; f[0] = 9 * S.u.um
    g = t[np_.array([0, 1])]; g[0] = 4 * S.u.um
    return [a, v, x, b, y, z, d, w, e, q, f, t, g]


@program
def in_place(S):
    n = S.dim("n", lo=3); a, b, c = S.arr("a", n, unit="um"), S.arr("b", n, unit="m"), S.arr("c", n, pos=True); m = S.arr("m", n, kind="b")
    d, e, f, g = a.copy(), a.copy(), c.copy(), c.copy()
    d += b; d -= 1 * S.u.nm
    e /= 2; e[m] = b[m]
    f[f > 1] = 1.0; f[~m] *= 3
    g **= 2; g /= 4; g[-1] = g[0]; g[1:3] = 0.5
    return [d, e, f, g, a]


@program
def selections(S):
    n = S.dim("n", lo=3); a, b = S.arr("a", n), S.arr("b", n, pos=True); np_ = S.np
    i = np_.where(a > 0)[0]; m = a > 0
    return [i, i.size, a[i], a[i] * 2, b[m] / a[m], (a[m] + b[m]).sum(), a[m][b[m] > 1], np_.delete(a, i), np_.where(m, 1, 0), np_.where(m, a, 0.0).sum(), np_.append(a[m], b), len(a[m]),
            a[m & (b > 1)], np_.nonzero(m)[0], m.any(), m.all(), m.astype(int), m.sum() * 2.0, np_.mean(m), a[m].size > 0, np_.concatenate([a[m], a[~m]]).sum()]


@program
def builtins_of_python(S):
    n = S.dim("n", lo=2); a = S.arr("a", 3); b = S.arr("b", n); c = S.real("c", pos=True); q = S.real("q", unit="um", pos=True)
    return [len(b), [x for x in a][1], sum([x for x in a]), max(a[0], a[1]), min(2.0, c), int(c), float(c), round(c), abs(b), bool(c > 1), int((q / (1 * S.u.um)).value), list(zip(a, a))[2][0], [i * x for i, x in enumerate(a)][2], c ** 2 > 1, -c, c // 1, c % 2,
            divmod(7, 2)[0], a.tolist()[0], pow(c, 2), q.value, q.to("nm").value, (q * 2).unit == S.u.um, isinstance(q, S.u.Quantity), hasattr(q, "unit"), hasattr(b, "unit")]


@program
def slit(S):
    n, k = S.dim("n", lo=3), 3
    a = S.arr("a", n); np_ = S.np; w = S.arr("w", n, unit="um", pos=True)
    return [np_.convolve(a, np_.ones(3), "same"), np_.convolve(a, np_.ones(2)), np_.convolve(a, np_.ones(3) / 3, mode="same").sum() - 0, np_.outer(a, a)[1], np_.dot(a, a), (a * w).sum(), np_.sum(a[None, :] * a[:, None], axis=0)]


@program
def more_building(S):
    n = S.dim("n", lo=2); c, d = S.real("c", pos=True), S.real("d", pos=True); np_ = S.np; u = S.u; a = S.arr("a", n, unit="um")
    return [np_.linspace(c, c + d, 5), np_.linspace(c, c + d, n + 1), np_.arange(n) * c, np_.linspace(1, 2, n + 1), np_.array([c, d]) * u.um, np_.full(n, c), np_.zeros((n, 2)), np_.ones((2, n)).sum(), np_.array([[c, d], [d, c]]), np_.zeros(n) * u.ct / u.s,
            np_.insert(a.value, n, 5.0), u.Quantity([1 * u.um, 2 * u.um]), np_.concatenate([a, 1 * u.um * np_.ones(1)]), np_.append(a, a), np_.ones(n) * a, a * np_.arange(n), np_.geomspace(1, 100, 3), np_.full_like(a.value, 2.0), np_.vstack([a.value, a.value])]


@program
def comparisons_of_arrays(S):
    n = S.dim("n", lo=2); a, b = S.arr("a", n), S.arr("b", n); np_ = S.np
    return [np_.array_equal(a, a), np_.array_equal(a, b), np_.allclose(a, a), np_.allclose(a, b), (a == a).all(), np_.greater(a, b), np_.less_equal(a, b), np_.isfinite(a), a.max() == a.min(), np_.argmin(abs(a - b)), np_.argmin((a - b) ** 2), np_.argmax(a * 2), np_.min(np_.abs(a))]


@program
def loops(S):
    n = S.dim("n", lo=2); a = S.arr("a", n, pos=True); b = S.arr("b", n); np_ = S.np
    out = np_.zeros(n); tot = 0 * S.u.um; lst = []
    for i in range(n): out[i] = a[i] * b[i]
    for x in a: lst.append(x + 1)
    pairs = [x * y for x, y in zip(a, b)]
    other = np_.zeros(n)
    for i, x in enumerate(b): other[i] = np_.where(x > 0, x, -1.0)
    return [out, np_.array(lst), np_.array(pairs), np_.array([i + x for i, x in enumerate(a)]), other, sum(x for x in a), np_.array([x if x > 1 else 0.0 for x in b])]


@program
def running_sums(S):
    n = S.dim("n", lo=2); a = S.arr("a", n); np_ = S.np; w = S.arr("w", n, unit="um", increasing=True); u = S.u; k = S.dim("k", lo=2); c = S.arr("c", k); q = S.arr("q", n, k)
    t1 = 0.0; t2 = 0 * u.um; t3 = 0; t4 = c.copy(); t5 = c; t6 = t5; cnt = 0; d = c * 0; t8 = 0.0
    for i in range(n):
        r = a[i] ** 2
        t1 += r
        t2 += r * w[i]
        t3 = r + t3
        cnt += 1
    for i in range(n):
        t4 += q[i] * 2
        t5 += q[i]
    for x, y in zip(w, a): d = d + y * c
    for x in (1, 2, 3): t8 += x * a[0]
    return [t1, t2, t3, cnt, t4, t5, t6, c, d, t8]


# ---------------------------------------------------------------- comparison
def elements(v, x):
    """(shape, unit, values) of a facade value"""
    if isinstance(x, MaskIdx): x = x._sym()
    if isinstance(x, Sym):
        sh = tuple(int(v.ev(T.canon(d))) for d in x._shape)
        vals = []
        for ix in np.ndindex(*sh):
            t = x.box.f(tuple(T.const(i) for i in ix)) if sh else x.term()
            c = T.canon(t) if not T.has_nan(t) else t
            vals.append(v.ev(c))
        return sh, x._unit, vals
    return real_elements(x)


def real_elements(x):
    unit = getattr(x, "unit", None)
    a = np.asarray(x.value if unit is not None else list(x) if type(x).__name__ in ("VList", "VTuple") else x)
    conv = lambda y: bool(y) if isinstance(y, (bool, np.bool_)) else str(y) if isinstance(y, str) else A.NAN if np.isnan(y) else A.mp.mpf(float(y))
    return a.shape, unit, [conv(y) for y in a.ravel()]


def agree(a, b):
    if a is A.NAN or b is A.NAN: return a is b
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)): return a == b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def conform(n=20, seed=1, verbose=False):
    """returns (comparisons, not supported by the facades, disagreements)"""
    checked, unsup, bad = 0, {}, []
    for p in PROGRAMS:
        for k in range(n):
            v = Values("%s/%s/%d" % (seed, p.name, k))
            C.CUR[0] = Guided(v)
            try: got = p.facade(Facade(v))
            except C.Unsupported as e:
                unsup[p.name, None] = "%s: %s" % (p.name, e); break
            except A.Undefined: continue
            with np.errstate(all="ignore"): want = p.real(Real(v))
            if callable(want) or not all(map(callable, want)): got, want = [lambda x=x: x for x in got], [lambda x=x: x for x in want]
            for i, (g, w) in enumerate(zip(got, want)):
                name = p.texts[i] if i < len(p.texts) else str(i)
                if (p.name, i) in unsup: continue
                got_ = None
                try: got_ = elements(v, g())
                except A.Undefined: continue
                except C.Unsupported as e:
                    unsup[p.name, i] = "%s: %s: %s" % (p.name, name, e); continue
                except Exception as e: err = e
                try:
                    with np.errstate(all="ignore"): ws, wu, wv = real_elements(w())
                except Exception as e: ws, wu, wv = "refused", None, []
                if got_ is None:
                    checked += 1
                    if ws != "refused": bad.append((p.name, name, k, type(err).__name__, str(err)[:200]))
                    continue
                gs, gu, gv = got_
                none = lambda q: q is None or q == au.dimensionless_unscaled
                checked += 1
                if wu is not None and gu is not None and wu != gu and wu.is_equivalent(gu): bad.append((p.name, name, k, "unit", str(gu), str(wu)))
                elif gs != ws or len(gv) != len(wv) or not (gu == wu or none(gu) and none(wu)) or not all(agree(x, y) for x, y in zip(gv, wv)):
                    bad.append((p.name, name, k, gs, str(gu), [str(x)[:12] for x in gv][:8], ws, str(wu), [str(x)[:12] for x in wv][:8]))
    C.CUR[0] = None
    if verbose:
        seen = set()
        for b in bad:
            if b[:2] not in seen: print("DISAGREE", b)
            seen.add(b[:2])
        for x in unsup.values(): print("UNSUPPORTED", x)
    return checked, unsup, bad


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    c, x, b = conform(int(sys.argv[1]) if len(sys.argv) > 1 else 20, int(sys.argv[2]) if len(sys.argv) > 2 else 1, verbose=True)
    print("facades: %d comparisons, %d expressions not supported, %d disagreements" % (c, len(x), len(b)))
