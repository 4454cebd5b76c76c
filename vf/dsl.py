"""Dual-mode contracts.

A contract is a python function of one argument S.  In symbolic mode the calls it makes reach the real function bodies
(loaded from /repo by loader.py) with arbitrary inputs, and every S.ensure* becomes a proof obligation under the path
condition.  In concrete mode the very same contract runs against the imported package on sampled inputs (or on the
inputs of a solver counter-model), which is how a failed obligation is replayed on the real code.
"""
import collections, copy, math, random, sys, traceback, types
import numpy as np
import astropy.units as au
from .terms import *
from . import terms as T
from . import prover as P
from .ctx import *
from . import ctx as C_
from .sym import *
from . import sym as S_
from . import facades as F
from . import loader as LD

CONTRACTS = []


class GhostMissing(KeyError):
    """a stand-in of the environment was not used"""


class Ghost(dict):
    def __missing__(self, k): raise GhostMissing(k)


class Contract:
    def __init__(self, prop, fn, funcs, stubs, env, bounds, samples, name, weight, kind):
        self.prop, self.fn, self.funcs, self.stubs, self.env = prop, fn, funcs, stubs, env
        self.bounds, self.samples, self.name, self.weight = bounds, samples, name, weight
        self.kind = kind

    @property
    def id(self): return self.prop + "." + self.name


def contract(prop, funcs, stubs=None, env=None, bounds=None, samples=25, name=None, weight=1, kind="proof"):
    """kind: proof (symbolic, all inputs) | bounded (concrete only, labelled bounded)"""
    def deco(fn):
        CONTRACTS.append(Contract(prop, fn, funcs, stubs or {}, env or {}, bounds, samples, name or fn.__name__, weight, kind))
        return fn
    return deco


class Violation(Exception):
    def __init__(self, label, msg):
        Exception.__init__(self, "%s: %s" % (label, msg))
        self.label, self.msg = label, msg


class Discard(BaseException):
    pass


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    raised = property(lambda s: s.exc is not None)


class ObjSnap:
    pass


# ---------------------------------------------------------------- symbolic mode
VARIANTS = {}


def variant(name, flags):
    """one symbol per name and set of facts: terms are shared by all contracts of a run, and what is known of a symbol is kept with its name"""
    v = VARIANTS.setdefault(name, [])
    f = frozenset(flags)
    if f not in v: v.append(f)
    k = v.index(f)
    return name if not k else "%s`%d" % (name, k)


class SymS:
    symbolic = True

    def __init__(self, con, loader, c):
        self.con, self.loader, self.ctx = con, loader, c
        self.np, self.u = F.NP, F.U
        self.results = []
        self.ghost = Ghost()
        self.syms = {}
        self.tier = "quick"

    # modules
    def mod(self, name): return self.loader.load(name)
    def fn(self, path):
        m, _, a = path.partition(":")
        o = self.mod(m)
        for p in a.split("."): o = getattr(o, p)
        return o

    QTable = F.SymTable
    Table = F.SymPlainTable

    # inputs
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, unit=None, kind="f", **k):
        fl = set()
        if pos or (lo is not None and lo > 0): fl.add("pos")
        elif nonneg or (lo is not None and lo >= 0): fl.add("nonneg")
        if kind == "i": fl.add("int")
        t = sym(variant(name, fl), *fl)
        if lo is not None and lo != 0: self.ctx.assume(le(lift(lo), t))
        if hi is not None: self.ctx.assume(le(t, lift(hi)))
        return Sym.scalar(t, None if unit is None else au.Unit(unit), kind)

    def integer(self, name, lo=0, hi=None, **k):
        return self.real(name, nonneg=lo >= 0, lo=lo, hi=hi, kind="i")

    def dim(self, name, lo=1, hi=None):
        fl = ["int", "pos" if lo >= 1 else "nonneg"]
        t = sym(variant(name, fl), *fl)
        if lo > 1: self.ctx.assume(le(lift(lo), t))
        return Sym.scalar(t, kind="i")

    def flag(self, name):
        return bool(self.ctx.choose(2, name))

    def choose(self, name, options):
        k = self.ctx.choose(len(options), name)
        return options[k]

    def arr(self, name, *dims, unit=None, pos=False, nonneg=False, increasing=False, kind="f", lo=None, hi=None, **k):
        fl = set()
        if pos or (lo is not None and lo > 0): fl.add("pos")
        elif nonneg or (lo is not None and lo >= 0): fl.add("nonneg")
        if increasing: fl.add("mono")
        if kind == "s": fl = {"str"}
        if kind == "b": fl = {"bool"}
        if kind == "i": fl.add("int")
        sh = tuple(S_.dimterm(d) if not isinstance(d, Term) else d for d in dims)
        name = variant(name, fl)
        s = Sym(lambda idx: app(name, tuple(canon(i) for i in idx), fl), sh, None if unit is None else au.Unit(unit), kind)
        return s

    def strs(self, name, n, values=()):
        return self.arr(name, n, kind="s")

    def numeral(self, name, integer=False, **k):
        """(text, number): the text of any number"""
        x = self.integer(name, **k) if integer else self.real(name, **k)
        return F.SymStr(x, integer), x

    def unit_column(self, q):
        """the quantity as a plain table column: not a Quantity, but with a unit of its own"""
        r = q.copy()
        r.column = True
        return r

    def column(self, x):
        """plain array column as it sits inside a table"""
        return x

    def assume(self, cond):
        self.ctx.assume(_asterm(cond))

    def decide(self, cond):
        return bool(cond)

    def full_masks(self):
        """let selections that provably keep every element be simplified away (costs solver time per selection)"""
        self.ctx.full_masks = True

    # specs
    def assume_all(self, n, f):
        """precondition: f(i) for all 0 <= i < n"""
        self.ctx.foralls.append((S_.dimterm(n), lambda i: canon(_asterm(f(Sym.scalar(i, kind="i"))))))

    def map(self, n, f, unit=None):
        """array of length n whose i-th element is f(i)"""
        return coerce(F.eval_map(F.SymSeq(S_.dimterm(n), lambda i: Sym.scalar(lift(i), kind="i")), f))

    def ite(self, c, a, b): return F.NPF["where"](c, a, b)

    def sum(self, n, f):
        return F.np_reduce("sum", self.map(n, f))

    # obligations
    def _oblige(self, label, goal):
        self._leak(goal)
        r = P.prove(goal, self.ctx.pc)
        self.results.append((label, r, goal, list(self.ctx.pc)))
        if not r.ok:
            self.ctx.log.append(label)
        return r.ok

    def _leak(self, t):
        lv = getattr(self.ctx, "loopvars", None)
        if lv and fvs(t) & lv: unsupported("value of one iteration used after a loop over a symbolic length")

    def ensure(self, cond, label):
        self._oblige(label, canon(_asterm(cond)))

    def ensure_eq(self, a, b, label, unit=True, rtol=None):
        if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                self._oblige(label, TRUE if a == b else FALSE); return
        if isinstance(a, (list, tuple, dict)) and isinstance(b, (list, tuple, dict)) and not any_sym(a) and not any_sym(b):
            self._oblige(label, TRUE if a == b else FALSE); return
        if isinstance(a, F.SymTable) or isinstance(b, F.SymTable):
            if not (isinstance(a, F.SymTable) and isinstance(b, F.SymTable)):
                self._oblige(label + ": table", FALSE); return
            self.ensure_eq(a.keys(), b.keys(), label + ": columns")
            for k in a.keys():
                if k in b.keys(): self.ensure_eq(a[k], b[k], "%s: %s" % (label, k), unit)
            return
        if a is None or b is None:
            self._oblige(label, TRUE if a is b else FALSE); return
        a, b = coerce(a), coerce(b)
        ua, ub = a._unit or au.dimensionless_unscaled, b._unit or au.dimensionless_unscaled
        if unit and not ua.is_equivalent(ub):
            self._oblige("%s: unit %s instead of %s" % (label, ua, ub), FALSE); return
        if not ua.is_equivalent(ub):
            ua = ub = None
        if a.ndim != b.ndim:
            # one-element arrays and scalars are interchangeable for the reader of a result
            if a.ndim == 0 and all(s is ONE for s in b._shape): b = Sym.scalar(b.term(), b._unit, b.kind)
            elif b.ndim == 0 and all(s is ONE for s in a._shape): a = Sym.scalar(a.term(), a._unit, a.kind)
            else:
                self._oblige("%s: %d-d result instead of %d-d" % (label, a.ndim, b.ndim), FALSE); return
        n0 = len(self.ctx.pc)
        goals = [eq(x, y) for x, y in zip(a._shape, b._shape)]
        ok = self._oblige(label + ": shape", and_(*goals)) if a.ndim else True
        if not ok: return
        fa = a.elem_in(ua) if ua is not None else a.fn()
        fb = b.elem_in(ua) if ua is not None else b.fn()
        idx = []
        for s in a._shape:
            v = fresh("k", "int", "nonneg")
            self.ctx.pc.append(lt(v, s))
            idx.append(v)
        x, y = fa(tuple(idx)), fb(tuple(idx))
        self._leak(x); self._leak(y)
        if x.sort == "R" and y.sort == "R":
            r = P.prove_eq(x, y, list(self.ctx.pc))
            if r.ok: P.STATS["ring" if r.backend == "ring" else "z3"] += 1
            if not r.ok and not r.detail: r.detail = "%s  ==  %s" % (show(x)[:400], show(y)[:400])
            goal = eq(x, y) if not (has_nan(x) or has_nan(y)) else None
        elif x.sort == "B" and y.sort == "B":
            goal = iff(x, y); r = P.prove(goal, list(self.ctx.pc))
        else:
            goal = eq(x, y); r = P.prove(goal, list(self.ctx.pc))
        self.results.append((label, r, goal, list(self.ctx.pc)))
        del self.ctx.pc[n0:]
        # dead-code: pc restored

    def ensure_le(self, a, b, label):
        c = coerce(a) <= b
        self._all(c, label)

    def ensure_lt(self, a, b, label):
        c = coerce(a) < b
        self._all(c, label)

    def ensure_all(self, c, label): self._all(c, label)

    def _all(self, c, label):
        c = coerce(c)
        n0 = len(self.ctx.pc)
        idx = []
        for s in c._shape:
            v = fresh("k", "int", "nonneg")
            self.ctx.pc.append(lt(v, s)); idx.append(v)
        self._oblige(label, canon(c.fn()(tuple(idx))))
        del self.ctx.pc[n0:]

    def ensure_forall(self, n, f, label, split=False):
        """f(i) for all 0 <= i < n, from the quantified preconditions at the same index"""
        n0, m = len(self.ctx.pc), S_.dimterm(n)
        if split:       # the last index on its own
            m = canon(sub(m, ONE))
            self.ctx.pc.append(canon(le(ZERO, m)))
            self.use(m)
            self._oblige(label + " (last)", canon(_asterm(f(Sym.scalar(m, kind="i")))))
            del self.ctx.pc[n0:]
        v = fresh("k", "int", "nonneg")
        m0 = self.ctx.enter(v, m)
        self._oblige(label, canon(_asterm(f(Sym.scalar(v, kind="i")))))
        self.ctx.leave(v, n0, m0, "quantified claim")

    def use(self, i):
        """the quantified preconditions, at index i"""
        i = i.term() if isinstance(i, Sym) else lift(i)
        for m, f in self.ctx.foralls:
            t = or_(lt(i, ZERO), not_(lt(i, m)), canon(f(i)))
            if t is not TRUE: self.ctx.pc.append(canon(t))

    def listing(self, n, f):
        """the python list [f(0), ..., f(n-1)]"""
        return F.SymList(S_.dimterm(n), lambda i: f(Sym.scalar(lift(i), kind="i")))

    def invariant(self, loop, variables, holds):
        """invariant of the k-th `while` of a function, loop = "Class.function#k": variables(S, values before) gives arbitrary values of
        the variables the loop assigns, holds(S, values, claim) states the invariant"""
        self.ctx.invariants[loop] = (self, (variables, holds))

    def fail(self, label, msg=""):
        self._oblige(label + (": " + msg if msg else ""), FALSE)

    def ok(self, label):
        self._oblige(label, TRUE)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def expect_raise(self, label, f, *a, exc=Exception, **k):
        try:
            f(*a, **k)
        except exc:
            self._oblige(label, TRUE); return
        self._oblige(label, FALSE)

    # frame conditions
    def snapshot(self, obj): return _snap(obj, {})

    def ensure_unchanged(self, obj, snap, label):
        now = _snap(obj, {})
        self._cmp(snap, now, label)

    def _cmp(self, a, b, label):
        if type(a) is not type(b):
            self._oblige(label + ": changed type", FALSE); return
        if isinstance(a, dict):
            if list(a) != list(b):
                self._oblige("%s: keys changed from %s to %s" % (label, list(a)[:12], list(b)[:12]), FALSE); return
            for k in a: self._cmp(a[k], b[k], "%s.%s" % (label, k))
            return
        if isinstance(a, list):
            if len(a) != len(b):
                self._oblige(label + ": length changed", FALSE); return
            for i, (x, y) in enumerate(zip(a, b)): self._cmp(x, y, "%s[%d]" % (label, i))
            return
        if isinstance(a, tuple) and a and a[0] == "sym":
            if a[2:4] != b[2:4]:
                self._oblige("%s: unit %s became %s" % (label, a[3], b[3]), FALSE); return
            x = Sym(a[1], a[4], a[3], a[2]); y = Sym(b[1], b[4], b[3], b[2])
            self.ensure_eq(y, x, label)
            return
        if isinstance(a, tuple) and a and a[0] == "val":
            self._oblige(label + ": changed value", TRUE if _same(a[1], b[1]) else FALSE)
            return
        self._oblige(label, TRUE)


def _same(a, b):
    if a is b: return True
    try:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=False)
        return bool(a == b)
    except Exception:
        return False


ATOMS = (int, float, str, bytes, bool, type(None), complex, np.generic)


def _snap(o, seen):
    if id(o) in seen: return ("ref", seen[id(o)])
    if isinstance(o, Sym):
        return ("sym", o.box.f, o.kind, o._unit, o._shape)
    if isinstance(o, ATOMS) or isinstance(o, au.UnitBase): return ("val", o)
    if isinstance(o, (types.FunctionType, types.MethodType, type, types.ModuleType, types.BuiltinFunctionType)): return ("fn",)
    seen[id(o)] = len(seen)
    if isinstance(o, F.SymTable):
        return {"__table__": _snap(dict(o._cols), seen), "__meta__": _snap(dict(o.meta), seen)}
    if isinstance(o, F.SymSeq):
        return _snap(coerce(o), seen)
    if isinstance(o, dict): return {k: _snap(v, seen) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [_snap(x, seen) for x in o]
    if isinstance(o, au.Quantity): return ("val", (o.unit, o.value.copy() if isinstance(o.value, np.ndarray) else o.value)) if False else ["q", ("val", str(o.unit)), ("val", np.array(o.value))]
    if isinstance(o, np.ndarray): return ("val", o.copy())
    from astropy.table import Table
    if isinstance(o, Table):
        return {"__table__": {c: _snapcol(o[c]) for c in o.colnames}, "__meta__": _snap(dict(o.meta), seen)}
    if hasattr(o, "__dict__"):
        return {k: _snap(v, seen) for k, v in vars(o).items() if k not in ("_logger", "_log_name", "_task_input", "_output")}
    return ("opaque",)


def _snapcol(c):
    if isinstance(c, au.Quantity): return ["q", ("val", str(c.unit)), ("val", np.array(c.value))]
    if isinstance(c, np.ma.MaskedArray): return ["m", ("val", str(getattr(c, "unit", None))), ("val", np.array(c.filled()))]
    return ["c", ("val", str(getattr(c, "unit", None))), ("val", np.array(c))]


def _asterm(c):
    if isinstance(c, Term): return c
    if isinstance(c, Sym):
        return c.term()
    return TRUE if c else FALSE


# ---------------------------------------------------------------- concrete mode
class ConS:
    symbolic = False

    def __init__(self, con, rng, hints=None, choices=None, size=None, replay=None):
        self.ghost = Ghost()
        self.replay = replay or {}
        self.con, self.rng = con, rng
        self.np, self.u = np, au
        self.hints = hints or {}
        self.forced = choices or {}
        self.inputs = collections.OrderedDict()
        self.checked = 0
        self.size = size
        self.tier = "quick"
        self.trace = []

    @property
    def QTable(self):
        from astropy.table import QTable
        return QTable

    @property
    def Table(self):
        from astropy.table import Table
        return Table

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def fn(self, path):
        m, _, a = path.partition(":")
        o = self.mod(m)
        for p in a.split("."): o = getattr(o, p)
        return o

    def _draw(self, pos, nonneg, lo, hi):
        r = self.rng
        if lo is None: lo = 0.0 if (nonneg or pos) else None
        if lo is not None and hi is not None:
            if r.random() < 0.15: return float(lo) if not (pos and lo == 0) else float(hi)
            if r.random() < 0.15: return float(hi)
            if lo > 0 and hi / lo > 50:
                return float(math.exp(r.uniform(math.log(lo), math.log(hi))))
            return r.uniform(lo, hi)
        if nonneg and not pos and r.random() < 0.15: return 0.0
        v = math.exp(r.uniform(-4, 5))
        if lo is not None: return lo + v
        if hi is not None: return hi - v
        if r.random() < 0.1: return 0.0
        return v if r.random() < 0.5 else -v

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, unit=None, kind="f", **k):
        if name in self.replay:
            v = self.inputs[name] = self.replay[name]
            return v if unit is None else v * au.Unit(unit)
        h = self.hints.get(name)
        v = h if isinstance(h, (int, float)) else None
        if v is not None and ((lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0) or (nonneg and v < 0)): v = None
        if v is None: v = self._draw(pos, nonneg, lo, hi)
        if kind == "i": v = int(round(v))
        self.inputs[name] = v
        return v if unit is None else v * au.Unit(unit)

    def integer(self, name, lo=0, hi=None, **k):
        if name in self.replay:
            self.inputs[name] = self.replay[name]
            return self.replay[name]
        h = self.hints.get(name)
        if isinstance(h, (int, float)) and lo <= h <= (hi if hi is not None else lo + 40): v = int(h)
        else: v = self.rng.randint(lo, hi if hi is not None else lo + 6)
        self.inputs[name] = v
        return v

    def dim(self, name, lo=1, hi=None):
        if name in self.replay:
            self.inputs[name] = self.replay[name]
            return self.replay[name]
        h = self.hints.get(name)
        if isinstance(h, (int, float)) and lo <= h <= 12: v = int(h)
        else: v = self.rng.randint(lo, hi if hi is not None else max(lo + 5, 6))
        self.inputs[name] = v
        return v

    def flag(self, name):
        v = bool(self.forced[name]) if name in self.forced else self.rng.random() < 0.5
        if name in self.replay: v = bool(self.replay[name])
        self.inputs[name] = v
        return v

    def choose(self, name, options):
        k = self.forced[name] if name in self.forced else self.rng.randrange(len(options))
        if name in self.replay: k = self.replay[name]
        k = min(k, len(options) - 1)
        self.inputs[name] = k
        return options[k]

    def arr(self, name, *dims, unit=None, pos=False, nonneg=False, increasing=False, kind="f", lo=None, hi=None, values=None, **k):
        dims = tuple(int(d) for d in dims)
        h = self.hints.get(name)
        if name in self.replay:
            a = np.array(self.replay[name], dtype={"s": "U16", "b": bool, "i": int}.get(kind, float)).reshape(dims)
            self.inputs[name] = a.tolist()
            return a if unit is None else a * au.Unit(unit)
        if kind == "s":
            vals = list(values or ["a", "b"])
            a = np.array([self.rng.choice(vals) for _ in range(dims[0])], dtype=str) if dims[0] else np.array([], dtype="U8")
            self.inputs[name] = a.tolist()
            return a
        if kind == "b":
            a = np.array([self.rng.random() < 0.5 for _ in range(int(np.prod(dims)))]).reshape(dims)
            self.inputs[name] = a.tolist()
            return a
        a = np.array([self._draw(pos, nonneg, lo, hi) for _ in range(int(np.prod(dims)))], dtype=float).reshape(dims)
        if increasing:
            a = np.sort(a)
            for i in range(1, len(a)):
                if a[i] <= a[i - 1]: a[i] = a[i - 1] + max(abs(a[i - 1]), 1e-6) * 1e-3
        if callable(h):
            for ix in np.ndindex(*dims):
                v = h(ix)
                if v is None: continue
                if (pos and v <= 0) or (nonneg and v < 0) or (lo is not None and v < lo) or (hi is not None and v > hi): continue
                a[ix] = v
            if increasing and np.any(np.diff(a) <= 0): a = np.sort(np.abs(a)) + np.arange(len(a)) * 1e-6
        if kind == "i": a = np.rint(a).astype(int)
        self.inputs[name] = a.tolist()
        return a if unit is None else a * au.Unit(unit)

    def strs(self, name, n, values=()):
        return self.arr(name, n, kind="s", values=values)

    def numeral(self, name, integer=False, **k):
        x = self.integer(name, **k) if integer else self.real(name, **k)
        return ("%d" % x if integer else repr(float(x))), x

    def unit_column(self, q):
        from astropy.table import Column
        return Column(q.value, unit=q.unit)

    def column(self, x): return x

    def assume(self, cond):
        if not bool(np.all(cond)): raise Discard()

    def decide(self, cond): return bool(cond)

    def full_masks(self): pass

    def assume_all(self, n, f):
        if not all(bool(f(i)) for i in range(int(n))): raise Discard()

    def map(self, n, f, unit=None):
        l = [f(i) for i in range(int(n))]
        if not l: return np.array([]) * (au.Unit(unit) if unit else au.dimensionless_unscaled)
        if isinstance(l[0], au.Quantity): return au.Quantity(l)
        return np.array(l)

    def ite(self, c, a, b):
        if isinstance(a, au.Quantity) or isinstance(b, au.Quantity):
            ua = a.unit if isinstance(a, au.Quantity) else b.unit
            return np.where(c, au.Quantity(a).to_value(ua) if isinstance(a, au.Quantity) else a,
                            au.Quantity(b).to_value(ua) if isinstance(b, au.Quantity) else b) * ua
        return np.where(c, a, b)

    def sum(self, n, f):
        r = [f(i) for i in range(int(n))]
        t = r[0] if r else 0.0
        for x in r[1:]: t = t + x
        return t

    def ensure(self, cond, label):
        self.checked += 1
        if not bool(np.all(cond)): raise Violation(label, "condition is false")

    def ensure_eq(self, a, b, label, unit=True, rtol=1e-7):
        self.checked += 1
        if rtol is None: rtol = 1e-7
        from astropy.table import Table
        if a is None or b is None or isinstance(a, (str, bool, list, dict, tuple)) and isinstance(b, (str, bool, list, dict, tuple)) and not _has_arr(a):
            if not (a is b or (a is not None and b is not None and a == b)):
                raise Violation(label, "%r instead of %r" % (a, b))
            return
        if isinstance(a, Table) and isinstance(b, Table):
            if a.colnames != b.colnames: raise Violation(label, "columns %s instead of %s" % (a.colnames, b.colnames))
            for c in a.colnames: self.ensure_eq(_col(a[c]), _col(b[c]), "%s: %s" % (label, c), unit, rtol)
            return
        a, b = _col(a), _col(b)
        qa = a.unit if isinstance(a, au.Quantity) else au.dimensionless_unscaled
        qb = b.unit if isinstance(b, au.Quantity) else au.dimensionless_unscaled
        if isinstance(a, list): a = au.Quantity(a) if a and isinstance(a[0], au.Quantity) else np.array(a)
        if isinstance(b, list): b = au.Quantity(b) if b and isinstance(b[0], au.Quantity) else np.array(b)
        if unit:
            if not qa.is_equivalent(qb): raise Violation(label, "unit %s instead of %s" % (qa, qb))
            x = np.asarray((a * au.dimensionless_unscaled).to_value(qb) if isinstance(a, au.Quantity) or qb != au.dimensionless_unscaled else a)
        else:
            x = np.asarray(a.value if isinstance(a, au.Quantity) else a)
        y = np.asarray(b.value if isinstance(b, au.Quantity) else b)
        if x.ndim != y.ndim and x.size == 1 and y.size == 1: x, y = x.reshape(()), y.reshape(())
        if x.shape != y.shape: raise Violation(label, "shape %s instead of %s" % (x.shape, y.shape))
        if x.dtype.kind in "USOb" or y.dtype.kind in "USOb":
            if not np.array_equal(x, y): raise Violation(label, "%r instead of %r" % (x, y))
            return
        x, y = x.astype(float), y.astype(float)
        sc = np.nanmax(np.abs(y[np.isfinite(y)])) if np.isfinite(y).any() else 0.0
        bad = ~np.isclose(x, y, rtol=rtol, atol=1e-12 * sc, equal_nan=True)
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0]) if bad.ndim else ()
            raise Violation(label, "element %s is %r, expected %r" % (i, float(x[i]), float(y[i])))

    def ensure_le(self, a, b, label):
        self.checked += 1
        if not np.all(a <= b + abs(b) * 1e-9): raise Violation(label, "%s > %s" % (a, b))

    def ensure_lt(self, a, b, label):
        self.checked += 1
        if not np.all(a < b): raise Violation(label, "%s >= %s" % (a, b))

    def ensure_all(self, c, label):
        self.checked += 1
        if not np.all(c): raise Violation(label, "false for some element")

    def ensure_forall(self, n, f, label, split=False):
        self.checked += 1
        for i in range(int(n)):
            if not bool(f(i)): raise Violation(label, "false at index %d" % i)

    def use(self, i): pass

    def listing(self, n, f): return [f(i) for i in range(int(n))]

    def invariant(self, loop, variables, holds): pass

    def fail(self, label, msg=""):
        raise Violation(label, msg)

    def ok(self, label): self.checked += 1

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def expect_raise(self, label, f, *a, exc=Exception, **k):
        self.checked += 1
        try:
            f(*a, **k)
        except exc:
            return
        raise Violation(label, "no exception was raised")

    def snapshot(self, obj): return _snap(obj, {})

    def ensure_unchanged(self, obj, snap, label):
        self.checked += 1
        d = _diffsnap(snap, _snap(obj, {}), label)
        if d: raise Violation(label, d)


def _has_arr(a):
    if isinstance(a, dict): return any(_has_arr(x) for x in a.values())
    if isinstance(a, (list, tuple)): return any(_has_arr(x) or isinstance(x, (np.ndarray, float)) for x in a)
    return isinstance(a, np.ndarray)


def _col(x):
    from astropy.table import Column
    if isinstance(x, Column):
        return np.asarray(x) * x.unit if x.unit is not None else np.asarray(x)
    return x


def _diffsnap(a, b, path):
    if type(a) is not type(b): return path + " changed type"
    if isinstance(a, dict):
        if list(a) != list(b): return "%s: keys %s became %s" % (path, list(a)[:12], list(b)[:12])
        for k in a:
            d = _diffsnap(a[k], b[k], "%s.%s" % (path, k))
            if d: return d
        return None
    if isinstance(a, list):
        if len(a) != len(b): return path + " changed length"
        for i, (x, y) in enumerate(zip(a, b)):
            d = _diffsnap(x, y, "%s[%d]" % (path, i))
            if d: return d
        return None
    if a[0] == "val":
        if isinstance(a[1], float) and isinstance(b[1], float) and a[1] != a[1] and b[1] != b[1]: return None
        if isinstance(a[1], np.ndarray) and isinstance(b[1], np.ndarray) and a[1].shape == b[1].shape and a[1].dtype.kind == "f":
            return None if np.array_equal(a[1], b[1], equal_nan=True) else path + " changed value"
        return None if _same(a[1], b[1]) else "%s changed from %r to %r" % (path, a[1], b[1])
    return None
