"""Symbolic arrays / quantities that the real code computes with."""
import builtins, math, numbers
import numpy as np
import astropy.units as au
from .loops import SERIAL
from astropy.units import UnitBase
from .terms import *
from . import terms as T
from .ctx import *

_ufac = {}


def ufactor(a, b):
    """exact conversion factor between astropy units (raises the real UnitConversionError)"""
    key = (a, b)
    try:
        r = _ufac.get(key)
    except TypeError:
        r = None
    if r is None:
        f = a.to(b)
        r = snap(f)
        for k in (2, 4):
            pass
        _ufac[key] = r
    return r


class Box:
    __slots__ = ("_f", "rank", "serial")

    def __init__(self, f):
        self._f = f
        self.rank = None
        SERIAL[0] += 1
        self.serial = SERIAL[0]

    @property
    def f(self):
        return self._f

    @f.setter
    def f(self, g):
        fr = CUR[0].frames if CUR[0] is not None else ()
        for frame in fr:
            frame.touch(self)
        self._f = g


class View(Box):
    """basic-index view of another box: reads and writes go through"""
    __slots__ = ("base", "fwd", "inrange", "back")

    def __init__(self, base, fwd, inrange, back):
        self.base, self.fwd, self.inrange, self.back = base, fwd, inrange, back

    @property
    def f(self):
        g, fwd = self.base.f, self.fwd
        return lambda idx: g(fwd(idx))

    @f.setter
    def f(self, new):
        old, inr, back = self.base.f, self.inrange, self.back
        self.base.f = lambda idx: ite(inr(idx), new(back(idx)), old(idx))


def dimint(n):
    """dimension term -> python int when constant, else symbolic integer"""
    n = canon(lift(n))
    if n.op == "const" and n.val.denominator == 1:
        return int(n.val)
    return Sym.scalar(n, kind="i")


def dimterm(d):
    if isinstance(d, Sym):
        return d.term()
    return lift(int(d))


def idx_list(items):
    """list of terms -> element function on a symbolic index"""
    items = list(items)

    def f(idx):
        i = idx[0]
        if i.op == "const":
            return items[int(i.val)]
        if not items:
            return ZERO
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(eq(i, const(k)), items[k], r)
        return r
    return f


def memo1(f):
    m = {}

    def g(idx):
        r = m.get(idx)
        if r is None:
            r = f(idx)
            m[idx] = r
        return r
    return g


KINDS = {"f": np.float64, "i": np.int64, "b": np.bool_, "s": np.str_}


def _plain(k):
    for q, v in k.items():
        if q != "dtype" and v is not None and v is not False: unsupported("reduction with %s=" % q)


class Sym:
    __array_ufunc__ = None
    __array_priority__ = 1e9
    def __hash__(self):
        if not self._shape:
            t = canon(self.box.f(()))
            if t.op == "str": return hash(t.val)
        raise TypeError("unhashable type: 'Sym'")

    def __init__(self, f, shape, unit=None, kind="f", column=False):
        self.box = f if isinstance(f, Box) else Box(memo1(f))
        self._shape = tuple(canon(lift(s)) for s in shape)
        self.box.rank = len(self._shape)
        self._unit = unit
        self.kind = kind
        self.column = column

    # -- construction
    @staticmethod
    def scalar(t, unit=None, kind="f"):
        t = lift(t)
        if t.sort == "B": kind = "b"
        if t.sort == "S": kind = "s"
        return Sym(lambda idx: t, (), unit, kind)

    def term(self):
        if self._shape == ():
            return self.box.f(())
        if all(s is ONE for s in self._shape):
            return self.box.f(tuple(ZERO for _ in self._shape))
        raise TypeError("only size-1 arrays can be converted")

    def at(self, *idx):
        return self.box.f(tuple(lift(i) for i in idx))

    def fn(self):
        """snapshot element function"""
        return self.box.f

    def elem_in(self, unit):
        f = self.box.f
        if unit is None or self._unit is None:
            return f
        k = ufactor(self._unit, au.Unit(unit))
        if k == 1: return f
        c = const(k)
        return lambda idx: mul(c, f(idx))

    # -- attributes
    @property
    def unit(self):
        if self._unit is None:
            if self.column: return None
            raise AttributeError("unit")
        return self._unit

    @property
    def value(self):
        if self._unit is None and not self.column:
            raise AttributeError("value")
        return self._raw()

    def _raw(self):
        r = Sym.__new__(Sym)
        r.box, r._shape, r._unit, r.kind, r.column = self.box, self._shape, None, self.kind, False
        return r

    @property
    def data(self):
        if self.column: return self._raw()
        if self._unit is None: return self._raw()
        unsupported("Quantity.data")

    @property
    def shape(self):
        return tuple(dimint(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return dimint(mul(*self._shape) if self._shape else ONE)

    @property
    def dtype(self):
        return np.dtype(KINDS[self.kind])

    @property
    def T(self):
        if self.ndim < 2: return self
        f = self.box.f
        return Sym(lambda idx: f(idx[::-1]), self._shape[::-1], self._unit, self.kind)

    @property
    def si(self):
        s = self._unit.si
        k = snap(s.scale)
        f = self.box.f
        return Sym(lambda idx: mul(const(k), f(idx)), self._shape, au.CompositeUnit(1, s.bases, s.powers), self.kind)

    @property
    def isscalar(self):
        return self._shape == ()

    @property
    def name(self):
        if self.column: return None
        raise AttributeError("name")

    def __getattr__(self, nm):
        if nm.startswith("__") and nm.endswith("__"):
            raise AttributeError(nm)
        real = au.Quantity if self._unit is not None else np.ndarray
        if hasattr(real, nm):
            unsupported("array attribute %s" % nm)
        raise AttributeError(nm)

    # -- conversions
    def to(self, unit, equivalencies=None, copy=True):
        if self._unit is None:
            raise AttributeError("to")
        unit = au.Unit(unit)
        f = self.elem_in(unit)
        return Sym(f, self._shape, unit, "f" if self.kind == "i" else self.kind)

    def to_value(self, unit=None):
        return (self if unit is None else self.to(unit))._raw()

    def decompose(self):
        d = self._unit.decompose()
        return self.to(au.CompositeUnit(1, d.bases, d.powers))

    def copy(self, order=None):
        return Sym(self.box.f, self._shape, self._unit, self.kind, self.column)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def astype(self, dt, copy=True):
        k = kind_of_dtype(dt)
        f = self.box.f
        if k == self.kind or k == "O":
            return Sym(f, self._shape, self._unit, self.kind)
        if self.kind == "b" and k in "fi":
            return Sym(lambda idx: ite(f(idx), ONE, ZERO), self._shape, self._unit, k)
        if self.kind == "i" and k == "f":
            return Sym(f, self._shape, self._unit, k)
        if self.kind == "f" and k == "i":
            return Sym(lambda idx: app("int", (f(idx),)), self._shape, self._unit, k)
        if k == "b":
            return Sym(lambda idx: not_(eq(f(idx), ZERO)), self._shape, None, k)
        unsupported("astype %r" % (dt,))

    def __bool__(self):
        if self._shape == () or all(s is ONE for s in self._shape):
            t = self.term()
            if t.sort == "B":
                return decide(t)
            if t.sort == "S":
                unsupported("truth of a symbolic string")
            return decide(not_(eq(t, ZERO)))
        if any(s.op != "const" for s in self._shape):
            unsupported("truth value of a symbolic-length array")
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def _pynum(self, what):
        if self.kind == "s":
            t = self.term()
            if t.op == "str":
                return float(t.val) if what == "float" else int(t.val)
            unsupported("%s() of a symbolic string" % what)
        t = canon(self.term())
        if self._unit is not None and what != "index":
            t = canon(mul(const(ufactor(self._unit, au.dimensionless_unscaled)), t))
        if t.op == "const":
            return float(t.val) if what == "float" else int(t.val)
        if what == "index" and t.op in ("argmin", "argmax", "ite", "add", "mul", "ind"):
            from . import prover as P
            c = CUR[0]
            if not P.feasible(c.pc + [or_(lt(const(16), t), lt(t, ZERO))]):
                for j in range(17):
                    if decide(eq(t, const(j))): return j
                raise PathDead()
        unsupported("%s() of a symbolic value outside instrumented code" % what)

    def __float__(self): return self._pynum("float")
    def __int__(self): return int(self._pynum("int"))

    def __index__(self):
        if self.kind != "i": raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._pynum("index"))

    def __len__(self):
        if not self._shape: raise TypeError("len() of unsized object")
        n = self._shape[0]
        if n.op == "const": return int(n.val)
        unsupported("len() of a symbolic-length array")

    def __iter__(self):
        if not self._shape: raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if n.op != "const":
            unsupported("iteration over a symbolic-length array")
        return iter([self[k] for k in range(int(n.val))])

    def __contains__(self, x):
        return bool(np_any(self == x))

    def __repr__(self):
        return "<sym%s %s>" % (list(self._shape), self._unit)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- indexing
    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices are valid indices")
        if isinstance(key, tuple):
            if len(key) == 1 and isinstance(key[0], MaskIdx):
                return self[key[0]]
            return self._getnd(key)
        if not self._shape:
            if key is Ellipsis or key == (): return self
            if isinstance(key, Sym) and key.kind == "b":
                unsupported("0-d boolean index")
            raise TypeError("'scalar' object is not subscriptable") if self._unit is not None else IndexError("invalid index to scalar variable.")
        if isinstance(key, MaskIdx):
            return self._mask(key.n, key.maskf)
        if isinstance(key, (list, np.ndarray)) :
            key = coerce(key)
        if isinstance(key, Sym):
            if key.kind == "b" and key.ndim == 1:
                require_dim(key._shape[0], self._shape[0])
                kf = key.box.f
                return self._mask(self._shape[0], lambda i: kf((i,)))
            if key.kind == "b" and key.ndim == 0:
                unsupported("scalar boolean index")
            if key.kind == "b":
                unsupported("2-d boolean index")
            if key.kind not in "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            if key.ndim == 0:
                i = norm_index(key.term(), self._shape[0])
                return self._row(i)
            f, kf, n0 = self.box.f, key.box.f, self._shape[0]
            neg = key_may_be_negative(key)
            g = (lambda i: ite(lt(kf((i,)), ZERO), add(kf((i,)), n0), kf((i,)))) if neg else (lambda i: kf((i,)))
            return Sym(lambda idx: f((g(idx[0]),) + idx[1:]), key._shape + self._shape[1:], self._unit, self.kind)
        if isinstance(key, slice):
            lo, n, step = slice_bounds(key, self._shape[0])
            fwd = lambda idx: (add(lo, mul(const(step), idx[0])),) + idx[1:]
            if step == 1:
                v = View(self.box, fwd,
                         lambda idx: and_(le(lo, idx[0]), lt(idx[0], add(lo, n))),
                         lambda idx: (sub(idx[0], lo),) + idx[1:])
            else:
                g = self.box.f
                v = Box(memo1(lambda idx: g((canon(fwd(idx)[0]),) + idx[1:])))
            return Sym(v, (n,) + self._shape[1:], self._unit, self.kind)
        if key is None:
            f = self.box.f
            return Sym(lambda idx: f(idx[1:]), (ONE,) + self._shape, self._unit, self.kind)
        if key is Ellipsis:
            return self
        if isinstance(key, (int, np.integer)):
            n = self._shape[0]
            if n.op == "const" and not (-int(n.val) <= key < int(n.val)):
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (key, int(n.val)))
            return self._row(norm_index(lift(int(key)), n))
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")

    def _row(self, i):
        if self.ndim == 1:
            t = self.box.f((i,))
            return Sym.scalar(t, self._unit, self.kind)
        v = View(self.box, lambda idx: (i,) + idx, lambda idx: eq(idx[0], i), lambda idx: idx[1:])
        return Sym(v, self._shape[1:], self._unit, self.kind)

    def _mask(self, n, maskf):
        f = self.box.f
        m = memo1(lambda idx: canon(maskf(idx[0])))
        if n.op == "const" and n.val <= 12:
            vals = [m((const(i),)) for i in range(int(n.val))]
            pcl = None
            if all(v in (TRUE, FALSE) for v in vals):
                sel = [const(i) for i, v in enumerate(vals) if v is TRUE]
                return Sym(idx_list_rows(f, sel), (const(len(sel)),) + self._shape[1:], self._unit, self.kind)
        if CUR[0].full_masks:
            v = fresh("all", "int", "nonneg")
            from . import prover as P
            if P.prove(canon(maskf(v)), CUR[0].pc + [lt(v, n)]).ok:
                return Sym(f, (n,) + self._shape[1:], self._unit, self.kind)
        ml = canon(lam(maskf))
        cnt = app("count", (n, ml), {"int", "nonneg"})
        return Sym(lambda idx: f((sel_term(n, ml, idx[0]),) + idx[1:]), (cnt,) + self._shape[1:], self._unit, self.kind)

    def _getnd(self, key):
        key = list(key)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [k is Ellipsis for k in key].index(True)
            key[p:p + 1] = [slice(None)] * (self.ndim - (len([k for k in key if k is not None]) - 1))
        key += [slice(None)] * (self.ndim - len([k for k in key if k is not None]))
        # every component: int -> fixed, slice -> range, None -> new axis
        comps, shape = [], []
        d = 0
        for k in key:
            if k is None:
                comps.append(("new",)); shape.append(ONE); continue
            n = self._shape[d]
            if isinstance(k, (int, np.integer)) or (isinstance(k, Sym) and k.ndim == 0):
                i = norm_index(k.term() if isinstance(k, Sym) else lift(int(k)), n)
                comps.append(("fix", i))
            elif isinstance(k, slice):
                lo, m, st = slice_bounds(k, n)
                comps.append(("rng", lo, m, st)); shape.append(m)
            else:
                unsupported("mixed n-d indexing")
            d += 1

        def fwd(idx):
            out, j = [], 0
            for c in comps:
                if c[0] == "fix": out.append(c[1])
                elif c[0] == "new": j += 1
                else:
                    out.append(add(c[1], mul(const(c[3]), idx[j]))); j += 1
            return tuple(out)

        def inr(idx):
            cs, j = [], 0
            for c in comps:
                if c[0] == "new": continue
                if c[0] == "fix": cs.append(eq(idx[j], c[1]))
                else: cs += [le(c[1], idx[j]), lt(idx[j], add(c[1], c[2]))]
                j += 1
            return and_(*cs)

        def back(idx):
            out, j = [], 0
            for c in comps:
                if c[0] == "new": out.append(ZERO); continue
                if c[0] == "rng": out.append(sub(idx[j], c[1]))
                j += 1
            return tuple(out)
        if all(c[0] != "rng" or c[3] == 1 for c in comps):
            v = View(self.box, fwd, inr, back)
        else:
            g = self.box.f
            v = Box(lambda idx: g(fwd(idx)))
        if not shape:
            t = v.f(())
            return Sym.scalar(t, self._unit, self.kind)
        return Sym(v, shape, self._unit, self.kind)

    def __setitem__(self, key, val):
        old = self.box.f
        v = self._conv_in(val)
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, (list, np.ndarray)):
            key = coerce(key)
        if key is Ellipsis and self._shape:
            b = broadcast_to(v, self._shape)
            self.box.f = memo1(lambda idx: b(idx))
            return
        if isinstance(key, (Sym, MaskIdx)) and (isinstance(key, MaskIdx) or key.kind == "b"):
            if isinstance(key, MaskIdx):
                require_dim(key.n, self._shape[0]); mf = key.maskf
            else:
                if key.ndim != 1: unsupported("mask assignment ndim")
                require_dim(key._shape[0], self._shape[0])
                kf = key.box.f; mf = lambda i: kf((i,))
            if v.ndim == 0 or (v.ndim == 1 and v._shape[0] is ONE):
                t = v.term()
                self.box.f = memo1(lambda idx: ite(mf(idx[0]), t, old(idx)))
            else:
                ml = canon(lam(mf)); n = self._shape[0]; vf = v.box.f
                require_dim(v._shape[0], app("count", (n, ml), {"int", "nonneg"}))
                self.box.f = memo1(lambda idx: ite(mf(idx[0]), vf((app("rank", (n, ml, idx[0]), {"int", "nonneg"}),) + idx[1:]), old(idx)))
            return
        if isinstance(key, Sym) and key.kind == "i" and key.ndim == 0 and self.ndim == 1:
            i = norm_index(key.term(), self._shape[0])
            t = v.term()
            self.box.f = memo1(lambda idx: ite(eq(idx[0], i), t, old(idx)))
            return
        if isinstance(key, (int, np.integer)) and self.ndim == 1:
            n = self._shape[0]
            if n.op == "const" and not (-int(n.val) <= key < int(n.val)):
                raise IndexError("index out of bounds")
            i = norm_index(lift(int(key)), n)
            t = v.term()
            self.box.f = memo1(lambda idx: ite(eq(idx[0], i), t, old(idx)))
            return
        if isinstance(key, Sym) and key.kind == "i" and key.ndim == 1:
            unsupported("integer-array assignment")
        tgt = self[key]
        b = broadcast_to(v, tgt._shape)
        if isinstance(tgt.box, View):
            tgt.box.f = b
        else:
            unsupported("assignment through a non-view index")

    def _conv_in(self, val):
        """value stored into this array: unit conversion as astropy does"""
        v = coerce(val)
        if self._unit is not None:
            if v._unit is None:
                t = v.term() if v.ndim == 0 else None
                if t is ZERO or t is NAN:
                    return v
                if not self._unit.is_equivalent(au.dimensionless_unscaled):
                    raise TypeError("cannot convert value type to array type without precision loss")
                return Sym(mulf(v.box.f, 1 / ufactor(self._unit, au.dimensionless_unscaled)), v._shape)
            return Sym(v.elem_in(self._unit), v._shape, self._unit, v.kind)
        if v._unit is not None:
            if v._unit.is_equivalent(au.dimensionless_unscaled):
                return Sym(v.elem_in(au.dimensionless_unscaled), v._shape)
            raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
        if self.kind == "f" and v.kind == "b":
            return v.astype(float)
        return v

    # -- arithmetic
    def __add__(s, o): return addlike(s, o, add)
    def __radd__(s, o): return addlike(o, s, add)
    def __sub__(s, o): return addlike(s, o, sub)
    def __rsub__(s, o): return addlike(o, s, sub)
    def __mul__(s, o): return mullike(s, o)
    def __rmul__(s, o): return mullike(o, s)
    def __truediv__(s, o): return divlike(s, o)
    def __rtruediv__(s, o): return divlike(o, s)
    def __pow__(s, o): return powlike(s, o)
    def __rpow__(s, o): return powlike(o, s)
    def __neg__(s): return mullike(s, -1)
    def __pos__(s): return s
    def __abs__(s): return np_abs(s)

    def __floordiv__(s, o):
        q = divlike(s, o)
        if q._unit is not None:
            q = q.to(au.dimensionless_unscaled)
        f = q.box.f
        k = "i" if s.kind == "i" and coerce(o).kind == "i" else "f"
        return Sym(lambda idx: app("floor", (f(idx),)), q._shape, q._unit, k)

    def __rfloordiv__(s, o): return coerce(o).__floordiv__(s)

    def __mod__(s, o):
        return s - (s // o) * o

    def __iadd__(s, o): return s._inplace(addlike(s, o, add))
    def __isub__(s, o): return s._inplace(addlike(s, o, sub))

    def __imul__(s, o):
        if isinstance(o, UnitBase) and s._unit is None:
            return mullike(s, o)
        return s._inplace(mullike(s, o))

    def __itruediv__(s, o):
        if isinstance(o, UnitBase) and s._unit is None:
            return divlike(s, o)
        return s._inplace(divlike(s, o))

    def __ipow__(s, o): return s._inplace(powlike(s, o))
    def __imod__(s, o): return s._inplace(s % o)
    def __ifloordiv__(s, o): return s._inplace(s // o)
    def __iand__(s, o): return s._inplace(s & o)
    def __ior__(s, o): return s._inplace(s | o)
    def __ixor__(s, o): return s._inplace(s ^ o)

    def _refused(s, *a, **k): unsupported("array operation")
    __array__ = __complex__ = __divmod__ = __rdivmod__ = __imatmul__ = __rmod__ = __rxor__ = _refused
    __rrshift__ = __rshift__ = _refused

    def __trunc__(s):
        if s._shape or s._unit is not None: raise TypeError("only length-1 arrays can be converted")
        return Sym.scalar(app("int", (s.term(),)), None, "i")

    def __lshift__(s, o):
        if isinstance(o, str): o = au.Unit(o)
        if isinstance(o, UnitBase): return s.to(o) if s._unit is not None else s * o
        unsupported("array operation <<")

    def __delitem__(s, k): raise ValueError("cannot delete array elements")

    def _inplace(self, r):
        if not self._shape and self._unit is None:
            return r                     # python / numpy scalars are immutable
        if r._shape != self._shape:
            if len(r._shape) != len(self._shape) or not all(
                    a is b or decide(eq(a, b)) for a, b in zip(r._shape, self._shape)):
                raise ValueError("non-broadcastable output operand")
        if self.kind == "i" and r.kind == "f":
            raise np.core._exceptions.UFuncTypeError(np.add)
        if self._unit is None and r._unit is not None:
            if r._unit.is_equivalent(au.dimensionless_unscaled) and not isinstance(self, SymColumn):
                r = Sym(r.elem_in(au.dimensionless_unscaled), r._shape)
            else:
                raise TypeError("Cannot store non-quantity output in array")
        self.box.f = r.box.f
        self._unit = r._unit
        return self

    # -- comparisons
    def __eq__(s, o): return cmplike(s, o, eq, "eq")
    def __ne__(s, o):
        r = cmplike(s, o, eq, "eq")
        if isinstance(r, bool): return not r
        f = r.box.f
        return Sym(lambda idx: not_(f(idx)), r._shape, None, "b")
    def __lt__(s, o): return cmplike(s, o, lt, "lt")
    def __le__(s, o): return cmplike(s, o, le, "lt")
    def __gt__(s, o): return cmplike(s, o, lambda a, b: lt(b, a), "lt")
    def __ge__(s, o): return cmplike(s, o, lambda a, b: le(b, a), "lt")

    def __and__(s, o): return boollike(s, o, and_)
    def __rand__(s, o): return boollike(o, s, and_)
    def __or__(s, o): return boollike(s, o, or_)
    def __ror__(s, o): return boollike(o, s, or_)
    def __xor__(s, o): return boollike(s, o, lambda a, b: not_(iff(a, b)))

    def __invert__(s):
        if s.kind != "b": unsupported("~ on non-boolean")
        f = s.box.f
        return Sym(lambda idx: not_(f(idx)), s._shape, None, "b")

    def __matmul__(s, o): return np_dot(s, o)
    def __rmatmul__(s, o): return np_dot(o, s)

    # -- reductions
    def sum(self, axis=None, **k): _plain(k); return np_reduce("sum", self, axis)
    def prod(self, axis=None, **k): _plain(k); return np_reduce("prod", self, axis)
    def max(self, axis=None, **k): _plain(k); return np_reduce("max", self, axis)
    def min(self, axis=None, **k): _plain(k); return np_reduce("min", self, axis)
    def mean(self, axis=None, **k): _plain(k); return np_mean(self, axis)
    def any(self, axis=None): return np_any(self, axis)
    def all(self, axis=None): return np_all(self, axis)
    def argmin(self, axis=None): return np_arg("argmin", self)
    def argmax(self, axis=None): return np_arg("argmax", self)
    def nonzero(self):
        from .facades import NPF
        return NPF["nonzero"](self)
    def take(self, i, axis=None): return self[i] if self.ndim == 1 else unsupported("take")
    def compress(self, m, axis=None): return self[m] if self.ndim == 1 else unsupported("compress")
    real = property(lambda s: s)
    def clip(self, min=None, max=None):
        from .facades import NPF
        return NPF["clip"](self, min, max)
    def round(self, decimals=0):
        from .facades import NPF
        return NPF["round"](self, decimals)
    def cumsum(self, axis=None):
        from .facades import NPF
        return NPF["cumsum"](self)
    def dot(self, o): return np_dot(self, o)

    def argsort(self, *a): return np_argsort(self)

    def sort(self, *a):
        r = self[np_argsort(self)]
        self.box.f = r.box.f

    def item(self, *a):
        if a: return self[a[0]]
        return Sym.scalar(self.term(), None, self.kind)

    def tolist(self):
        return [x for x in self._raw()] if self.ndim else self

    def ravel(self, *a): return np_ravel(self)
    def flatten(self, *a): return np_ravel(self).copy()
    @property
    def flat(self): return np_ravel(self)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        if shape == (-1,) or (len(shape) == 1 and self.ndim == 1):
            return np_ravel(self)
        if self.ndim == 1 and len(shape) == 2:
            f = self.box.f
            if shape[1] in (1,) and not isinstance(shape[1], Sym):
                return Sym(lambda idx: f((idx[0],)), (self._shape[0], ONE), self._unit, self.kind)
            if shape[0] in (1,) and not isinstance(shape[0], Sym):
                return Sym(lambda idx: f((idx[1],)), (ONE, self._shape[0]), self._unit, self.kind)
        unsupported("reshape")

    def squeeze(self, axis=None):
        if self.ndim == 1 and self._shape[0] is ONE:
            return self[0]
        if self.ndim <= 1: return self
        unsupported("squeeze")

    def fill(self, v):
        self[...] if False else None
        t = self._conv_in(v).term()
        self.box.f = lambda idx: t

    # strings
    def decode(self, *a):
        if self.kind == "s": return self
        raise AttributeError("decode")

    def lower(self):
        if self.kind == "s": unsupported("lower() of a symbolic string")
        raise AttributeError("lower")


class SymColumn(Sym):
    pass


def mulf(f, k):
    c = const(k)
    return f if k == 1 else (lambda idx: mul(c, f(idx)))


class MaskIdx:
    """result of np.where(mask)[0] / np.nonzero: the increasing list of true indices"""

    def __init__(self, n, maskf):
        self.n, self.maskf = n, maskf

    def _sym(self):
        ml = canon(lam(self.maskf))
        cnt = app("count", (self.n, ml), {"int", "nonneg"})
        n = self.n
        return Sym(lambda idx: sel_term(n, ml, idx[0]), (cnt,), None, "i")

    @property
    def size(self):
        n = self.n
        mf = self.maskf
        if n.op == "const" and n.val <= 12:
            vals = [canon(mf(const(i))) for i in range(int(n.val))]
            if all(v in (TRUE, FALSE) for v in vals):
                return sum(v is TRUE for v in vals)
        ml = canon(lam(mf))
        if ml.args[0] is FALSE: return 0
        return Sym.scalar(app("count", (n, ml), {"int", "nonneg"}), kind="i")

    @property
    def shape(self): return (self.size,)
    def __len__(self):
        s = self.size
        if isinstance(s, int): return s
        unsupported("len of symbolic index set")
    def __getitem__(self, k):
        return self._sym()[k]
    def __iter__(self):
        n = self.n
        if n.op == "const" and n.val <= 12:
            vals = [canon(self.maskf(const(i))) for i in range(int(n.val))]
            return iter([i for i, v in enumerate(vals) if decide(v)])
        unsupported("iteration over a symbolic index set")
    def __repr__(self): return "<maskidx>"
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return getattr(self._sym(), nm)


def sel_term(n, ml, j):
    return app("sel", (n, ml, j), {"int", "nonneg"})


def idx_list_rows(f, sel):
    pick = idx_list(sel)
    return lambda idx: f((pick((idx[0],)),) + idx[1:])


def key_may_be_negative(k):
    f = k.box.f
    v = fresh("k", "int", "nonneg")
    t = f((v,))
    return not (T.nonneg(t))


def norm_index(i, n):
    i = canon(i)
    if i.op == "const":
        if i.val < 0:
            return canon(add(n, i))
        return i
    if T.nonneg(i): return i
    c = lt(i, ZERO)
    if c is FALSE: return i
    if decide(c): return canon(add(n, i))
    return i


def slice_bounds(s, n):
    step = s.step if s.step is not None else 1
    if isinstance(step, Sym): unsupported("symbolic slice step")

    def b(x, dflt):
        if x is None: return dflt
        t = x.term() if isinstance(x, Sym) else lift(int(x))
        t = canon(t)
        if t.op == "const" and t.val < 0:
            r = canon(add(n, t))
            if r.op == "const" and r.val < 0: return ZERO
            if r.op != "const" and not decide(le(ZERO, r)): return ZERO
            return r
        if t.op == "const" and n.op == "const":
            return t if t.val <= n.val else n
        if t is ZERO or t is n: return t
        if t.op != "const" and not T.nonneg(t) and decide(lt(t, ZERO)):
            return canon(add(n, t))
        if decide(le(t, n)): return t
        return n
    if step > 0:
        lo, hi = b(s.start, ZERO), b(s.stop, n)
        m = canon(sub(hi, lo))
        if m.op == "const":
            m = const(max(0, -(-m.val // step)))
        else:
            if not decide(le(ZERO, m)): m = ZERO
            elif step != 1: m = app("ceil", (div(m, const(step)),))
        return lo, m, step
    if s.start is None and s.stop is None and step == -1:
        return canon(sub(n, ONE)), n, -1
    unsupported("negative slice step")


def require_dim(a, b):
    a, b = canon(a), canon(b)
    if a is b: return
    if not decide(eq(a, b)):
        raise IndexError("boolean index did not match indexed array")


def kind_of_dtype(dt):
    if dt is None: return "f"
    if isinstance(dt, type) and issubclass(dt, str): return "s"
    n = getattr(dt, "__name__", None) or str(dt)
    if n in ("float", "float64", "float32", "double", "f8"): return "f"
    if n in ("int", "int64", "int32", "i8", "intp"): return "i"
    if n in ("bool", "bool_"): return "b"
    if n in ("str", "str_"): return "s"
    if n == "object": return "O"
    return np.dtype(dt).kind.replace("U", "s")


# ---------------------------------------------------------------- coercion
def is_sym(x):
    return isinstance(x, (Sym, MaskIdx))


def any_sym(*xs):
    for x in xs:
        if is_sym(x): return True
        if isinstance(x, (list, tuple)):
            if any_sym(*x): return True
        elif isinstance(x, dict):
            if any_sym(*x.values()): return True
        elif hasattr(x, "_vf_symbolic"): return True
    return False


def coerce(x):
    if isinstance(x, Sym): return x
    if isinstance(x, MaskIdx): return x._sym()
    if isinstance(x, Term): return Sym.scalar(x)
    if isinstance(x, (bool, np.bool_)): return Sym.scalar(lift(bool(x)), kind="b")
    if isinstance(x, (int, np.integer)): return Sym.scalar(lift(int(x)), kind="i")
    if isinstance(x, au.Quantity):
        return _from_array(x.value, x.unit)
    if isinstance(x, (float, np.floating)): return Sym.scalar(lift(float(x)))
    if isinstance(x, str): return Sym.scalar(lift(x), kind="s")
    if isinstance(x, np.ndarray):
        return _from_array(x, None)
    if isinstance(x, (list, tuple)):
        return stack(x)
    if hasattr(x, "_as_sym"): return x._as_sym()
    if isinstance(x, Fr): return Sym.scalar(const(x))
    try:
        import mpmath
        if isinstance(x, mpmath.mpf): return Sym.scalar(lift(float(x)))
    except ImportError:
        pass
    raise TypeError("unsupported operand type %s" % type(x))


def _from_array(a, unit):
    a = np.asarray(a)
    kind = {"f": "f", "i": "i", "u": "i", "b": "b", "U": "s", "S": "s", "O": "f"}[a.dtype.kind]
    if a.ndim == 0:
        return Sym.scalar(lift(a.item()), unit, kind)
    if a.size > 4000: unsupported("large concrete array mixed with symbolic data")
    flat = [lift(v.item() if hasattr(v, "item") else v) for v in a.ravel()]
    if a.ndim == 1:
        return Sym(idx_list(flat), (len(flat),), unit, kind)
    n1 = a.shape[1]
    if a.ndim == 2:
        rows = [idx_list(flat[r * n1:(r + 1) * n1]) for r in range(a.shape[0])]

        def f(idx):
            if idx[0].op == "const": return rows[int(idx[0].val)]((idx[1],))
            r = rows[-1]((idx[1],))
            for k in range(len(rows) - 2, -1, -1):
                r = ite(eq(idx[0], const(k)), rows[k]((idx[1],)), r)
            return r
        return Sym(f, a.shape, unit, kind)
    unsupported("3-d array")


def stack(xs, unit=None):
    xs = [coerce(x) for x in xs]
    if not xs:
        return Sym(lambda idx: ZERO, (0,))
    unit = next((x._unit for x in xs if x._unit is not None), None)
    sh = xs[0]._shape
    for x in xs[1:]:
        if len(x._shape) != len(sh): raise ValueError("setting an array element with a sequence.")
    fs = [x.elem_in(unit) for x in xs]
    kind = "s" if any(x.kind == "s" for x in xs) else ("f" if any(x.kind == "f" for x in xs) else xs[0].kind)
    if sh == ():
        return Sym(idx_list([f(()) for f in fs]), (len(xs),), unit, kind)

    def f(idx):
        rows = [g(idx[1:]) for g in fs]
        return idx_list(rows)((idx[0],))
    return Sym(f, (len(xs),) + sh, unit, kind)


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = ONE
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0: continue
            x = s[k]
            if x is ONE or x is cur: continue
            if cur is ONE: cur = x
            elif cur.op == "const" and x.op == "const":
                raise ValueError("operands could not be broadcast together")
            elif not decide(eq(cur, x)):
                if decide(eq(x, ONE)): continue
                if decide(eq(cur, ONE)): cur = x; continue
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bidx(s, nd):
    """index map from a broadcast shape of rank nd to shape s"""
    k = nd - len(s)
    ones = [x is ONE for x in s]

    def g(idx):
        return tuple(ZERO if o else i for o, i in zip(ones, idx[k:]))
    if k == 0 and not any(ones):
        return lambda idx: idx
    return g


def broadcast_to(v, shape):
    bshape(v._shape, shape)
    g, f = bidx(v._shape, len(shape)), v.box.f
    if len(v._shape) == len(shape) and all(a is b for a, b in zip(v._shape, shape)):
        return f
    # a length-1 target keeps index 0
    return lambda idx: f(g(idx))


def elementwise(f, *xs, unit=None, kind="f"):
    sh = bshape(*[x._shape for x in xs])
    gs = [(bidx(x._shape, len(sh)), x.box.f) for x in xs]
    return Sym(lambda idx: f(*[g(b(idx)) for b, g in gs]), sh, unit, kind)


def numkind(a, b):
    return "i" if a.kind in "ib" and b.kind in "ib" else "f"


def num(x):
    if x.kind == "b": return x.astype(int)
    if x.kind == "s": raise TypeError("ufunc not supported for string type")
    return x


def addlike(a, b, op):
    if isinstance(a, UnitBase) or isinstance(b, UnitBase):
        return NotImplemented
    try:
        a, b = coerce(a), coerce(b)
    except TypeError:
        return NotImplemented
    a, b = num(a), num(b)
    u, a, b = common_unit(a, b)
    return elementwise(op, a, b, unit=u, kind=numkind(a, b))


def _wild(x):
    """0, inf or nan: acceptable with any unit"""
    if x.ndim == 0:
        t = x.term()
        return t is ZERO or t is NAN or t is INF
    v = fresh("w", "int", "nonneg")
    t = x.box.f(tuple([v] * x.ndim))
    return t is ZERO or t is NAN


def common_unit(a, b):
    ua, ub = a._unit, b._unit
    if ua is None and ub is None:
        return None, a, b
    if ua is not None and ub is not None:
        if ua is ub or ua == ub:
            return ua, a, b
        f = b.elem_in(ua)
        return ua, a, Sym(f, b._shape, ua)
    q, p = (a, b) if ua is not None else (b, a)
    if _wild(p):
        return q._unit, a, b
    if q._unit.is_equivalent(au.dimensionless_unscaled):
        if q._unit == au.dimensionless_unscaled:
            return q._unit, a, b
        if ua is not None: a = a.to(au.dimensionless_unscaled)
        else: b = b.to(au.dimensionless_unscaled)
        return au.dimensionless_unscaled, a, b
    raise au.UnitConversionError("Can only apply function to dimensionless quantities when other argument is not a quantity (unless the latter is all zero/infinity/nan).")


def unit_of(x):
    return au.dimensionless_unscaled if x._unit is None else x._unit


def mullike(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(y, UnitBase):
            return Sym(x.box.f, x._shape, y if x._unit is None else x._unit * y, x.kind if x.kind == "f" else "f")
        if isinstance(y, str) and not isinstance(x, str) and isinstance(x, Sym) and x._unit is not None:
            return mullike(x, au.Unit(y))
        if isinstance(y, (list, tuple)) and isinstance(x, Sym) and x._shape == () and x.kind == "i" and x._unit is None:
            from .facades import SymSeq
            if len(y) != 1: unsupported("repetition of a list of several elements a symbolic number of times")
            return SymSeq(x.term(), lambda i, e=y[0]: e)
    try:
        a, b = coerce(a), coerce(b)
    except TypeError:
        return NotImplemented
    if a.kind == "b" and b.kind == "b":
        return elementwise(and_, a, b, kind="b")
    a, b = num(a), num(b)
    u = None if a._unit is None and b._unit is None else unit_of(a) * unit_of(b)
    return elementwise(mul, a, b, unit=u, kind=numkind(a, b))


def divlike(a, b):
    if isinstance(b, UnitBase):
        return Sym(a.box.f, a._shape, (a._unit if a._unit is not None else au.dimensionless_unscaled) / b, "f")
    if isinstance(a, UnitBase):
        a = au.Quantity(1, a)
    try:
        a, b = coerce(a), coerce(b)
    except TypeError:
        return NotImplemented
    a, b = num(a), num(b)
    u = None if a._unit is None and b._unit is None else unit_of(a) / unit_of(b)
    return elementwise(div, a, b, unit=u, kind="f")


def powlike(a, b):
    a, b = num(coerce(a)), num(coerce(b))
    if b._unit is not None:
        b = Sym(b.elem_in(au.dimensionless_unscaled), b._shape)
    if a._unit is not None and not a._unit == au.dimensionless_unscaled:
        if b.ndim == 0 and canon(b.term()).op == "const":
            e = canon(b.term()).val
            return elementwise(lambda x: powc(x, e), a, unit=a._unit ** e)
        raise TypeError("Can only raise something to a dimensionless power")
    return elementwise(lambda x, y: power(x, canon(y)), a, b, unit=a._unit, kind=numkind(a, b))


def cmplike(a, b, op, nm):
    if b is None:
        return False
    try:
        a, b = coerce(a), coerce(b)
    except TypeError:
        return NotImplemented
    if (a.kind == "s") != (b.kind == "s"):
        if nm == "eq":
            return elementwise(lambda x, y: FALSE, a, b, kind="b")
        raise TypeError("comparison not supported")
    if a.kind != "s":
        if nm == "eq" and a.kind == "b" and b.kind == "b":
            return elementwise(iff, a, b, kind="b")
        a, b = num(a), num(b)
        try:
            _, a, b = common_unit(a, b)
        except au.UnitConversionError:
            if nm == "eq":
                return False
            raise
    return elementwise(op, a, b, kind="b")


def boollike(a, b, op):
    a, b = coerce(a), coerce(b)
    if a.kind != "b": a = a.astype(bool)
    if b.kind != "b": b = b.astype(bool)
    return elementwise(op, a, b, kind="b")


# ---------------------------------------------------------------- reductions
def np_reduce(op, x, axis=None):
    x = coerce(x)
    if x.ndim == 0:
        return x
    if x.ndim == 1 or (axis is None and x.ndim == 2 and op == "sum"):
        unit = x._unit
        if x.kind == "b": x = x.astype(int)
        f = x.box.f
        if op == "prod" and unit is not None and unit != au.dimensionless_unscaled:
            unsupported("prod with units")
        if x.ndim == 2:
            n0, n1 = x._shape
            t = sum_(n0, lambda i: sum_(n1, lambda j: f((i, j))))
            return Sym.scalar(t, unit, x.kind)
        n = x._shape[0]
        if op in ("min", "max"):
            if n is ZERO: raise ValueError("zero-size array to reduction operation which has no identity")
            if n.op != "const" and not positive_dim(n):
                if not decide(lt(ZERO, n)):
                    raise ValueError("zero-size array to reduction operation which has no identity")
            v = fresh("i", "int", "nonneg")
            t = f((v,))
            if has_nan(t): unsupported("min/max over possible NaN")
        t = reduce_(op, n, lam(lambda i: f((i,))))
        return Sym.scalar(t, unit, x.kind)
    if x.ndim == 2 and axis in (0, 1, -1, -2):
        f = x.box.f
        if axis in (0, -2):
            return Sym(lambda idx: reduce_(op, x._shape[0], lam(lambda i: f((i, idx[0])))), (x._shape[1],), x._unit, x.kind)
        return Sym(lambda idx: reduce_(op, x._shape[1], lam(lambda i: f((idx[0], i)))), (x._shape[0],), x._unit, x.kind)
    if x.ndim == 2 and op in ("max", "min"):
        f = x.box.f
        n0, n1 = x._shape
        t = reduce_(op, n0, lam(lambda i: reduce_(op, n1, lam(lambda j: f((i, j))))))
        return Sym.scalar(t, x._unit, x.kind)
    unsupported("reduction %s" % op)


def positive_dim(n):
    from .terms import poly_sign
    if poly_sign(nf(n)) == "pos": return True
    from . import prover as P
    return not P.feasible(CUR[0].pc + [not_(lt(ZERO, n))])


def np_mean(x, axis=None):
    x = coerce(x)
    if x.ndim == 0: return x
    s = np_reduce("sum", x, axis)
    n = x._shape[0] if axis in (None, 0) or x.ndim == 1 else x._shape[1]
    if x.ndim == 2 and axis is None: n = mul(*x._shape)
    return s / Sym.scalar(n, kind="i")


def np_any(x, axis=None):
    if axis is not None and coerce(x).ndim > 1: unsupported("any along an axis")
    x = coerce(x)
    if x.kind != "b": x = x.astype(bool)
    if x.ndim == 0: return x
    f = x.box.f
    if x.ndim == 1:
        return Sym.scalar(reduce_("exists", x._shape[0], lam(lambda i: f((i,)))), kind="b")
    return Sym.scalar(reduce_("exists", x._shape[0], lam(lambda i: exists(x._shape[1], lambda j: f((i, j))))), kind="b")


def np_all(x, axis=None):
    if axis is not None and coerce(x).ndim > 1: unsupported("all along an axis")
    x = coerce(x)
    if x.kind != "b": x = x.astype(bool)
    if x.ndim == 0: return x
    f = x.box.f
    if x.ndim == 1:
        return Sym.scalar(reduce_("forall", x._shape[0], lam(lambda i: f((i,)))), kind="b")
    return Sym.scalar(reduce_("forall", x._shape[0], lam(lambda i: forall(x._shape[1], lambda j: f((i, j))))), kind="b")


def np_arg(op, x):
    x = coerce(x)
    if x.ndim != 1: unsupported(op)
    f = x.box.f
    return Sym.scalar(reduce_(op, x._shape[0], lam(lambda i: f((i,)))), kind="i")


def np_abs(x):
    x = coerce(x)
    f = lambda t: t if T.nonneg(t) else ite(lt(t, ZERO), mul(MONE, t), t)
    return elementwise(f, x, unit=x._unit, kind=x.kind)


def np_dot(a, b):
    a, b = coerce(a), coerce(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_reduce("sum", a * b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    fa, fb = a.box.f, b.box.f
    u = None if a._unit is None and b._unit is None else unit_of(a) * unit_of(b)
    if a.ndim == 2 and b.ndim == 1:
        bshape((a._shape[1],), b._shape)
        return Sym(lambda idx: sum_(a._shape[1], lambda j: mul(fa((idx[0], j)), fb((j,)))), (a._shape[0],), u)
    unsupported("dot")


def np_ravel(x):
    x = coerce(x)
    if x.ndim == 1: return x
    if x.ndim == 0:
        t = x.term()
        return Sym(lambda idx: t, (1,), x._unit, x.kind)
    unsupported("ravel")


def np_argsort(x):
    x = coerce(x)
    f = x.box.f
    n = x._shape[0]
    if n is ONE: return Sym(lambda idx: ZERO, (ONE,), None, "i")
    l = canon(lam(lambda i: f((i,))))
    # declared increasing / decreasing inputs have a known sorting permutation
    v = fresh("i", "int", "nonneg")
    b = canon(f((v,)))
    p = nf(b)
    if len(p) == 1:
        (m, c), = p.items()
        arr = [(a, e) for a, e in m if v in fvs(a)]
        if len(arr) == 1 and arr[0][1] == 1 and arr[0][0].op == "app" and "mono" in T.FLAGS.get(arr[0][0].val, ()):
            a = arr[0][0]
            others = {mm: cc for mm, cc in {tuple(x for x in m if x[0] is not a): c}.items()}
            s = poly_sign(others)
            if s == "pos":
                if a.args[-1] is v: return Sym(lambda idx: idx[0], (n,), None, "i")
                if canon(add(a.args[-1], v)) is canon(sub(n, ONE)):
                    return Sym(lambda idx: sub(sub(n, ONE), idx[0]), (n,), None, "i")
    todo, found = [b], []
    while todo:
        t = todo.pop()
        if t.op == "app" and t.val == "argsort" and t.args[2] is v: found.append(t)
        elif t.op != "lam": todo.extend(t.args)
    for a in found:          # an array put in order by its own sorting permutation is in order
        if a.args[0] is n and canon(open_lam(a.args[1], a)) is b: return Sym(lambda idx: idx[0], (n,), None, "i")
    return Sym(lambda idx: app("argsort", (n, l, idx[0]), {"int", "nonneg"}), (n,), None, "i")
