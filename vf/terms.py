"""Hash-consed terms of real / boolean / string sort, with binders, and a ring normaliser.

Reals are mathematical reals (machine rounding is an assumption recorded in the evidence).
Binders use maximal-height naming, so alpha-equivalent lambdas are the same object.
"""
from fractions import Fraction as Fr
import math

_tab = {}
_uid = [0]
FLAGS = {}      # symbol / function name -> set of flags in {'pos','nonneg','int','bool','str','mono'}


class Term:
    __slots__ = ("op", "val", "args", "uid", "h", "sort", "_nf", "_fv", "_can", "_sgn")

    def __repr__(self):
        return show(self)

    # operator sugar for specifications
    def __add__(s, o): return add(s, lift(o))
    __radd__ = lambda s, o: add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    __rsub__ = lambda s, o: sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    __rmul__ = lambda s, o: mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    __rtruediv__ = lambda s, o: div(lift(o), s)
    def __neg__(s): return mul(MONE, s)
    def __pow__(s, o): return power(s, lift(o))
    def __lt__(s, o): return lt(s, lift(o))
    def __le__(s, o): return le(s, lift(o))
    def __gt__(s, o): return lt(lift(o), s)
    def __ge__(s, o): return le(lift(o), s)
    def __bool__(s):
        raise TypeError("symbolic term used as python bool")


def _mk(op, val, args, sort="R"):
    key = (op, val, tuple(id(a) for a in args))
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op, t.val, t.args, t.sort = op, val, tuple(args), sort
    _uid[0] += 1
    t.uid = _uid[0]
    t.h = max([a.h for a in args], default=0) + (1 if op == "lam" else 0)
    t._nf = t._fv = t._can = t._sgn = None
    _tab[key] = t
    return t


def snap(x):
    """python number -> Fraction, snapping floats to the simple rational they print as."""
    if isinstance(x, Fr):
        return x
    if isinstance(x, bool):
        return Fr(int(x))
    if isinstance(x, int):
        return Fr(x)
    x = float(x)
    if x == 0:
        return Fr(0)
    if math.isnan(x) or math.isinf(x):
        raise ValueError("not finite")
    f = Fr(repr(x))
    if len(repr(abs(x)).split("e")[0].replace(".", "").strip("0")) <= 12:
        return f
    # 1/3600 and friends: a rational with small denominator, or inverse of one
    for scale in (1, None):
        g = f if scale else 1 / f
        c = g.limit_denominator(100000)
        if c != 0 and abs(c - g) <= abs(g) * Fr(1, 10 ** 14):
            return c if scale else 1 / c
    return f


def const(x):
    if isinstance(x, float) and math.isnan(x):
        return NAN
    f = snap(x)
    return _mk("const", f, ())


NAN = _mk("nan", None, ())
INF = _mk("inf", None, ())
ONE = const(1)
ZERO = const(0)
MONE = const(-1)
TRUE = _mk("true", None, (), "B")
FALSE = _mk("false", None, (), "B")


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, str):
        return _mk("str", x, (), "S")
    import numpy as np
    if isinstance(x, np.bool_):
        return TRUE if x else FALSE
    if isinstance(x, float) and math.isinf(x):
        return INF if x > 0 else mul(MONE, INF)
    return const(x)


def _sort_of_flags(fl):
    return "B" if "bool" in fl else ("S" if "str" in fl else "R")


def sym(name, *flags):
    if flags or name not in FLAGS:
        FLAGS[name] = set(flags)
    return _mk("sym", name, (), _sort_of_flags(FLAGS[name]))


def app(fname, args, flags=None):
    if flags is not None:
        FLAGS[fname] = set(flags)
    FLAGS.setdefault(fname, set())
    args = tuple(lift(a) for a in args)
    for k, a in enumerate(args):
        if a is NAN:
            return NAN
        if a.op == "ite" and a.sort == "R":
            c, p, q = a.args
            return ite(c, app(fname, args[:k] + (p,) + args[k + 1:]),
                       app(fname, args[:k] + (q,) + args[k + 1:]))
    if fname == "rank" and args[2].op == "app" and args[2].val == "sel" and args[2].args[:2] == args[:2]:
        return args[2].args[2]
    if fname == "int" and nonneg(args[0]): fname = "floor"
    if fname in ("floor", "ceil", "int", "rint"):
        a = args[0]
        if isint(a): return a
        if a.op == "add" and fname != "rint":
            p = [x for x in a.args if isint(x)]
            if p and fname != "int": return add(app(fname, (add(*[x for x in a.args if not isint(x)]),)), *p)
    if fname == "ellippi" and args[0] is ZERO and args[1] is ZERO: return const(math.pi / 2)
    inv = INVERSE.get(fname)
    if inv and args[0].op == "app" and args[0].val == inv:
        if inv != "exp" or True:
            return args[0].args[0]
    if fname in FOLD and all(a.op == "const" for a in args):
        r = FOLD[fname](*[a.val for a in args])
        if r is not None:
            return const(r)
    return _mk("app", fname, args, _sort_of_flags(FLAGS[fname]))


INVERSE = {"pow10": "log10", "exp": "log", "log": "exp", "log10": "pow10"}
FOLD = {
    "exp": lambda x: 1 if x == 0 else None,
    "log": lambda x: 0 if x == 1 else None,
    "log10": lambda x: 0 if x == 1 else None,
    "pow10": lambda x: 1 if x == 0 else None,
    "floor": lambda x: math.floor(x),
    "ceil": lambda x: math.ceil(x),
    "int": lambda x: int(x),
    "rint": lambda x: round(x),
}
FLAGS["count"] = {"int", "nonneg"}
FLAGS["sel"] = {"int", "nonneg"}
FLAGS["rank"] = {"int", "nonneg"}
for _n in ("floor", "ceil", "int", "rint"):
    FLAGS[_n] = {"int"}
FLAGS["exp"] = {"pos"}
FLAGS["pow10"] = {"pos"}

_fresh = [0]


def fresh(base="v", *flags):
    _fresh[0] += 1
    return sym("%s!%d" % (base, _fresh[0]), *flags)


# ---------------------------------------------------------------- binders
def bvar(h):
    return _mk("bvar", h, ())


def mk_lam(v, body):
    h = body.h + 1
    return _mk("lam", None, (subst(body, {v: bvar(h)}),), "L")


def lam(f, base="i"):
    v = fresh(base, "int", "nonneg")
    return mk_lam(v, lift(f(v)))


def open_lam(l, arg):
    return subst(l.args[0], {bvar(l.h): lift(arg)})


def subst(t, m):
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not t.args:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            v = fresh("i", "int", "nonneg")
            m2 = dict(m)
            m2[bvar(t.h)] = v
            b = subst(t.args[0], m2)
            h = b.h + 1
            r = _mk("lam", None, (subst1(b, v, bvar(h)),), "L")
        else:
            new = tuple(go(a) for a in t.args)
            r = t if new == t.args else rebuild(t, new)
        memo[t] = r
        return r
    return go(t)


def subst1(t, v, w):
    """replace symbol v by w; v does not occur under conflicting binders (v is fresh)."""
    memo = {}

    def go(t):
        if t is v:
            return w
        if not t.args:
            return t
        r = memo.get(t)
        if r is None:
            new = tuple(go(a) for a in t.args)
            if new == t.args:
                r = t
            elif t.op == "lam":
                r = _mk("lam", None, new, "L")
            else:
                r = rebuild(t, new)
            memo[t] = r
        return r
    return go(t)


def rebuild(t, args):
    op = t.op
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "pow": return powc(args[0], t.val)
    if op == "powx": return power(*args)
    if op == "app": return app(t.val, args)
    if op == "ite": return ite(*args)
    if op == "lt0": return lt0(args[0])
    if op == "eq0": return eq0(args[0])
    if op == "seq": return eq(*args)
    if op == "and": return and_(*args)
    if op == "or": return or_(*args)
    if op == "not": return not_(args[0])
    if op == "isnan": return isnan(args[0])
    if op == "ind":
        if args[0] is TRUE: return ONE
        if args[0] is FALSE: return ZERO
    if op in ("sum", "prod", "min", "max", "forall", "exists", "argmin", "argmax"):
        return reduce_(op, *args)
    return _mk(op, t.val, args, t.sort)


# ---------------------------------------------------------------- constructors
def _nanlift(f, args):
    """lift ite nodes that carry a NaN branch out of arithmetic"""
    for k, a in enumerate(args):
        if a is NAN:
            return NAN
        if a.op == "ite" and a.sort == "R" and has_nan(a):
            c, p, q = a.args
            return ite(c, f(*args[:k], p, *args[k + 1:]), f(*args[:k], q, *args[k + 1:]))
    return None


_hasnan = {}


def has_nan(t):
    r = _hasnan.get(t)
    if r is None:
        r = t is NAN or (t.op == "ite" and (has_nan(t.args[1]) or has_nan(t.args[2])))
        _hasnan[t] = r
    return r


def isnan(t):
    if t is NAN:
        return TRUE
    if t.op == "ite" and has_nan(t):
        c, p, q = t.args
        return or_(and_(c, isnan(p)), and_(not_(c), isnan(q)))
    return FALSE


def strip_nan(t):
    """the value of t where it is not NaN"""
    if t.op == "ite" and has_nan(t):
        c, p, q = t.args
        if isnan(p) is TRUE: return strip_nan(q)
        if isnan(q) is TRUE: return strip_nan(p)
        return ite(c, strip_nan(p), strip_nan(q))
    return t


def add(*args):
    r = _nanlift(add, args)
    if r is not None:
        return r
    flat, c = [], Fr(0)
    for a in args:
        if a.op == "add":
            for b in a.args:
                if b.op == "const": c += b.val
                else: flat.append(b)
        elif a.op == "const":
            c += a.val
        else:
            flat.append(a)
    if c != 0 or not flat:
        flat.append(const(c))
    if len(flat) == 1:
        return flat[0]
    return _mk("add", None, flat)


def mul(*args):
    r = _nanlift(mul, args)
    if r is not None:
        return r
    flat, c = [], Fr(1)
    for a in args:
        if a.op == "mul":
            for b in a.args:
                if b.op == "const": c *= b.val
                else: flat.append(b)
        elif a.op == "const":
            c *= a.val
        else:
            flat.append(a)
    if c == 0:
        return ZERO
    if c != 1 or not flat:
        flat.insert(0, const(c))
    if len(flat) == 1:
        return flat[0]
    return _mk("mul", None, flat)


def sub(a, b):
    return add(a, mul(MONE, b))


def frpow(c, e):
    """c ** e for Fractions; exact where possible, else float snapped"""
    if e.denominator == 1:
        if c == 0:
            return None if e < 0 else c ** int(e)
        return c ** int(e)
    if c < 0:
        return None
    if c == 0:
        return Fr(0) if e > 0 else None
    if e.denominator == 2:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fr(n, d) ** int(e * 2)
    return Fr(math.exp(float(e) * (math.log(c.numerator) - math.log(c.denominator))))


def powc(b, e):
    e = Fr(e)
    if b is NAN:
        return NAN
    if b.op == "ite":
        return ite(b.args[0], powc(b.args[1], e), powc(b.args[2], e))
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == "const":
        r = frpow(b.val, e)
        if r is not None:
            return const(r)
        if b.val < 0:
            return NAN
    if b.op == "pow" and (e.denominator == 1 and b.val.denominator == 1):
        return powc(b.args[0], b.val * e)
    return _mk("pow", e, (b,))


def isint(t):
    if t.op == "const": return t.val.denominator == 1
    if t.op in ("sym", "app"): return "int" in FLAGS.get(t.val, ())
    if t.op in ("argmin", "argmax", "ind"): return True
    if t.op in ("add", "mul"): return all(isint(x) for x in t.args)
    return False


def power(a, b):
    if b.op == "const" and b.val.denominator <= 4:
        return powc(a, b.val)
    if a is NAN or b is NAN:
        return NAN
    if a is ONE:
        return ONE
    r = _nanlift(power, (a, b))
    if r is not None:
        return r
    if b.op == "add" and poly_sign(nf(a)) == "pos":
        c = next((x for x in b.args if x.op == "const"), None)
        if c is not None and c.val.denominator == 1 and abs(c.val) <= 64:
            return mul(powc(a, c.val), power(a, add(b, const(-c.val))))
    return _mk("powx", None, (a, b))


def div(a, b):
    return mul(a, powc(b, -1))


def sqrt(a):
    return powc(lift(a), Fr(1, 2))


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # same condition nested
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return _mk("ite", None, (c, a, b), a.sort)


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return _mk("not", None, (a,), "B")


def and_(*args):
    out = []
    for a in args:
        a = lift(a)
        if a is FALSE: return FALSE
        if a is TRUE: continue
        for b in (a.args if a.op == "and" else (a,)):
            if b not in out:
                out.append(b)
    for b in out:
        if not_(b) in out:
            return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk("and", None, tuple(sorted(out, key=lambda t: t.uid)), "B")


def or_(*args):
    out = []
    for a in args:
        a = lift(a)
        if a is TRUE: return TRUE
        if a is FALSE: continue
        for b in (a.args if a.op == "or" else (a,)):
            if b not in out:
                out.append(b)
    for b in out:
        if not_(b) in out:
            return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mk("or", None, tuple(sorted(out, key=lambda t: t.uid)), "B")


def implies(a, b):
    return or_(not_(lift(a)), b)


def iff(a, b):
    a, b = lift(a), lift(b)
    if a is b: return TRUE
    return and_(or_(not_(a), b), or_(not_(b), a))


def lt(a, b):
    a, b = lift(a), lift(b)
    for x in (a, b):
        if x is NAN: return FALSE
    if a.op == "ite":
        c, p, q = a.args
        return ite(c, lt(p, b), lt(q, b))
    if b.op == "ite":
        c, p, q = b.args
        return ite(c, lt(a, p), lt(a, q))
    if b is INF:
        return FALSE if a is INF else TRUE
    if a is INF:
        return FALSE
    return lt0(sub(a, b))


def le(a, b):
    a, b = lift(a), lift(b)
    for x in (a, b):
        if x is NAN: return FALSE
    if a.op == "ite":
        c, p, q = a.args
        return ite(c, le(p, b), le(q, b))
    if b.op == "ite":
        c, p, q = b.args
        return ite(c, le(a, p), le(a, q))
    if b is INF:
        return TRUE
    return not_(lt0(sub(b, a)))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE if a.sort != "R" else not_(isnan(a))
    if a is NAN or b is NAN:
        return FALSE
    if a.sort == "B":
        return iff(a, b)
    if a.sort != b.sort:
        return FALSE
    if a.op == "ite":
        c, p, q = a.args
        return ite(c, eq(p, b), eq(q, b))
    if b.op == "ite":
        c, p, q = b.args
        return ite(c, eq(a, p), eq(a, q))
    if a.sort == "S":
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.uid > b.uid:
            a, b = b, a
        return _mk("seq", None, (a, b), "B")
    return eq0(sub(a, b))


def _primitive(p, signed):
    """divide a polynomial by positive content (coefficients and known-positive atoms)"""
    if not p:
        return p
    p = strip_positive(p)
    if not p:            # the terms cancel once the common factors are gone
        return p
    lead = p[min(p, key=_mkey)]
    s = abs(lead) if signed else lead
    return {m: c / s for m, c in p.items()}


def lt0(t):
    """t < 0"""
    p = nf(t)
    s = poly_sign(p)
    if s == "neg": return TRUE
    if s in ("pos", "nonneg", "zero"): return FALSE
    p = _primitive(p, True)
    if not p: return FALSE
    return _mk("lt0", None, (poly_term(p),), "B")


def eq0(t):
    p = nf(t)
    if not p: return TRUE
    s = poly_sign(p)
    if s in ("pos", "neg"): return FALSE
    if s in ("nonneg", "nonpos") and len(p) == 1:
        (m, c), = p.items()
        return or_(*[_mk("eq0", None, (a,), "B") for a, e in m
                     if e > 0 and "pos" != atom_sign(a)])
    p = _primitive(p, False)
    if not p: return TRUE
    return _mk("eq0", None, (poly_term(p),), "B")


def reduce_(op, n, l):
    n = lift(n)
    if op not in ("forall", "exists") and has_nan(l.args[0]):
        # one NaN among the values makes the result NaN
        v = fresh("i", "int", "nonneg")
        b = open_lam(l, v)
        none = reduce_("forall", n, mk_lam(v, not_(isnan(b))))
        return ite(none, ZERO if b is NAN else reduce_(op, n, mk_lam(v, strip_nan(b))), NAN)
    if op == "exists" and n.op != "const":
        b = l.args[0]
        if b is TRUE: return lt(ZERO, n)
        if b is FALSE: return FALSE
        if n.op == "app" and n.val == "count":
            r = _over_selection(op, n, l)
            if r is not None: return r
        return lt(ZERO, app("count", (n, canon(l)), {"int", "nonneg"}))
    if op in ("forall", "exists"):
        b = l.args[0]
        if b is TRUE or b is FALSE:
            if b is (TRUE if op == "forall" else FALSE):
                return b
            if n.op == "const":
                return b if n.val > 0 else not_(b)
            e = le(n, ZERO)
            return e if op == "forall" else not_(e)
    if n.op == "app" and n.val == "count" and op in ("sum", "forall", "exists"):
        r = _over_selection(op, n, l)
        if r is not None:
            return r
    if op in ("min", "max", "argmin", "argmax"):
        r = _pull_scale(op, n, l)
        if r is not None: return r
        if op in ("argmin", "argmax"):
            r = _pull_monotone(op, n, l)
            if r is not None: return r
    if n.op == "const" and n.val <= 12:
        k = int(n.val)
        xs = [open_lam(l, const(i)) for i in range(k)]
        if op == "sum": return add(*xs) if xs else ZERO
        if op == "prod": return mul(*xs) if xs else ONE
        if op == "forall": return and_(*xs)
        if op == "exists": return or_(*xs)
        if op in ("min", "max") and xs:
            r = xs[0]
            for x in xs[1:]:
                r = ite(lt(x, r) if op == "min" else lt(r, x), x, r)
            return r
        if op in ("argmin", "argmax") and xs:
            r, ri = xs[0], ZERO
            for i, x in enumerate(xs[1:], 1):
                c = lt(x, r) if op == "argmin" else lt(r, x)
                r, ri = ite(c, x, r), ite(c, const(i), ri)
            return ri
    return _mk(op, None, (n, l), "B" if op in ("forall", "exists") else "R")


def _pull_scale(op, n, l):
    """max_i c f(i) = c max_i f(i) for a positive c that does not depend on i"""
    v = fresh("i", "int", "nonneg")
    body = open_lam(l, v)
    if body.op not in ("mul", "pow", "add"): return None
    p = nf(body)
    common = None
    for m in p:
        d = {a: e for a, e in m if atom_sign(a) == "pos" and v not in fvs(a)}
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
        if not common: break
    if not p: return None
    k = max(abs(c) for c in p.values())
    if not common and k == 1: return None
    common = common or {}
    q = pmul({tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].uid)): 1 / k}, p)
    r = _mk_reduce(op, n, mk_lam(v, poly_term(q)))
    if op in ("argmin", "argmax"): return r
    return mul(const(k), *[poly_term({((a, e),): Fr(1)}) for a, e in common.items()], r)


def _pull_monotone(op, n, l):
    """argmin_i f(i)**a = argmin_i f(i) for f >= 0 and a > 0 (a < 0 turns it round)"""
    v = fresh("i", "int", "nonneg")
    p = nf(open_lam(l, v))
    if len(p) != 1: return None
    (m, c), = p.items()
    if c <= 0 or len(m) != 1: return None
    (a, e), = m
    if e < 0 or e == 1 or v not in fvs(a): return None
    if not (e.denominator % 2 == 0 or atom_sign(a) in ("pos", "nonneg")): return None
    return reduce_(op, n, mk_lam(v, a))


def _mk_reduce(op, n, l):
    if n.op == "const" and n.val <= 12: return reduce_(op, n, l)
    return _mk(op, None, (n, l), "R")


def _over_selection(op, n, l):
    """reduction over the true positions of a mask: sum_{j<count(N,M)} f(sel(N,M,j)) = sum_{i<N} [M(i)] f(i)"""
    N, M = n.args
    v = fresh("j", "int", "nonneg")
    body = open_lam(l, v)
    if v not in fvs(body):
        return None
    w = fresh("i", "int", "nonneg")
    tgt = _mk("app", "sel", (N, M, v), "R")
    b2 = subst(body, {tgt: w})
    if v in fvs(b2):
        return None
    c = open_lam(M, w)
    if op == "sum": return reduce_("sum", N, mk_lam(w, ite(c, b2, ZERO)))
    if op == "forall": return reduce_("forall", N, mk_lam(w, or_(not_(c), b2)))
    return reduce_("exists", N, mk_lam(w, and_(c, b2)))


def sum_(n, f): return reduce_("sum", n, lam(f))
def prod_(n, f): return reduce_("prod", n, lam(f))
def min_(n, f): return reduce_("min", n, lam(f))
def max_(n, f): return reduce_("max", n, lam(f))
def forall(n, f): return reduce_("forall", n, lam(f))
def exists(n, f): return reduce_("exists", n, lam(f))


# ---------------------------------------------------------------- signs
def atom_sign(a):
    if a._sgn is None:
        a._sgn = _atom_sign(a)
    return a._sgn


def _flags_sign(fl):
    return "pos" if "pos" in fl else ("nonneg" if "nonneg" in fl else "any")


def _atom_sign(a):
    if a.op in ("sym", "app"):
        if a.op == "app" and a.val in ("floor", "int", "rint", "ceil") :
            s = poly_sign(nf(a.args[0]))
            if a.val == "ceil" and s == "pos": return "pos"
            return "nonneg" if s in ("pos", "nonneg", "zero") else "any"
        if a.op == "app" and a.val in ("interp", "rebin"):
            return "any"
        return _flags_sign(FLAGS.get(a.val, ()))
    if a.op == "bvar": return "nonneg"
    if a.op == "ind": return "nonneg"
    if a.op == "inf": return "pos"
    if a.op == "powx": return "pos" if poly_sign(nf(a.args[0])) == "pos" else "any"
    if a.op == "powx":
        return "pos" if poly_sign(nf(a.args[0])) == "pos" else "any"
    if a.op in ("sum", "max", "min", "prod"):
        s = poly_sign(nf(a.args[1].args[0]))
        if s == "pos":
            return "nonneg" if a.op == "sum" and poly_sign(nf(a.args[0])) != "pos" else "pos"
        return s if s == "nonneg" else "any"
    if a.op in ("argmin", "argmax"): return "nonneg"
    if a.op in ("add", "mul", "pow"): return poly_sign(nf(a))
    return "any"


def poly_sign(p):
    if not p: return "zero"
    signs = set()
    strict = False
    for m, c in p.items():
        s = "pos" if c > 0 else "neg"
        st = True
        for a, e in m:
            if e.denominator == 1 and e.numerator % 2 == 0:
                if atom_sign(a) != "pos": st = False
                continue
            q = atom_sign(a)
            if q == "pos": continue
            if q == "nonneg":
                st = False
                continue
            if e.denominator != 1:      # defined roots are nonnegative
                st = False
                continue
            return "any"
        signs.add(s)
        strict = strict or st
    if signs == {"pos"}: return "pos" if strict else "nonneg"
    if signs == {"neg"}: return "neg" if strict else "nonpos"
    return "any"


def nonneg(t): return poly_sign(nf(t)) in ("pos", "nonneg", "zero")


# ---------------------------------------------------------------- polynomial normal form
def _mkey(m):
    return tuple((a.uid, e) for a, e in m)


EPS = Fr(1, 10 ** 11)


_ONE = Fr(1)


def padd(p, q, k=_ONE):
    r = dict(p)
    for m, c in q.items():
        if k is not _ONE: c = c * k
        o = r.get(m)
        if o is None:
            if c != 0: r[m] = c
        else:
            s = o + c
            if s == 0 or abs(s) <= EPS * max(abs(o), abs(c)):
                del r[m]
            else:
                r[m] = s
    return r


def _acc(r, m, c):
    o = r.get(m)
    if o is None:
        if c != 0: r[m] = c
        return
    s = o + c
    if s == 0 or abs(s) <= EPS * max(abs(o), abs(c)): del r[m]
    else: r[m] = s


def mmul(m1, m2):
    if not m1: return m2, None
    if not m2: return m1, None
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2: d[a] = d.get(a, 0) + e
    extra = None
    items = []
    for a, e in d.items():
        if e == 0: continue
        if a.op == "ind":
            if e > 0: e = Fr(1)
        elif a.op == "add" and e.denominator == 1 and e > 0:
            # compound base reached a positive integer exponent: expand
            q = ppow_int(nf(a), int(e))
            extra = q if extra is None else pmul(extra, q)
            continue
        items.append((a, e))
    items.sort(key=lambda ae: ae[0].uid)
    return tuple(items), extra


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, extra = mmul(m1, m2)
            if extra is None: _acc(r, m, c1 * c2)
            else:
                for m3, c3 in pmul({m: c1 * c2}, extra).items(): _acc(r, m3, c3)
    return r


def ppow_int(p, k):
    r = {(): Fr(1)}
    for _ in range(k):
        r = pmul(r, p)
    return r


def strip_positive(p):
    """remove the common factor made of known-positive atoms (for sign-only use)"""
    common = None
    for m in p:
        d = {a: e for a, e in m if atom_sign(a) == "pos"}
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, Fr(0))) for a, e in common.items()} | \
                     {a: min(e, Fr(0)) for a, e in d.items() if a not in common}
        common = {a: e for a, e in common.items() if e != 0}
        # atoms absent from this monomial with positive exponent in common -> exponent 0
        common = {a: e for a, e in common.items() if e < 0 or a in d}
    if not common:
        return p
    inv = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].uid))
    return pmul({inv: Fr(1)}, p)


def content(p, positive_only):
    """greatest common monomial (exponent-wise minimum)"""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            keys = set(common) | set(d)
            common = {a: min(common.get(a, Fr(0)), d.get(a, Fr(0))) for a in keys}
    common = {a: e for a, e in (common or {}).items()
              if e != 0 and a.op != "ind" and (not positive_only or atom_sign(a) in ("pos", "nonneg"))}
    return tuple(sorted(common.items(), key=lambda x: x[0].uid))


def ppow(p, e):
    if not p:
        if e > 0:
            return {}
        return {((_mk("divzero", None, ()), Fr(1)),): Fr(1)}
    if e.denominator == 1 and e > 0 and (len(p) == 1 or e <= 6):
        return ppow_int(p, int(e)) if len(p) > 1 else mono_pow(p, e)
    if len(p) == 1:
        r = mono_pow(p, e)
        if r is not None:
            return r
    cm = content(p, e.denominator != 1)
    if cm:
        inv = tuple((a, -x) for a, x in cm)
        p = pmul({inv: Fr(1)}, p)
        if not p:
            return ppow(p, e)
    lead = p[min(p, key=_mkey)]
    s = lead if e.denominator == 1 else abs(lead)
    q = {m: c / s for m, c in p.items()}
    base = poly_term(q)
    k = frpow(s, e)
    atoms = {base: Fr(e)}
    if base.op == "pow":           # should not happen
        atoms = {base.args[0]: base.val * e}
    r = {tuple(atoms.items()): k}
    if cm:
        r = pmul(r, {tuple((a, x * e) for a, x in cm): Fr(1)})
    return r


def mono_pow(p, e):
    (m, c), = p.items()
    k = frpow(c, e)
    if k is None:
        return None
    items, factors = [], []
    for a, x in m:
        if e.denominator == 1:
            if a.op == "ind":
                if e < 0:
                    return {((_mk("pow", Fr(-1), (a,)), Fr(1)),): Fr(1)} if len(m) == 1 else None
                items.append((a, Fr(1)))
            else:
                items.append((a, x * e))
        else:
            sg = atom_sign(a)
            if a.op == "ind":
                items.append((a, Fr(1))) if e > 0 else items.append((a, e))
            elif sg in ("pos", "nonneg"):
                items.append((a, x * e))
            elif x.denominator != 1 and (x * e).numerator >= 0:
                items.append((a, x * e))
            elif x.denominator == 1 and x.numerator % 2 == 0:
                # a root of an even power is a power of |a|
                y = x * e
                absolute = padd({(): Fr(1)}, ind_poly(lt0(a)), Fr(-2))
                if y.denominator == 1:
                    items.append((a, y))
                    if y.numerator % 2: factors.append(absolute)
                else:
                    factors.append({((poly_term(pmul({((a, Fr(1)),): Fr(1)}, absolute)), y),): Fr(1)})
            else:
                return None
    r = {tuple(items): k}
    for f in factors: r = pmul(r, f)
    # re-normalise integer exponents on compound atoms
    return pmul(r, {(): Fr(1)})


_COEF = {}
_BUCKET = {}


def merge(c):
    """numerical constants closer than 1e-11 (relative) are one constant: machine rounding of literals is not modelled"""
    r = _COEF.get(c)
    if r is not None: return r
    if c.denominator < 10 ** 6 and abs(c.numerator) < 10 ** 6:
        _COEF[c] = c
        return c
    x = abs(float(c))
    if x == 0 or math.isinf(x): return c
    e = math.floor(math.log10(x))
    k = int(round(x / 10.0 ** e * 1e9)) if -300 < e < 300 else None
    if k is None: return c
    sg = 1 if c > 0 else -1
    ac = abs(c)
    for d in (0, -1, 1):
        for o in _BUCKET.get((e, k + d), ()):
            if abs(o - ac) <= EPS * ac:
                _COEF[c] = sg * o
                return sg * o
    _BUCKET.setdefault((e, k), []).append(ac)
    _COEF[c] = c
    return c


def poly_term(p):
    if not p:
        return ZERO
    if any(c.denominator >= 10 ** 6 or abs(c.numerator) >= 10 ** 6 for c in p.values()):
        p = {m: merge(c) for m, c in p.items()}
    ms = []
    for m in sorted(p, key=_mkey):
        fs = [const(p[m])] if p[m] != 1 or not m else []
        for a, e in m:
            fs.append(a if e == 1 else _mk("pow", e, (a,)))
        ms.append(fs[0] if len(fs) == 1 else _mk("mul", None, tuple(fs)))
    if len(ms) == 1:
        t = ms[0]
    else:
        t = _mk("add", None, tuple(ms))
    if t._nf is None:
        t._nf = p
        t._can = t
    return t


def canon(t):
    if t._can is None:
        if t.sort == "R":
            r = poly_term(nf(t))
        elif t.sort == "B":
            r = canon_bool(t)
        elif t.op == "lam":
            b = canon(t.args[0])
            # heights may have changed: re-close
            if b is t.args[0]:
                r = t
            else:
                v = fresh("i", "int", "nonneg")
                b2 = subst1(b, bvar(t.h), v)
                b2 = canon(b2)
                r = _mk("lam", None, (subst1(b2, v, bvar(b2.h + 1)),), "L")
                for _ in range(4):        # the order of factors follows the binder, not the opened variable
                    b3 = canon(r.args[0])
                    if b3 is r.args[0] or b3.h != r.args[0].h: break
                    r = _mk("lam", None, (b3,), "L")
        else:
            r = t if not t.args else _mk(t.op, t.val, tuple(canon(a) for a in t.args), t.sort)
        t._can = r
        r._can = r
    return t._can


def canon_bool(t):
    if t.op in ("and", "or"):
        return (and_ if t.op == "and" else or_)(*[canon(a) for a in t.args])
    if t.op == "not":
        return not_(canon(t.args[0]))
    if t.op in ("lt0", "eq0", "true", "false", "sym"):
        return t
    if t.op in ("forall", "exists"):
        return reduce_(t.op, canon(t.args[0]), canon(t.args[1]))
    if t.args:
        return _mk(t.op, t.val, tuple(canon(a) for a in t.args), "B")
    return t


def ind_poly(c):
    """indicator of a boolean as a polynomial over atomic indicators"""
    c = canon(c)
    if c is TRUE: return {(): Fr(1)}
    if c is FALSE: return {}
    if c.op == "not":
        return padd({(): Fr(1)}, ind_poly(c.args[0]), Fr(-1))
    if c.op == "and":
        r = {(): Fr(1)}
        for a in c.args: r = pmul(r, ind_poly(a))
        return r
    if c.op == "or":
        r = {(): Fr(1)}
        for a in c.args: r = pmul(r, padd({(): Fr(1)}, ind_poly(a), Fr(-1)))
        return padd({(): Fr(1)}, r, Fr(-1))
    return {((_mk("ind", None, (c,)), Fr(1)),): Fr(1)}


def nf(t):
    if t._nf is not None:
        return t._nf
    op = t.op
    if op == "const":
        r = {(): t.val} if t.val != 0 else {}
    elif op == "add":
        r = {}
        for a in t.args: r = padd(r, nf(a))
    elif op == "mul":
        r = {(): Fr(1)}
        for a in sorted(t.args, key=lambda a: len(nf(a))): r = pmul(r, nf(a))
    elif op == "pow":
        r = ppow(nf(t.args[0]), t.val)
    elif op == "ite":
        c, a, b = t.args
        pa, pb = nf(a), nf(b)
        r = padd(pb, pmul(ind_poly(c), padd(pa, pb, Fr(-1))))
    elif op == "sum":
        r = nf_sum(t)
    elif op == "prod":
        r = nf_prod(t)
    elif op == "powx":
        a, b = canon(t.args[0]), canon(t.args[1])
        r = nf_powx(a, b)
    elif op == "ind":
        c = canon(t.args[0])
        r = {((t, Fr(1)),): Fr(1)} if c is t.args[0] and c.op not in ("true", "false", "and", "or", "not") else ind_poly(c)
    else:
        if t.args:
            args = tuple(canon(a) for a in t.args)
            if op == "app": u = app(t.val, args)
            elif op in ("min", "max", "argmin", "argmax"): u = reduce_(op, *args)
            else: u = _mk(op, t.val, args, t.sort)
        else:
            u = t
        if u.op in ("app", "min", "max", "argmin", "argmax", "sym", "bvar", "nan", "inf", "isnan", "divzero") or u.op not in ("const", "add", "mul", "pow", "ite"):
            r = {((u, Fr(1)),): Fr(1)}
            u._nf = r
        else:
            r = nf(u)
    t._nf = r
    return r


def nf_powx(a, b):
    """a**b with symbolic exponent: split off integer constants of b:  a**(b0+k) = a**k * a**b0"""
    p = nf(b)
    k = p.get((), Fr(0))
    if k.denominator == 1 and k != 0:
        rest = {m: c for m, c in p.items() if m}
        b0 = poly_term(rest)
        atom = _mk("powx", None, (a, b0))
        atom._nf = {((atom, Fr(1)),): Fr(1)}
        return pmul({((atom, Fr(1)),): Fr(1)}, ppow(nf(a), k))
    atom = _mk("powx", None, (a, b))
    return {((atom, Fr(1)),): Fr(1)}


def free_of(t, v):
    """v (a symbol) does not occur in t"""
    return v not in fvs(t)


def fvs(t):
    if t._fv is None:
        if t.op in ("sym", "bvar"):
            t._fv = frozenset((t,))
        else:
            s = frozenset()
            for a in t.args: s = s | fvs(a)
            t._fv = s
    return t._fv


def _split_mono(m, v):
    inn, out = [], []
    for a, e in m:
        (out if free_of(a, v) else inn).append((a, e))
    return tuple(inn), tuple(out)


def nf_sum(t):
    n, l = canon(t.args[0]), t.args[1]
    v = fresh("s", "int", "nonneg")
    body = nf(open_lam(l, v))
    r = {}
    for m, c in body.items():
        inn, out = _split_mono(m, v)
        if not inn:
            s = nf(n)
        else:
            it = poly_term({inn: Fr(1)})
            s_t = _mk("sum", None, (n, canon(mk_lam(v, it))))
            if n.op == "const" and n.val <= 12:
                s = nf(reduce_("sum", n, mk_lam(v, it)))
            else:
                s = {((s_t, Fr(1)),): Fr(1)}
                s_t._nf = s
        r = padd(r, pmul({out: c}, s))
    return r


def nf_prod(t):
    n, l = canon(t.args[0]), t.args[1]
    v = fresh("s", "int", "nonneg")
    body = nf(open_lam(l, v))
    if len(body) == 1:
        (m, c), = body.items()
        r = {(): Fr(1)}
        rest = []
        for a, e in m:
            if free_of(a, v):
                atom = _mk("powx", None, (a if e == 1 else _mk("pow", e, (a,)), n))
                r = pmul(r, {((atom, Fr(1)),): Fr(1)})
            else:
                rest.append((a, e))
        if c != 1:
            r = pmul(r, {((_mk("powx", None, (const(c), n)), Fr(1)),): Fr(1)})
        for a, e in rest:
            at = _mk("prod", None, (n, canon(mk_lam(v, a))))
            r = pmul(r, {((at, Fr(1)),): Fr(1)}) if e == 1 else pmul(r, {((at, e),): Fr(1)})
        return r
    at = _mk("prod", None, (n, canon(mk_lam(v, poly_term(body)))))
    return {((at, Fr(1)),): Fr(1)}


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14:
        return "..."
    d = depth + 1
    op = t.op
    if op == "const":
        f = t.val
        return str(f) if f.denominator < 10 ** 4 and abs(f.numerator) < 10 ** 9 else "%.6g" % float(f)
    if op in ("sym", "str"): return str(t.val)
    if op == "bvar": return "b%d" % t.val
    if op == "app": return "%s(%s)" % (t.val, ", ".join(show(a, d) for a in t.args))
    if op == "add": return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if op == "mul": return "*".join(show(a, d) for a in t.args)
    if op == "pow": return "%s^(%s)" % (show(t.args[0], d), t.val)
    if op == "ite": return "if(%s; %s; %s)" % tuple(show(a, d) for a in t.args)
    if op == "lam": return "\\b%d.%s" % (t.h, show(t.args[0], d))
    if op == "lt0": return "(%s < 0)" % show(t.args[0], d)
    if op == "eq0": return "(%s = 0)" % show(t.args[0], d)
    if op == "seq": return "(%s = %s)" % tuple(show(a, d) for a in t.args)
    if op == "ind": return "[%s]" % show(t.args[0], d)
    if not t.args: return op
    return "%s(%s)" % (op, ", ".join(show(a, d) for a in t.args))
