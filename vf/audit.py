"""Independent audit of the verifier's own algebra: random terms are evaluated numerically (50 digits)
by an evaluator that shares no code with the simplifier, before and after simplification, normalisation
and canonicalisation; and random obligations that the prover accepts are checked on random valuations.

A disagreement means that the verifier could accept a false obligation. Run by `vf.run --selftest`.
"""
import hashlib
import random
from fractions import Fraction as Fr

import mpmath

from . import terms as T
from . import prover as P

mp = mpmath.mp.clone()
mp.dps = 50
TINY = mp.mpf(10) ** -13      # roots of constants are kept to machine precision


class Undefined(Exception):
    """division by zero, root of a negative number, minimum of nothing"""


class NaNValue:
    def __repr__(self): return "nan"


NAN = NaNValue()


def near(a, b):
    return abs(a - b) <= TINY * max(1, abs(a), abs(b))


def same(a, b):
    if a is NAN or b is NAN: return a is b
    if isinstance(a, bool) or isinstance(b, bool): return a is b
    return near(a, b)


class Valuation:
    """values of symbols and of uninterpreted functions, drawn once each"""

    def __init__(self, seed):
        self.seed = seed
        self.fixed = {}

    def draw(self, key, flags):
        if key in self.fixed: return self.fixed[key]
        r = random.Random(hashlib.sha256(("%s|%s" % (self.seed, key)).encode()).digest())
        if "bool" in flags: v = r.random() < .5
        elif "int" in flags: v = mp.mpf(r.choice([0, 1, 2, 3, 4, 5] if "nonneg" in flags else [-3, -2, -1, 0, 1, 2, 3]))
        else:
            v = mp.mpf(r.choice([0, 0, 1, 1, 2, 3, 5, 7, Fr(1, 2), Fr(3, 4), Fr(5, 3)]).__float__()) if r.random() < .8 else mp.mpf(r.uniform(0, 4))
            if "pos" in flags: v = v + mp.mpf(1) / 4 if v == 0 else v
            elif "nonneg" not in flags and r.random() < .5: v = -v
        if "pos" in flags and v == 0: v = mp.mpf(1)
        self.fixed[key] = v
        return v

    # ------------------------------------------------------------ evaluation of terms
    def ev(self, t, env=None):
        env = env or {}
        op, a = t.op, t.args
        e = lambda x: self.ev(x, env)
        if op == "const": return mp.mpf(t.val.numerator) / t.val.denominator
        if op == "nan": return NAN
        if op == "divzero": raise Undefined
        if op == "true": return True
        if op == "false": return False
        if op in ("sym", "bvar"):
            if t in env: return env[t]
            if op == "bvar": raise AssertionError("open binder")
            return self.draw(t.val, T.FLAGS.get(t.val, ()))
        if op == "add": return self.sum([e(x) for x in a])
        if op == "mul": return self.product([e(x) for x in a])
        if op == "pow": return self.power(e(a[0]), t.val)
        if op == "powx": return self.powx(e(a[0]), e(a[1]))
        if op == "ite": return e(a[1]) if e(a[0]) else e(a[2])
        if op == "ind": return mp.mpf(1) if e(a[0]) else mp.mpf(0)
        if op == "lt0":
            v = e(a[0])
            return v is not NAN and v < 0 and not near(v, 0)
        if op == "eq0":
            v = e(a[0])
            return v is not NAN and near(v, 0)
        if op == "not": return not e(a[0])
        if op == "and": return all([e(x) for x in a])
        if op == "or": return any([e(x) for x in a])
        if op == "isnan": return e(a[0]) is NAN
        if op == "app": return self.app(t.val, a, env)
        if op in ("sum", "prod", "min", "max", "argmin", "argmax", "forall", "exists"):
            n = e(a[0])
            body = a[1]
            assert body.op == "lam"
            xs = [self.ev(body.args[0], {**env, T.bvar(body.h): mp.mpf(i)}) for i in range(int(n))]
            return self.reduce(op, xs)
        raise AssertionError("operator %s" % op)

    @staticmethod
    def sum(xs):
        return NAN if any(x is NAN for x in xs) else mp.fsum(xs)

    @staticmethod
    def product(xs):
        if any(x is NAN for x in xs): return NAN
        r = mp.mpf(1)
        for x in xs: r = r * x
        return r

    @staticmethod
    def power(b, q):
        if b is NAN: return NAN
        if near(b, 0):
            if q < 0: raise Undefined
            return mp.mpf(0)
        if q.denominator != 1 and b < 0: raise Undefined
        return mp.power(b, mp.mpf(q.numerator) / q.denominator) if q.denominator != 1 else mp.power(b, int(q))

    @staticmethod
    def powx(b, q):
        if b is NAN or q is NAN: return NAN
        if b <= 0: raise Undefined
        return mp.power(b, q)

    @staticmethod
    def reduce(op, xs):
        if op == "forall": return all(xs)
        if op == "exists": return any(xs)
        if any(x is NAN for x in xs): return NAN
        if op == "sum": return mp.fsum(xs)
        if op == "prod": return Valuation.product(xs)
        if not xs: raise Undefined
        best = 0
        for i, x in enumerate(xs):
            d = x - xs[best]
            if not near(x, xs[best]) and (d < 0 if op in ("min", "argmin") else d > 0): best = i
        return mp.mpf(best) if op.startswith("arg") else xs[best]

    def app(self, f, a, env):
        if f in ("count", "sel", "rank"):
            n, m = self.ev(a[0], env), a[1]
            mask = [self.ev(m.args[0], {**env, T.bvar(m.h): mp.mpf(i)}) for i in range(int(n))]
            where = [i for i, x in enumerate(mask) if x]
            if f == "count": return mp.mpf(len(where))
            k = int(self.ev(a[2], env))
            if f == "sel":
                if not 0 <= k < len(where): raise Undefined
                return mp.mpf(where[k])
            if not (0 <= k < len(mask) and mask[k]): raise Undefined
            return mp.mpf(where.index(k))
        x = [self.ev(y, env) for y in a]
        if any(y is NAN for y in x): return NAN
        if f == "exp": return mp.exp(x[0])
        if f == "pow10": return mp.power(10, x[0])
        if f in ("log", "log10"):
            if x[0] <= 0: raise Undefined
            return mp.log(x[0]) if f == "log" else mp.log10(x[0])
        if f in ("floor", "ceil", "int", "rint"):
            r = mp.nint(x[0])
            y = r if near(r, x[0]) else x[0]
            return {"floor": mp.floor, "ceil": mp.ceil, "rint": mp.nint,
                    "int": lambda v: mp.floor(v) if v >= 0 else mp.ceil(v)}[f](y)
        return self.draw("%s(%s)" % (f, ",".join(mp.nstr(y, 30) for y in x)), T.FLAGS.get(f, ()))


# ---------------------------------------------------------------- random expressions with their meaning
class Expr:
    """a term builder and, separately, its meaning"""

    def __init__(self, build, mean, text):
        self.build, self.mean, self.text = build, mean, text


REALS = [("x", ()), ("y", ()), ("p", ("pos",)), ("q", ("pos",)), ("z", ("nonneg",)), ("k", ("int",)), ("n", ("int", "nonneg"))]
ARRAYS = [("a", ()), ("b", ("pos",)), ("c", ("nonneg",)), ("d", ("int",))]
DIMS = ("N", "M")


def _names():
    for name, fl in REALS + [(d, ("int", "nonneg")) for d in DIMS]: T.sym("au_" + name, *fl)
    for name, fl in ARRAYS: T.FLAGS["au_" + name] = set(fl)
    T.sym("au_t", "bool"); T.sym("au_s", "bool")


def leaf_sym(name):
    s = "au_" + name
    return Expr(lambda e: T.sym(s), lambda v, e: v.draw(s, T.FLAGS[s]), name)


def real(r, depth, bound=()):
    """a random expression of real sort; bound = names of bound indices"""
    if depth <= 0 or r.random() < .12:
        c = r.random()
        if c < .3:
            q = r.choice([Fr(0), Fr(1), Fr(2), Fr(-1), Fr(1, 2), Fr(-3), Fr(5, 3), Fr(4)])
            return Expr(lambda e: T.const(q), lambda v, e: mp.mpf(q.numerator) / q.denominator, str(q))
        if bound and c < .75:
            i = r.choice(bound)
            if r.random() < .75:
                f, fl = r.choice(ARRAYS)
                s = "au_" + f
                return Expr(lambda e: T.app(s, (e[i],)), lambda v, e: v.draw("%s(%s)" % (s, mp.nstr(e[i], 30)), T.FLAGS[s]), "%s[%s]" % (f, i))
            return Expr(lambda e: e[i], lambda v, e: e[i], i)
        return leaf_sym(r.choice(REALS)[0])
    k = r.choice(["add", "add", "sub", "mul", "mul", "div", "sqrt", "square", "ite", "sum", "sum", "min", "max", "exp", "floor", "ceil",
                  "arg", "prod", "count", "nan", "neg"])
    R = lambda d=1: real(r, depth - d, bound)
    if k in ("add", "sub", "mul", "div"):
        a, b = R(), R()
        if k == "div": b = positive(r, depth - 1, bound)
        f = {"add": T.add, "sub": T.sub, "mul": T.mul, "div": T.div}[k]

        def mean(v, e):
            x, y = a.mean(v, e), b.mean(v, e)
            if x is NAN or y is NAN: return NAN
            if k == "div":
                if near(y, 0): raise Undefined
                return x / y
            return x + y if k == "add" else x - y if k == "sub" else x * y
        return Expr(lambda e: f(a.build(e), b.build(e)), mean, "(%s %s %s)" % (a.text, k, b.text))
    if k in ("sqrt", "square", "neg", "exp", "floor", "ceil"):
        a = positive(r, depth - 1, bound) if k == "sqrt" else real(r, min(depth - 1, 1), bound) if k == "exp" else R()
        build = {"sqrt": T.sqrt, "square": lambda t: T.powc(t, 2), "neg": lambda t: T.mul(T.MONE, t), "exp": lambda t: T.app("exp", (t,)),
                 "floor": lambda t: T.app("floor", (t,)), "ceil": lambda t: T.app("ceil", (t,))}[k]

        def mean(v, e):
            x = a.mean(v, e)
            if x is NAN: return NAN
            if k == "sqrt":
                if x < 0 and not near(x, 0): raise Undefined
                return mp.sqrt(abs(x)) if not near(x, 0) else mp.mpf(0)
            if k == "square": return x * x
            if k == "neg": return -x
            if k == "exp": return mp.exp(x)
            y = mp.nint(x) if near(mp.nint(x), x) else x
            return mp.floor(y) if k == "floor" else mp.ceil(y)
        return Expr(lambda e: build(a.build(e)), mean, "%s(%s)" % (k, a.text))
    if k in ("ite", "nan"):
        c, a = boolean(r, depth - 1, bound), R()
        if k == "nan" and r.random() < .5:
            return Expr(lambda e: T.ite(c.build(e), a.build(e), T.NAN), lambda v, e: a.mean(v, e) if c.mean(v, e) else NAN, "(%s if %s else nan)" % (a.text, c.text))
        b = R()
        return Expr(lambda e: T.ite(c.build(e), a.build(e), b.build(e)),
                    lambda v, e: a.mean(v, e) if c.mean(v, e) else b.mean(v, e), "(%s if %s else %s)" % (a.text, c.text, b.text))
    op = {"arg": r.choice(["argmin", "argmax"])}.get(k, k)
    i, dim, nb = over(r, bound)
    if op == "count":
        c = boolean(r, depth - 1, nb)
        return Expr(lambda e: T.sum_(dim.build(e), lambda j: T.ite(c.build({**e, i: j}), T.ONE, T.ZERO)),
                    lambda v, e: mp.mpf(sum(1 for j in range(int(dim.mean(v, e))) if c.mean(v, {**e, i: mp.mpf(j)}))), "#%s<%s. %s" % (i, dim.text, c.text))
    a = real(r, depth - 1, nb)
    return Expr(lambda e: T.reduce_(op, dim.build(e), T.lam(lambda j: a.build({**e, i: j}))),
                lambda v, e: meaning_of(op, [a.mean(v, {**e, i: mp.mpf(j)}) for j in range(int(dim.mean(v, e)))]),
                "%s %s<%s. %s" % (op, i, dim.text, a.text))


def over(r, bound):
    i = "i%d" % len(bound)
    if r.random() < .3:
        n = r.choice([1, 2, 3])
        return i, Expr(lambda e: T.const(n), lambda v, e: mp.mpf(n), str(n)), bound + (i,)
    return i, leaf_sym(r.choice(DIMS)), bound + (i,)


def meaning_of(op, xs):
    if op == "forall": return not any(x is False for x in xs)
    if op == "exists": return any(x is True for x in xs)
    if any(x is NAN for x in xs): return NAN
    if op == "sum": return mp.fsum(xs)
    if op == "prod":
        r = mp.mpf(1)
        for x in xs: r *= x
        return r
    if not xs: raise Undefined
    m = min(xs) if op.endswith("min") else max(xs)
    return mp.mpf(next(i for i, x in enumerate(xs) if near(x, m))) if op.startswith("arg") else m


def positive(r, depth, bound):
    """an expression that is not negative wherever it is defined"""
    k = r.random()
    if depth <= 0 or k < .4:
        if bound and r.random() < .6:
            i = r.choice(bound)
            f = r.choice(["b", "c"])
            s = "au_" + f
            return Expr(lambda e: T.app(s, (e[i],)), lambda v, e: v.draw("%s(%s)" % (s, mp.nstr(e[i], 30)), T.FLAGS[s]), "%s[%s]" % (f, i))
        return leaf_sym(r.choice(["p", "q", "z", "n"]))
    a = positive(r, depth - 1, bound)
    if k < .6:
        b = positive(r, depth - 1, bound)
        f = r.choice([T.add, T.mul])

        def mean(v, e):
            x, y = a.mean(v, e), b.mean(v, e)
            if x is NAN or y is NAN: return NAN
            return x + y if f is T.add else x * y
        return Expr(lambda e: f(a.build(e), b.build(e)), mean, "(%s %s %s)" % (a.text, f.__name__, b.text))
    if k < .8:
        b = real(r, depth - 1, bound)

        def mean(v, e):
            x = b.mean(v, e)
            return NAN if x is NAN else x * x
        return Expr(lambda e: T.powc(b.build(e), 2), mean, "(%s)^2" % b.text)
    i, dim, nb = over(r, bound)
    c = positive(r, depth - 1, nb)
    return Expr(lambda e: T.sum_(dim.build(e), lambda j: c.build({**e, i: j})),
                lambda v, e: meaning_of("sum", [c.mean(v, {**e, i: mp.mpf(j)}) for j in range(int(dim.mean(v, e)))]), "sum %s<%s. %s" % (i, dim.text, c.text))


def boolean(r, depth, bound):
    k = r.choice(["lt", "le", "eq", "lt", "and", "or", "not", "forall", "exists", "sym"])
    if depth <= 0 and k not in ("sym",): k = "lt"
    if k == "sym":
        s = "au_" + r.choice(["t", "s"])
        return Expr(lambda e: T.sym(s), lambda v, e: v.draw(s, {"bool"}), s[3:])
    if k in ("lt", "le", "eq"):
        a, b = real(r, depth - 1, bound), real(r, depth - 1, bound)
        f = {"lt": T.lt, "le": T.le, "eq": T.eq}[k]

        def mean(v, e):
            x, y = a.mean(v, e), b.mean(v, e)
            if x is NAN or y is NAN: return False
            if near(x, y): return k != "lt"
            return x < y if k != "eq" else False
        return Expr(lambda e: f(a.build(e), b.build(e)), mean, "(%s %s %s)" % (a.text, k, b.text))
    if k in ("forall", "exists"):
        i, dim, nb = over(r, bound)
        c = boolean(r, depth - 1, nb)
        return Expr(lambda e: T.reduce_(k, dim.build(e), T.lam(lambda j: c.build({**e, i: j}))),
                    lambda v, e: meaning_of(k, [c.mean(v, {**e, i: mp.mpf(j)}) for j in range(int(dim.mean(v, e)))]), "%s %s<%s. %s" % (k, i, dim.text, c.text))
    a = boolean(r, depth - 1, bound)
    if k == "not": return Expr(lambda e: T.not_(a.build(e)), lambda v, e: not a.mean(v, e), "not %s" % a.text)
    b = boolean(r, depth - 1, bound)
    f = T.and_ if k == "and" else T.or_

    def mean(v, e):
        x, y = a.mean(v, e), b.mean(v, e)
        return (x and y) if k == "and" else (x or y)
    return Expr(lambda e: f(a.build(e), b.build(e)), mean, "(%s %s %s)" % (a.text, k, b.text))


# ---------------------------------------------------------------- the audit
def audit(n=1500, seed=1, valuations=6, verbose=False):
    """returns (checked, skipped, disagreements)"""
    _names()
    bad, checked, skipped = [], 0, 0
    for k in range(n):
        r = random.Random("%s/%d" % (seed, k))
        isreal = r.random() < .7
        x = (real if isreal else boolean)(r, r.choice([2, 3, 3, 4]), ())
        try:
            t = x.build({})
            b, nan = t, None
            if isreal and T.has_nan(t):       # as prove_eq does: whether it is NaN, and what it is otherwise
                nan = T.canon(T.isnan(t))
                b = P.strip_nan(t)
            c = T.canon(b)
            forms = [("built", t), ("canonical", c), ("canonical twice", T.canon(c))]
            if isreal: forms.append(("normal form", T.poly_term(T.nf(b))))
        except (OverflowError, RecursionError, ZeroDivisionError) as ex:
            skipped += 1
            continue
        for j in range(valuations):
            v = Valuation("%s/%d/%d" % (seed, k, j))
            try: want = x.mean(v, {})
            except (Undefined, OverflowError): continue
            for label, f in forms:
                if nan is not None and f is not t:
                    try:
                        if v.ev(nan) is not (want is NAN):
                            bad.append((k, j, "NaN condition", x.text, T.show(nan)[:400], "", str(want)))
                            if verbose: print("DISAGREE", bad[-1])
                            break
                    except Undefined: continue
                    if want is NAN: continue
                try: got = v.ev(f)
                except Undefined: continue      # a rewritten term may be undefined in a place that does not count
                except OverflowError: continue
                checked += 1
                if not same(got, want):
                    bad.append((k, j, label, x.text, T.show(f)[:400], str(got), str(want)))
                    if verbose: print("DISAGREE", bad[-1])
                    break
            else: continue
            break
    return checked, skipped, bad


def audit_prover(n=300, seed=1, valuations=40, verbose=False):
    """goals that the prover accepts hold in every valuation that satisfies the hypotheses"""
    _names()
    bad, proved, refuted, tested = [], 0, 0, 0
    for k in range(n):
        r = random.Random("p%s/%d" % (seed, k))
        hyps = [boolean(r, 2, ()) for _ in range(r.choice([0, 1, 1, 2]))]
        goal = boolean(r, r.choice([2, 3]), ())
        if r.random() < .5:       # make true goals likely: weaken a hypothesis, or an identity
            if hyps and r.random() < .5:
                h, g = r.choice(hyps), goal
                goal = Expr(lambda e: T.or_(h.build(e), g.build(e)), lambda v, e: h.mean(v, e) or g.mean(v, e), "(%s or %s)" % (h.text, g.text))
            else:
                a, b, c = (real(r, 2, ()) for _ in range(3))

                def ident(e):
                    A, B, C = a.build(e), b.build(e), c.build(e)
                    return T.eq(T.mul(A, T.add(B, C)), T.add(T.mul(A, B), T.mul(C, A)))
                goal = Expr(ident, lambda v, e: not any(y.mean(v, e) is NAN for y in (a, b, c)), "distribute")
        try:
            hs = [h.build({}) for h in hyps]
            g = goal.build({})
            ok = P.prove(g, hs).ok
        except (OverflowError, RecursionError, ZeroDivisionError): continue
        proved += ok
        refuted += not ok
        if not ok: continue
        for j in range(valuations):
            v = Valuation("p%s/%d/%d" % (seed, k, j))
            try:
                if not all(h.mean(v, {}) for h in hyps): continue
                want = goal.mean(v, {})
            except (Undefined, OverflowError): continue
            tested += 1
            if not want:
                bad.append((k, j, [h.text for h in hyps], goal.text, T.show(g)[:400]))
                if verbose: print("UNSOUND", bad[-1])
                break
    return proved, tested, bad


if __name__ == "__main__":
    import sys
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 1500
    s = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    c, sk, b = audit(n, s, verbose=True)
    print("terms: %d evaluations, %d skipped, %d disagreements" % (c, sk, len(b)))
    p, t, b2 = audit_prover(n // 5, s, verbose=True)
    print("prover: %d accepted, %d valuations, %d unsound" % (p, t, len(b2)))
