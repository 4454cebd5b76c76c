"""Back ends: the ring normaliser of terms.py, then z3 (and cvc5 as a cross-check)."""
import sys, time
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from .terms import *
from . import terms as T

STATS = {"ring": 0, "z3": 0, "cases": 0, "z3_time": 0.0, "z3_calls": 0, "cvc5": 0,
         "cvc5_time": 0.0, "cvc5_disagree": 0, "feas": 0}
CONFIG = {"timeout_ms": 4000, "feas_ms": 1500, "cvc5": False}
AXIOMS = []          # callables(list of app terms) -> list of bool terms (instantiated lemmas)


class Tr:
    """term -> z3 expression"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.opaque = False
        self.apps = []
        self.strs = {}
        self.names = {}
        self.reds = []

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._t(t)
            self.memo[t] = r
        return r

    def _num(self, f):
        if f.denominator == 1:
            return z3.RealVal(int(f))
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))

    def _t(self, t):
        op = t.op
        if op == "const": return self._num(t.val)
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "str":
            self.strs.setdefault(t.val, len(self.strs))
            return z3.IntVal(1000 + self.strs[t.val])
        if op == "sym":
            fl = T.FLAGS.get(t.val, ())
            nm = t.val
            if "bool" in fl: return z3.Bool(nm)
            if "str" in fl: return z3.Int("S$" + nm)
            x = z3.Int(nm) if "int" in fl else z3.Real(nm)
            x = self.real(x)
            self._sign(x, fl)
            return x
        if op == "bvar":
            x = self.real(z3.Int("bv%d" % t.val))
            self.side.append(x >= 0)
            return x
        if op == "app":
            if any(a.op == "lam" for a in t.args):
                return self._opaque(t)
            self.apps.append(t)
            fl = T.FLAGS.get(t.val, ())
            args = [self.t(a) for a in t.args]
            dom = [a.sort() for a in args]
            ran = z3.BoolSort() if "bool" in fl else (z3.IntSort() if ("int" in fl or "str" in fl) else z3.RealSort())
            f = z3.Function("f$" + t.val, *dom, ran)
            x = f(*args)
            if "bool" in fl or "str" in fl: return x
            x = self.real(x)
            if t.val in ("floor", "int"):
                a = args[0]
                if t.val == "floor" or T.nonneg(t.args[0]):
                    self.side += [x <= a, a < x + 1]
                else:
                    fl_ = self.real(z3.Function("f$floor", *dom, ran)(*args))
                    self.side += [fl_ <= a, a < fl_ + 1, z3.Implies(a >= 0, x == fl_), z3.Implies(a < 0, z3.And(x >= a, x < a + 1))]
                return x
            if t.val == "ceil":
                self.side += [x >= args[0], x < args[0] + 1]
                return x
            if t.val == "rint":
                self.side += [x - args[0] <= z3.RealVal("1/2"), args[0] - x <= z3.RealVal("1/2")]
                return x
            if t.val in ("exp", "pow10"):
                self.exps = getattr(self, "exps", [])
                for v, y in self.exps:
                    if v[0] == t.val: self.side += [z3.Implies(v[1] < args[0], y < x), z3.Implies(args[0] < v[1], x < y)]
                self.exps = self.exps[-5:] + [((t.val, args[0]), x)]
                self.side += [x > 0, z3.Implies(args[0] > 0, x > 1), z3.Implies(args[0] < 0, x < 1)]
                return x
            self._sign(x, fl)
            return x
        if op == "add": return z3.Sum(*[self.t(a) for a in t.args])
        if op == "mul": return z3.Product(*[self.t(a) for a in t.args])
        if op == "pow":
            b = self.t(t.args[0])
            e = t.val
            if e.denominator == 1:
                k = abs(int(e))
                if k > 8: return self._opaque(t)
                p = b
                for _ in range(k - 1): p = p * b
                return p if e > 0 else 1 / p
            if e.denominator in (2, 3, 4):
                r = z3.Real("root%d_%d" % (t.args[0].uid, e.denominator))
                q = r
                for _ in range(e.denominator - 1): q = q * r
                self.side += [r >= 0, z3.Implies(b >= 0, q == b)]
                k = abs(int(e.numerator))
                if k > 8: return self._opaque(t)
                p = r
                for _ in range(k - 1): p = p * r
                return p if e > 0 else 1 / p
            return self._opaque(t)
        if op == "powx":
            b, e = self.t(t.args[0]), self.t(t.args[1])
            x = z3.Function("f$powx", b.sort(), e.sort(), z3.RealSort())(b, e)
            self.side.append(z3.Implies(b > 0, x > 0))
            return x
        if op == "ite": return z3.If(self.t(t.args[0]), self.t(t.args[1]), self.t(t.args[2]))
        if op == "ind": return z3.If(self.t(t.args[0]), z3.RealVal(1), z3.RealVal(0))
        if op == "lt0": return self.t(t.args[0]) < 0
        if op == "eq0": return self.t(t.args[0]) == 0
        if op == "seq": return self.t(t.args[0]) == self.t(t.args[1])
        if op == "not": return z3.Not(self.t(t.args[0]))
        if op == "and": return z3.And(*[self.t(a) for a in t.args])
        if op == "or": return z3.Or(*[self.t(a) for a in t.args])
        if op == "isnan": return z3.BoolVal(False)
        return self._opaque(t)

    def _opaque(self, t):
        self.opaque = True
        c = T.canon(t)
        if c.op in ("min", "max", "argmin", "argmax", "forall") or (c.op == "app" and c.val == "count"):
            if c not in self.reds: self.reds.append(c)
        if t.sort == "B":
            return z3.Bool("opq%d" % c.uid)
        whole = t.op in ("argmin", "argmax") or (c.op == "app" and "int" in T.FLAGS.get(c.val, ()))
        x = z3.Int("opq%d" % c.uid) if whole else z3.Real("opq%d" % c.uid)
        x = self.real(x)
        s = T.atom_sign(c)
        if s == "pos": self.side.append(x > 0)
        elif s == "nonneg": self.side.append(x >= 0)
        if t.op in ("argmin", "argmax"): self.side.append(x < self.t(t.args[0]))
        return x

    def _sign(self, x, fl):
        if "pos" in fl: self.side.append(x > 0)
        elif "nonneg" in fl: self.side.append(x >= 0)


def mono_axioms(apps):
    """strictly increasing arrays: ground instances for every pair of occurrences"""
    by = {}
    for a in apps:
        fl = T.FLAGS.get(a.val, ())
        if "mono" in fl:
            by.setdefault((a.val, a.args[:-1]), []).append(a)
    out = []
    for k, l in by.items():
        l = list(dict.fromkeys(l))[:7]
        for i, a in enumerate(l):
            for b in l[i + 1:]:
                ia, ib = a.args[-1], b.args[-1]
                out.append(iff(lt(ia, ib), lt(a, b)))
                out.append(iff(lt(ib, ia), lt(b, a)))
    return out


AXIOMS.append(mono_axioms)


def reduce_lemmas(tr, bools):
    """bounds and attainment of min/max/argmin/argmax, instances of universally quantified hypotheses, non-empty selections"""
    out = []
    idx = []
    for b in bools:
        for v in fvs(b):
            if v.op == "sym" and "int" in T.FLAGS.get(v.val, ()) and v not in idx: idx.append(v)
    idx = sorted(idx, key=lambda v: v.uid)[-6:]
    for r in tr.reds[:8]:
        if r.op in ("min", "max", "argmin", "argmax"):
            n, l = r.args
            pts = list(idx)
            if r.op.startswith("arg"):
                best = open_lam(l, r)
                out.append(implies(lt(ZERO, n), and_(le(ZERO, r), lt(r, n))))
            else:
                best = r
                w = sym("w$%d" % r.uid, "int", "nonneg")
                out.append(implies(lt(ZERO, n), and_(lt(w, n), eq(open_lam(l, w), r))))
            for k in pts:
                e = open_lam(l, k)
                out.append(implies(lt(k, n), le(best, e) if r.op.endswith("min") else le(e, best)))
        elif r.op == "forall":
            n, l = r.args
            for k in idx: out.append(implies(and_(r, lt(k, n)), open_lam(l, k)))
        elif r.op == "app":
            n, l = r.args
            out.append(le(r, n))
            w = sym("w$%d" % r.uid, "int", "nonneg")
            out.append(iff(lt(ZERO, r), and_(lt(w, n), open_lam(l, w))))
            for k in idx: out.append(implies(and_(lt(k, n), open_lam(l, k)), lt(ZERO, r)))
    return out


def sel_axioms(apps):
    """sel(N,M,j) is a true position of M below N; increasing in j"""
    out = []
    by = {}
    for a in apps:
        if a.val == "sel" and a.args[1].op == "lam":
            pass
    return out


def _solve(bools, ms, want_model=False):
    """satisfiability of a list of boolean terms; returns (res, model, translator)"""
    tr = Tr()
    es = [tr.t(b) for b in bools]
    done = 0
    ax = []
    for f in AXIOMS:
        ax += f(tr.apps)
    ax += reduce_lemmas(tr, bools)
    es += [tr.t(a) for a in ax if a is not TRUE]
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("random_seed", 1)
    s.add(*es)
    s.add(*tr.side)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_time"] += time.time() - t0
    STATS["z3_calls"] += 1
    m = None
    if r == z3.sat and want_model:
        try: m = s.model()
        except z3.Z3Exception: m = None
    if CONFIG["cvc5"] and r == z3.unsat and not want_model == "feas":
        cross_cvc5(s)
    return str(r), m, tr


def cross_cvc5(s):
    import cvc5
    t0 = time.time()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", "4000")
        slv.setOption("nl-ext-tplanes", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n", "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            out = str(c.invoke(slv, sm)) or out
        if "unsat" in out: STATS["cvc5"] += 1
        elif "sat" in out: STATS["cvc5_disagree"] += 1
    except Exception:
        pass
    STATS["cvc5_time"] += time.time() - t0


_feas_memo = {}


def feasible(hyps):
    """False only when the hypotheses are contradictory"""
    hyps = [h for h in hyps if h is not TRUE]
    if any(h is FALSE for h in hyps):
        return False
    key = frozenset(hyps)
    if key in _feas_memo:
        return _feas_memo[key]
    for h in hyps:
        if not_(h) in key:
            _feas_memo[key] = False
            return False
    STATS["feas"] += 1
    r, _, _ = _solve(list(hyps), CONFIG["feas_ms"])
    _feas_memo[key] = (r != "unsat")
    return _feas_memo[key]


def model_of(hyps):
    r, m, tr = _solve([h for h in hyps if h is not TRUE], CONFIG["timeout_ms"], True)
    return m if r == "sat" else None


def eq_substs(hyps):
    """symbol := term from linear equality hypotheses"""
    out = {}
    for h in list(hyps) + squeezed(hyps):
        if h.op == "eq0":
            p = nf(subst(h.args[0], out)) if out else nf(h.args[0])
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("sym",):
                    v = m[0][0]
                    rest = {k: -x / c for k, x in p.items() if k != m}
                    rt = poly_term(rest)
                    if v not in fvs(rt) and ("!" not in v.val or h.val == "squeezed"):
                        out = {k: subst(t, {v: rt}) for k, t in out.items()}
                        out[v] = rt
                        break
    return out


def squeezed(hyps):
    """integers caught between two bounds: q >= 0 and q - 1 < 0 give q = 0; x >= y and y >= x give x = y"""
    ups = [nf(h.args[0]) for h in hyps if h.op == "lt0"]
    out, downs = [], []
    for h in hyps:
        if h.op == "not" and h.args[0].op == "lt0":
            q = nf(h.args[0].args[0])
            if q in downs: out.append(T._mk("eq0", None, (h.args[0].args[0],), "B"))
            downs.append({m: -c for m, c in q.items()})
            for p in ups:
                d = padd(p, q, Fr(-1))
                if len(d) == 1 and d.get(()) == -1 and isint(poly_term(q)):
                    out.append(T._mk("eq0", "squeezed", (poly_term(q),), "B"))
    return out


def literals(hyps):
    m = {}
    todo = list(hyps)
    while todo:
        h = todo.pop()
        if h.op == "and": todo += list(h.args)
        elif h.op == "not":
            m[h.args[0]] = FALSE
            if h.args[0].op == "or": todo += [not_(a) for a in h.args[0].args]
        elif h.op in ("true", "false"): pass
        else: m[h] = TRUE
    return m


def rewrite(t, lits):
    """replace known boolean atoms (also below binders when closed)"""
    return subst(t, lits) if lits else t


def top_inds(t, acc, depth=0):
    """atomic conditions not under a binder"""
    if t.op == "lam": return
    if t.op == "ind" or t.op == "ite":
        c = t.args[0]
        bool_atoms(c, acc)
    for a in t.args:
        top_inds(a, acc)


def bool_atoms(c, acc):
    if c.op in ("and", "or", "not"):
        for a in c.args: bool_atoms(a, acc)
    elif c.op not in ("true", "false"):
        if c not in acc: acc.append(c)
        for a in c.args: top_inds(a, acc)


def denominators(p):
    dens = {}
    for m in p:
        for a, e in m:
            if e < 0:
                dens[a] = max(dens.get(a, Fr(0)), -e)
    return dens


def clear_denominators(p, rounds=4):
    for _ in range(rounds):
        d = denominators(p)
        if not d: return p
        if len(p) > 400: return p
        m = tuple(sorted(d.items(), key=lambda x: x[0].uid))
        p = pmul({m: Fr(1)}, p)
        p = pmul({(): Fr(1)}, p)
    return p


class Result:
    def __init__(self, status, backend, model=None, definitive=False, detail=""):
        self.status, self.backend, self.model = status, backend, model
        self.definitive, self.detail = definitive, detail

    ok = property(lambda s: s.status == "proved")


def prove_eq(a, b, hyps, depth=0):
    """a = b (both real), NaN-aware"""
    if a is b: return Result("proved", "ring")
    if has_nan(a) or has_nan(b):
        na, nb = isnan(a), isnan(b)
        r = None
        if na.op == nb.op and na.op in ("eq0", "lt0"):
            r = prove_eq(na.args[0], nb.args[0], hyps, depth)
            if not r.ok and na.op == "eq0": r = prove_eq(na.args[0], mul(const(-1), nb.args[0]), hyps, depth)
        if r is None or not r.ok: r = prove(iff(na, nb), hyps)
        if not r.ok: return r
        if na is TRUE: return Result("proved", "ring")
        h2 = hyps + [not_(na), not_(nb)]
        a2, b2 = strip_nan(a), strip_nan(b)
        if a2 is not a or b2 is not b: return prove_eq(a2, b2, h2, depth)
        hyps = h2
    lits = literals(hyps)
    es = eq_substs(hyps)
    if es:
        a, b = subst(a, es), subst(b, es)
    if lits:
        a, b = rewrite(canon(a), lits), rewrite(canon(b), lits)
    d = padd(nf(a), nf(b), Fr(-1))
    if not d: return Result("proved", "ring")
    d2 = clear_denominators(d)
    if not d2: return Result("proved", "ring")
    acc = []
    dt = poly_term(d)
    top_inds(dt, acc)
    if acc and depth < 10:
        STATS["cases"] += 1
        c = acc[0]
        backend = "ring"
        for lit in (c, not_(c)):
            h2 = hyps + [lit]
            if not feasible(h2): continue
            r = prove_eq(subst(a, {c: TRUE if lit is c else FALSE}),
                         subst(b, {c: TRUE if lit is c else FALSE}), h2, depth + 1)
            if not r.ok: return r
            if r.backend != "ring": backend = r.backend
        return Result("proved", backend)
    # one more chance: decide each side with z3
    # (p = 0 is stated on the cleared polynomial: denominators are non-zero where defined)
    goal = eq0(poly_term(d2 if len(d2) <= 60 else d))
    return z3_prove(goal, hyps)


def z3_prove(goal, hyps):
    r, m, tr = _solve(list(hyps) + [not_(goal)], CONFIG["timeout_ms"], True)
    if r == "unsat": return Result("proved", "z3")
    if r == "sat":
        return Result("refuted", "z3", m, definitive=not tr.opaque, detail=show(goal)[:1500])
    return Result("unknown", "z3", detail=show(goal)[:1500])


def prove(goal, hyps=()):
    hyps = [h for h in hyps if h is not TRUE]
    r = _prove(goal, hyps)
    if r.ok: STATS["ring" if r.backend == "ring" else "z3"] += 1
    return r


def _prove(goal, hyps):
    if goal is TRUE: return Result("proved", "ring")
    if any(h is FALSE for h in hyps): return Result("proved", "ring")
    lits = literals(hyps)
    goal = rewrite(canon(goal), lits)
    es = eq_substs(hyps)
    if es: goal = canon(subst(goal, es))
    if goal is TRUE: return Result("proved", "ring")
    if goal.op == "and":
        be = "ring"
        for a in goal.args:
            r = _prove(a, hyps)
            if not r.ok: return r
            if r.backend != "ring": be = r.backend
        return Result("proved", be)
    if goal.op == "eq0":
        return prove_eq(goal.args[0], ZERO, hyps)
    if goal.op == "forall":
        n, l = goal.args
        v = fresh("k", "int", "nonneg")
        return _prove(open_lam(l, v), hyps + [lt(v, n)])
    return z3_prove(goal, hyps)
