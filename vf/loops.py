"""Loop rule: `for x in seq:` over a sequence of symbolic length whose iterations are independent.

The body is executed once at an arbitrary index v.  It must (checked)
  * write arrays that existed before the loop only at index v, and read them only at index v,
  * carry no local variable, attribute or dictionary entry from one iteration to the next (static check),
  * take no branch that depends on v.
The effect of the whole loop is then, for every written array a and every 0 <= i < n, a[i] := value(v := i); a list that was
empty before the loop and received one append per iteration becomes the sequence of the n appended values.  Anything that does
not fit is reported as unsupported (the contract then falls back to its bounded check); no value that depends on v can be used
after the loop (Ctx.loopvars)."""
import ast
from . import terms as T
from .terms import *
from .ctx import CUR, decide, unsupported

SERIAL = [0]        # creation count of array boxes (sym.Box)


# ------------------------------------------------------------ static part
def _targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def _loads(e):
    if e is None: return set()
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def _assigned(nodes):
    s = set()
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
    return s


def append_of(st):
    """name of the list a statement appends to"""
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
            and st.value.func.attr == "append" and isinstance(st.value.func.value, ast.Name):
        return st.value.func.value.id
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and isinstance(st.value, ast.List) \
            and len(st.value.elts) == 1:
        return st.target.id
    return None


def sum_of(st):
    """(name, added expression) of a statement that only adds to a variable"""
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and append_of(st) is None:
        return st.target.id, st.value
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add):
        t, l, r = st.targets[0].id, st.value.left, st.value.right
        if isinstance(l, ast.Name) and l.id == t: return t, r
        if isinstance(r, ast.Name) and r.id == t: return t, l
    return None


def accumulators(node):
    """{statement: name} of the running sums of a loop: added to by one statement of the body, and not otherwise mentioned there"""
    out = {}
    for st in node.body:
        a = sum_of(st)
        if a is None: continue
        nm = a[0]
        if nm in _loads(a[1]) or nm in _targets(node.target): continue
        rest = [n for b in node.body if b is not st for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == nm]
        if not rest: out[st] = nm
    return out


def analyse(node, sums=()):
    """(problem or None, appended lists, names whose elements are stored)"""
    problems, lists, bases = [], set(), set()
    assigned = _assigned(b for b in node.body if b not in sums)
    for st in node.body:
        nm = append_of(st)
        if nm: lists.add(nm)

    def seq(stmts, defd):
        for st in stmts:
            defd = one(st, defd)
        return defd

    def use(names, defd, st):
        for n in names:
            if n in assigned and n not in defd and n not in lists:
                problems.append("variable %r carried between iterations" % n)
            if n in lists and append_of(st) != n:
                problems.append("list %r read while it is filled" % n)

    def one(st, defd):
        if st in sums:
            use(_loads(sum_of(st)[1]), defd, st)
            return defd
        if isinstance(st, ast.AugAssign):
            nm = append_of(st)
            use(_loads(st.value), defd, st)
            if nm: return defd
            if isinstance(st.target, ast.Name):
                use({st.target.id}, defd, st)
                return defd | {st.target.id}
            if isinstance(st.target, ast.Attribute):
                problems.append("attribute updated in the loop"); return defd
            use(_loads(st.target), defd, st)
            b = st.target.value
            if isinstance(b, ast.Name): bases.add(b.id)
            return defd
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            use(_loads(st.value), defd, st)
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                for n in ast.walk(t):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): problems.append("attribute assigned in the loop")
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                        use(_loads(n), defd, st)
                        if isinstance(n.value, ast.Name): bases.add(n.value.id)
                defd = defd | _targets(t)
            return defd
        if isinstance(st, ast.Expr):
            use(_loads(st.value) - ({append_of(st)} if append_of(st) else set()), defd, st)
            return defd
        if isinstance(st, ast.If):
            use(_loads(st.test), defd, st)
            return seq(st.body, defd) & seq(st.orelse, defd)
        if isinstance(st, (ast.Pass, ast.Assert)):
            return defd
        if isinstance(st, ast.For):
            use(_loads(st.iter), defd, st)
            seq(st.body, defd | _targets(st.target))
            return defd
        if isinstance(st, ast.With):
            problems.append("with statement in the loop"); return defd
        problems.append("%s statement in the loop" % type(st).__name__)
        return defd
    seq(node.body, _targets(node.target))
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom, ast.Try, ast.While, ast.Global, ast.Nonlocal)):
                problems.append("%s in the loop" % type(n).__name__)
    if node.orelse: problems.append("else clause on the loop")
    return (problems[0] if problems else None), sorted(lists), sorted(bases)


def rewrite_for(node, d):
    sums = accumulators(node)
    prob, lists, bases = analyse(node, sums)
    d.nloop += 1
    tok = "__vf_loop%d" % d.nloop
    call = lambda m, *a: ast.Call(ast.Attribute(ast.Name(tok, ast.Load()), m, ast.Load()), list(a), [])
    if prob is None:
        node.body = [ast.copy_location(ast.If(ast.Attribute(ast.Name(tok, ast.Load()), "on", ast.Load()),
                                              [ast.Expr(call("put", ast.Constant(sums[st]), sum_of(st)[1], ast.Constant(isinstance(st, ast.AugAssign))))], [st]), st)
                     if st in sums else st for st in node.body]

    def thunk(n):
        return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), ast.Name(n, ast.Load()))
    lst = lambda ns: ast.List([ast.Tuple([ast.Constant(n), thunk(n)], ast.Load()) for n in ns], ast.Load())
    # list() of a for over a plain python iterable is untouched: the token hands the iterable back
    mk = ast.Assign([ast.Name(tok, ast.Store())],
                    ast.Call(ast.Name("__vf_loop__", ast.Load()), [node.iter, ast.Constant(prob), lst(lists), lst(bases)], []))
    node.iter = ast.Attribute(ast.Name(tok, ast.Load()), "it", ast.Load())
    post = []
    for n in lists:
        post.append(ast.If(ast.Attribute(ast.Name(tok, ast.Load()), "on", ast.Load()),
                           [ast.Assign([ast.Name(n, ast.Store())],
                                       ast.Call(ast.Attribute(ast.Name(tok, ast.Load()), "filled", ast.Load()),
                                                [ast.Constant(n), ast.Name(n, ast.Load())], []))], []))
    for n in sums.values() if prob is None else ():
        post.append(ast.If(ast.Attribute(ast.Name(tok, ast.Load()), "on", ast.Load()),
                           [ast.Assign([ast.Name(n, ast.Store())], call("total", ast.Constant(n), ast.Name(n, ast.Load())))], []))
    return [ast.copy_location(s, node) for s in [mk, node] + post]


# ------------------------------------------------------------ dynamic part
class Frame:
    def __init__(self, v, n):
        self.v, self.n = v, n
        self.old = {}
        self.serial = SERIAL[0]

    def touch(self, box):
        if id(box) not in self.old: self.old[id(box)] = (box, box._f)


class Loop:
    def __init__(self, it, problem, lists, bases):
        from . import facades as F
        self.on = False
        self.it = it
        seq = F.as_seq(it)
        if seq is None: return
        if problem: unsupported("loop over a symbolic length: " + problem)
        self.seq = seq
        self.lists, self.bases = lists, bases
        self.it = self.run()

    def run(self):
        from .sym import Sym, Box, memo1
        c = CUR[0]
        n = self.seq.n
        for nm, th in self.bases:
            if not isinstance(th(), Sym): unsupported("loop over a symbolic length stores into %r, not an array" % nm)
        if not decide(lt(ZERO, n)): return
        self.on = True
        self.sums = {}
        self.before = {}
        for nm, th in self.lists:
            try: o = th()
            except NameError: o = None
            if not isinstance(o, list) or o: unsupported("loop over a symbolic length extends a list that is not empty")
            self.before[nm] = o
        self.v = v = fresh("loop", "int", "nonneg")
        fr = Frame(v, n)
        npc = len(c.pc)
        m0 = c.enter(v, n)
        # the arrays the body writes: rows other than v are unknown while the body runs
        self.poison = fresh("carried")
        self.orig = {}
        for nm, th in self.bases:
            box = th().box
            if type(box) is not Box: unsupported("loop over a symbolic length writes through a view")
            if id(box) in self.orig: continue
            self.orig[id(box)] = (box, box._f)
            box._f = memo1(lambda idx, old=box._f: ite(eq(idx[0], v), old(idx), app("carried", (self.poison,) + idx)))
        c.frames.append(fr)
        c.loopvars = c.loopvars | {v, self.poison}
        c.inloop += 1
        done = False
        try:
            yield self.seq.elem(v)
            done = True
        finally:
            c.frames.remove(fr)
            c.inloop -= 1
            if not done and c.unsup is None:
                c.unsup = "exception or early exit inside a loop over a symbolic length"
        c.leave(v, npc, m0, "loop over a symbolic length")
        for k, (b, _) in fr.old.items():
            if k not in self.orig and b.serial <= fr.serial: unsupported("array written in a loop over a symbolic length through an expression")
        for b, oldf in self.orig.values():
            self.generalise(b, oldf, v, n)

    def generalise(self, box, oldf, v, n):
        from .sym import memo1
        rank = box.rank
        if not rank: unsupported("scalar or unknown array accumulated in a loop over a symbolic length")
        newf = box._f
        rest = tuple(fresh("j", "int", "nonneg") for _ in range(rank - 1))
        j = fresh("j", "int", "nonneg")
        t = subst(newf((j,) + rest), {eq(j, v): FALSE, eq(v, j): FALSE})
        if t is not app("carried", (self.poison, j) + rest): unsupported("array written at another index than the loop index")
        if self.poison in fvs(newf((v,) + rest)): unsupported("loop reads elements written by other iterations")

        def f(idx):
            i = idx[0]
            return ite(and_(le(ZERO, i), lt(i, n)), subst(newf((v,) + idx[1:]), {v: i}), oldf(idx))
        box._f = memo1(f)

    def put(self, nm, e, inplace):
        from .sym import coerce
        self.sums[nm] = (coerce(e).copy(), inplace)

    def total(self, nm, cur):
        """cur + the sum over the whole sequence of what the body adds at index v"""
        from .sym import Sym, coerce
        e, inplace = self.sums[nm]
        f, v, n, u = e.box.f, self.v, self.seq.n, e._unit
        if e.kind == "s": unsupported("texts joined in a loop over a symbolic length")
        if any(v in fvs(d) for d in e._shape): unsupported("sum of arrays of different sizes")
        s = Sym(lambda idx: sum_(n, lambda i: subst(f(idx), {v: i})), e._shape, u, "i" if e.kind == "b" else e.kind)
        if isinstance(cur, (list, tuple, str)): unsupported("sequences joined in a loop over a symbolic length")
        if isinstance(cur, Sym) and inplace:
            cur += s
            return cur
        return coerce(cur) + s

    def filled(self, nm, cur):
        from . import facades as F
        if cur is not self.before[nm] or len(cur) != 1: unsupported("list extended irregularly in a loop over a symbolic length")
        e, v = cur[0], self.v
        return F.SymSeq(self.seq.n, lambda i: F.inst(e, v, i))


def loop(it, problem, lists, bases):
    return Loop(it, problem, lists, bases)


# ------------------------------------------------------------ while loops under a contract's invariant
def while_problem(node):
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Try, ast.While, ast.For, ast.With, ast.Global,
                              ast.Nonlocal, ast.FunctionDef, ast.Delete, ast.NamedExpr)):
                return type(n).__name__ + " in the loop"
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store): return "element or attribute assigned in the loop"
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and append_of(n) is None:
                f = n.value.func
                if not (isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error")): return "call for its effect in the loop"
    if node.orelse: return "else clause on the loop"
    return None


def rewrite_while(node, d):
    if while_problem(node): return node
    names = sorted(_assigned(node.body) | {append_of(n) for b in node.body for n in ast.walk(b) if append_of(n)})
    key = ".".join(d.scope)
    d.nwhile[key] = d.nwhile.get(key, 0) + 1
    d.nloop += 1
    tok = "__vf_while%d" % d.nloop
    L, N = ast.Load(), ast.Name

    def thunk(n):
        return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), N(n, L))
    lst = ast.List([ast.Tuple([ast.Constant(n), thunk(n)], L) for n in names], L)
    call = lambda m, *a: ast.Call(ast.Attribute(N(tok, L), m, L), list(a), [])
    mk = ast.Assign([N(tok, ast.Store())], ast.Call(N("__vf_while__", L), [ast.Constant("%s#%d" % (key, d.nwhile[key])), lst], []))
    take = [ast.If(call("has", ast.Constant(n)), [ast.Assign([N(n, ast.Store())], call("get", ast.Constant(n)))], []) for n in names]
    import copy
    once = ast.If(copy.deepcopy(node.test), copy.deepcopy(node.body) + [ast.Expr(call("back", lst))], [])
    out = [mk, ast.If(ast.Attribute(N(tok, L), "on", L), take + [once], [node])]
    return [ast.copy_location(s, node) for s in out]


class While:
    """`while` under an invariant given by the contract (S.invariant): the invariant is an obligation before the loop; the loop
    variables are then replaced by arbitrary values that satisfy it; one path runs the body once from there, must establish the
    invariant again (obligation) and ends; the other leaves the loop with the condition false.  Partial correctness."""

    def __init__(self, key, names):
        self.on = False
        inv = getattr(CUR[0], "invariants", {}).get(key)
        if inv is None: return
        self.on = True
        self.S, (self.fresh, self.holds) = inv
        self.old = self.values(names)
        self.holds(self.S, self.old, Claim(self.S, False))
        self.new = self.fresh(self.S, self.old)
        for n in self.old:
            if n not in self.new: unsupported("loop variable %r is not covered by the invariant" % n)
        self.holds(self.S, self.new, Claim(self.S, True))

    def values(self, names):
        r = {}
        for n, th in names:
            try: r[n] = th()
            except NameError: pass
        return r

    def has(self, n): return n in self.old
    def get(self, n): return self.new[n]

    def back(self, names):
        from .ctx import PathEnd
        self.holds(self.S, self.values(names), Claim(self.S, False))
        raise PathEnd()


class Claim:
    """assumes (given) or demands an invariant"""

    def __init__(self, S, given): self.S, self.given = S, given

    def __call__(self, cond, label):
        if self.given: self.S.assume(cond)
        else: self.S.ensure(cond, "loop invariant: " + label)

    def eq(self, a, b, label):
        if self.given: self.S.assume(a == b)
        else: self.S.ensure_eq(a, b, "loop invariant: " + label)

    def all(self, n, f, label):
        if self.given: self.S.assume_all(n, f)
        else: self.S.ensure_forall(n, f, "loop invariant: " + label, split=True)


def while_(key, names):
    return While(key, names)
