"""Path exploration by re-execution: every symbolic branch of the real code is a recorded decision."""
from .terms import *
from . import prover as P


class Unsupported(BaseException):
    pass


class PathDead(BaseException):
    pass


class PathEnd(BaseException):
    """the rest of the path is covered by a loop invariant"""


class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (choice, n_alternatives, label)
        self.alts = []           # prefixes still to explore
        self.pc = []             # path condition (bool terms)
        self.unsup = None
        self.obls = []
        self.assumed = []        # setup assumptions
        self.log = []
        self.choices = {}
        self.ghost = {}
        self.frames = []
        self.loopvars = frozenset()
        self.invariants = {}
        self.inloop = 0
        self.full_masks = False
        self.foralls = []        # (n, i -> bool term): assumed for all 0 <= i < n

    def record(self, choice, others, label):
        for o in others:
            self.alts.append([c for c, _ in self.trace] + [o])
        self.trace.append((choice, label))

    def decide(self, t, label=None):
        t = canon(t)
        if t is TRUE: return True
        if t is FALSE: return False
        t = P.rewrite(t, P.literals(self.pc))
        if t is TRUE: return True
        if t is FALSE: return False
        if self.loopvars and not self.inloop and fvs(t) & self.loopvars:
            unsupported("value of one iteration used after a loop over a symbolic length")
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
            self.trace.append((c, label))
        else:
            ft = P.feasible(self.pc + [t])
            ff = P.feasible(self.pc + [not_(t)])
            if not ft and not ff:
                raise PathDead()
            if ft and ff:
                c = True
                self.record(True, [False], label)
            else:
                c = ft
                self.trace.append((c, label))
        self.pc.append(t if c else not_(t))
        return c

    def choose(self, n, label):
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
            self.trace.append((c, label))
        else:
            c = 0
            self.record(0, list(range(1, n)), label)
        self.choices[label] = c
        return c

    def enter(self, v, n):
        """hypotheses about an arbitrary index v < n; returns the number of them pushed"""
        k = len(self.pc)
        self.pc.append(lt(v, n))
        for m, f in self.foralls:
            t = canon(f(v))
            if m is not n: t = or_(not_(lt(v, m)), t)
            if t is not TRUE: self.pc.append(t)
        return len(self.pc) - k

    def leave(self, v, n0, m0, what):
        """drop the hypotheses of enter(); decisions about v taken meanwhile must have been forced by them"""
        base, hyps, extra = self.pc[:n0], self.pc[n0:n0 + m0], self.pc[n0 + m0:]
        keep = []
        for p in extra:
            if v in fvs(p):
                if P.feasible(base + keep + hyps + [not_(p)]): unsupported("%s: branch on the element (%s)" % (what, show(p)[:160]))
            else: keep.append(p)
        self.pc[:] = base + keep

    def assume(self, t):
        t = canon(lift(t))
        if t is FALSE: raise PathDead()
        if t is not TRUE:
            self.pc.append(t)


CUR = [None]


def ctx():
    return CUR[0]


def unsupported(msg):
    if CUR[0] is not None and CUR[0].unsup is None:
        CUR[0].unsup = msg
        import traceback
        CUR[0].unsup_tb = "".join(traceback.format_stack(limit=10)[:-1])
    raise Unsupported(msg)


def decide(t, label=None):
    return CUR[0].decide(lift(t), label)
