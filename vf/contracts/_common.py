"""Spec functions shared by the contracts (they exist in both modes)."""
from collections import OrderedDict
import numpy as np


def interp0(S, xp, fp, x):
    """spec of linear interpolation that is zero outside the sampled range"""
    if S.symbolic:
        from .. import facades as F
        return F.Interp1d(xp, fp, kind="linear", fill_value=0.0, bounds_error=False, assume_sorted=False)(x)
    v = lambda a: np.asarray(getattr(a, "value", a), float)
    o = np.argsort(v(xp), kind="stable")
    xs = v(x)
    return np.interp(xs, v(xp)[o], v(fp)[o], left=0.0, right=0.0)


def named(*kv):
    return OrderedDict(kv)


def rebin_stub(S, x, xp, fp):
    """assumed contract of exolib.rebin towards its callers (its own behaviour is C13): units must agree, a function on its
    own grid is returned unchanged, otherwise the result depends linearly on the samples"""
    from .. import facades as F
    from ..sym import Sym, coerce
    from ..terms import canon
    x, xp, fp = coerce(x), coerce(xp), coerce(fp)
    if x._unit != xp._unit: raise ValueError
    if same_array(x, xp): return x, fp.copy() if fp._unit is not None else fp * S.u.dimensionless_unscaled
    f = F.interp_fn("rebin", xp, fp, x)
    return x, Sym(f, x._shape, fp._unit if fp._unit is not None else S.u.dimensionless_unscaled)


def same_array(a, b):
    from ..sym import coerce
    from ..terms import canon, sym
    a, b = coerce(a), coerce(b)
    if len(a._shape) != len(b._shape) or any(canon(p) is not canon(q) for p, q in zip(a._shape, b._shape)): return False
    if a._unit != b._unit: return False
    v = tuple(sym("same!%d" % i, "int", "nonneg") for i in range(len(a._shape)))
    return canon(a.box.f(v)) is canon(b.box.f(v))


def rebinned(S, x, xp, fp):
    """spec of a resampled array"""
    if S.symbolic: return rebin_stub(S, x, xp, fp)[1]
    from exorad.utils.exolib import rebin
    return rebin(x, xp, fp * S.u.dimensionless_unscaled)[1]


def defined(S, q):
    """resampled values, zero where resampling leaves them undefined"""
    return S.ite(S.np.isnan(q), S.np.zeros(q.size) * q.unit, q)


REBIN = {"exorad.models.signal:rebin": rebin_stub, "exorad.utils.exolib:rebin": rebin_stub}


def sampled_around(S, name, n, wl):
    """an increasing sampling; in concrete runs one that reaches (far) beyond both ends of wl"""
    if S.symbolic: return S.arr(name, n, unit="um", pos=True, increasing=True)
    w = wl.value
    lo, hi = S.choose(name + " reach", [(0.92, 1.08), (0.5, 2.1)])
    return np.linspace(lo * w.min(), hi * w.max(), max(n, 4)) * S.u.um


def length(S, q):
    """the same length, in the unit the description under test is written in (micron unless the contract says otherwise)"""
    U = S.ghost.get("U")
    if U is None: return q
    U = S.u.Unit(U)
    return q.to(U if q.unit.is_equivalent(U) else U ** 2)


def no_rounding(S, q, always=False):
    """concrete runs that convert units: a ratio that is truncated to an integer stays away from the integers (reals, not floats)"""
    if S.symbolic or not (always or "U" in S.ghost): return
    v = np.atleast_1d(q.to("").value if hasattr(q, "to") else q)
    S.assume(bool(np.all(np.abs(v - np.round(v)) > 1e-9)))


def in_any_order(S, pre, x):
    """wavelengths of a table whose rows may be in any order (symbolic arrays are in any order unless declared increasing)"""
    if S.symbolic: return x
    k = S.choose(pre + "order", ["increasing", "decreasing", "mixed"])
    return x if k == "increasing" else x[::-1] if k == "decreasing" else x[S.np.argsort(S.arr(pre + "o", x.size, lo=0, hi=1))]
