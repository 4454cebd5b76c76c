"""Numerical building blocks: C13 resampling, C14 black body, C24 signals, C26 solid angles, C27 point spread functions."""
import math
from ..dsl import contract
from ._common import interp0

EX = "exorad.utils.exolib:"
SIG = "exorad.models.signal:"


def grid_in(S, x, m, name="xp", unit="um"):
    """source sampling; concrete runs: beyond both ends of x, or only a part of it"""
    if S.symbolic: return S.arr(name, m, unit=unit, pos=True, increasing=True)
    np, u = S.np, S.u
    w = x.to(unit).value
    k = S.choose("density", ["similar", "coarse", "fine"])
    cnt = {"similar": m + 2, "coarse": max(4, m // 2), "fine": 40 * len(w) + m}[k]
    lo, hi = S.choose("reach", [(0.93, 1.07), (0.4, 2.0), (1.03, 0.97)])
    g = np.linspace(lo * w.min(), hi * w.max(), cnt) if hi * w.max() > lo * w.min() else np.linspace(0.5 * w.min(), 2 * w.max(), cnt)
    d = S.arr("jit", cnt, lo=-0.3, hi=0.3) * (g[1] - g[0])
    d[0] = d[-1] = 0
    return (g + d) * u.Unit(unit)


def new_grid(S, name="x", least=1):
    n = S.dim("n", lo=least)
    if S.symbolic: return S.arr(name, n, unit="um", pos=True, increasing=True)
    lo, hi = S.real("xlo", lo=0.5, hi=2), S.real("xhi", lo=2.5, hi=8)
    g = S.np.linspace(lo, hi, n)
    if n > 2: g[1:-1] += S.arr("xj", n - 2, lo=-0.3, hi=0.3) * (g[1] - g[0])
    return g * S.u.um


def increasing(S, *grids):
    """steps of increasing grids are positive (the least of them too)"""
    for g in grids:
        if S.decide(g.size > 1): S.assume(S.np.min(S.np.diff(g)) > 0)


def is_finer(S, x, xp):
    """are the steps of the samples around the new grid all shorter than those of the grid?"""
    np = S.np
    near = xp[np.logical_and(xp > 0.9 * np.min(x), xp < 1.1 * np.max(x))]
    if S.decide(x.size < 2) or S.decide(near.size < 2): return False
    return S.decide(np.max(np.diff(near)) < np.min(np.diff(x)))


@contract("C13", [EX + "rebin"], samples=120)
def resampling(S):
    np, u = S.np, S.u
    x = new_grid(S)
    m = S.dim("m", lo=2)
    xp = grid_in(S, x, m)
    unit = S.choose("unit", ["", "W/m2/um"])
    fp = S.arr("fp", xp.size, unit=unit)
    increasing(S, x, xp)
    before = S.snapshot((x, xp, fp))
    X, F = S.fn(EX + "rebin")(x, xp, fp)
    S.ensure_unchanged((x, xp, fp), before, "inputs")
    S.ensure_eq(X, x, "the new grid is returned")
    if is_finer(S, x, xp):
        mid = 0.5 * (x[1:] + x[:-1])
        first, last = x[0] - (mid[0] - x[0]) / 2, x[-1] + (x[-1] - mid[-1]) / 2
        e = np.append(np.insert(mid, [0], first), last)
        n = x.size
        S.ensure(F.size == n, "one value per bin")

        def mean_of(inside):
            cnt = np.sum(S.map(xp.size, lambda i: S.ite(inside[i], 1.0, 0.0)))
            return S.ite(cnt == 0, np.nan, np.sum(fp[inside]).value / cnt) * u.Unit(unit)       # no sample in the bin: no value
        for k in [S.integer("bin", lo=0)] if S.symbolic else range(n):
            if S.symbolic: S.assume(k < n)
            if S.decide(k < n - 1):
                S.ensure_eq(F[k], mean_of(np.logical_and(e[k] <= xp, xp < e[k + 1])), "finer samples are averaged over the bins between mid points")
            else:
                S.ensure_eq(F[k], mean_of(np.logical_and(e[k] <= xp, xp <= e[k + 1])), "samples are averaged over the last bin")
    else:
        S.ensure_eq(F, interp0(S, xp, fp, x) * u.Unit(unit), "coarser samples are interpolated linearly")


@contract("C13", [EX + "rebin"], samples=60)
def resampling_own_grid(S):
    np, u = S.np, S.u
    x = new_grid(S)
    fp = S.arr("fp", x.size, unit="W/m2/um")
    S.full_masks()
    increasing(S, x)
    if S.decide(x.size > 1): S.assume(np.max(np.diff(x)) >= np.min(np.diff(x)))
    X, F = S.fn(EX + "rebin")(x, x.copy(), fp)
    S.ensure_eq(X, x, "grid")
    S.ensure_eq(F, fp, "a function resampled on its own grid is unchanged")


@contract("C13", [EX + "rebin"], samples=60)
def resampling_scales(S):
    np, u = S.np, S.u
    x = new_grid(S)
    xp = grid_in(S, x, S.dim("m", lo=2))
    increasing(S, x, xp)
    fp = S.arr("fp", xp.size, nonneg=True, unit="W/m2/um")
    a = S.real("a", lo=0.1, hi=9)
    rebin = S.fn(EX + "rebin")
    S.ensure_eq(rebin(x, xp, a * fp)[1], a * rebin(x, xp, fp)[1], "resampling is proportional to the samples")


@contract("C13", [EX + "rebin"], samples=60)
def resampling_on_a_decreasing_grid(S):
    np = S.np
    x = new_grid(S, least=2)
    xp = grid_in(S, x, S.dim("m", lo=2))
    fp = S.arr("fp", xp.size, unit="W/m2/um")
    increasing(S, x, xp)
    down = x[::-1]
    S.assume(np.min(np.diff(down)) < 0); S.assume(np.max(np.diff(down)) <= 0)
    rebin = S.fn(EX + "rebin")
    before = S.snapshot((down, xp, fp))
    X, F = rebin(down, xp, fp)
    S.ensure_unchanged((down, xp, fp), before, "inputs")
    S.ensure_eq(X, down, "the new grid is returned in its order")
    S.ensure_eq(F, rebin(x, xp, fp)[1][::-1], "a grid in decreasing order has the values of the increasing one")


@contract("C13", [EX + "rebin"], samples=60)
def resampling_of_samples_in_any_order(S):
    np = S.np
    x = new_grid(S)
    if S.symbolic:
        n = S.dim("m", lo=3)
        xp, fp = S.arr("xp", n, unit="um", pos=True), S.arr("fp", n, unit="W/m2/um")
    else:
        sx = grid_in(S, x, S.dim("m", lo=3))
        order = np.argsort(S.arr("shuffle", sx.size)) if S.flag("shuffled") else np.arange(sx.size)[::-1]
        xp, fp = sx[order], S.arr("fp", sx.size, unit="W/m2/um")[order]
    o = np.argsort(xp)
    increasing(S, x)
    S.assume(np.min(np.diff(xp[o])) > 0)        # no wavelength twice
    S.assume(np.min(np.diff(xp)) < 0)           # and not in order
    before = S.snapshot((x, xp, fp))
    rebin = S.fn(EX + "rebin")
    X, F = rebin(x, xp, fp)
    S.ensure_unchanged((x, xp, fp), before, "inputs")
    S.ensure_eq(X, x, "the new grid is returned")
    S.ensure_eq(F, rebin(x, xp[o], fp[o])[1], "the order of the samples does not matter")


@contract("C13", [EX + "rebin"], samples=20)
def resampling_units(S):
    u = S.u
    x = new_grid(S)
    xp = S.arr("xp", S.dim("m", lo=3), unit=S.choose("other unit", ["nm", "m", "Hz"]), pos=True, increasing=True)
    fp = S.arr("fp", xp.size, unit="W/m2/um")
    S.expect_raise("different wavelength units are rejected", S.fn(EX + "rebin"), x, xp, fp, exc=ValueError)


# ------------------------------------------------------------------ C14: black body
@contract("C14", [EX + "planck"], samples=80)
def black_body(S):
    np, u = S.np, S.u
    wl = S.arr("wl", S.dim("n", lo=1), unit="um", lo=0.3, hi=30)
    T = S.real("T", lo=20, hi=12000, unit="K")
    B = S.fn(EX + "planck")(wl.to(S.choose("unit of the wavelengths", ["um", "nm", "m"])), T.to(S.choose("unit of the temperature", ["K", "mK"])))
    c1, c2 = 1.191042972e8, 14387.768775          # CODATA 2018: 2hc^2, hc/k
    unit = u.W / u.m ** 2 / u.sr / u.um
    S.ensure(B.unit.is_equivalent(unit), "a spectral radiance")
    v, w, t = B.to(unit).value, wl.value, T.value
    if S.symbolic:
        # the code may use its own constants: they must agree with CODATA within 1e-5 (numbers, checked below)
        k1, k2 = planck_constants(S)
        S.ensure_eq(v, k1 / w ** 5 / (np.exp(k2 / (w * t)) - 1.0), "Planck's law")
        S.ensure(abs(k1 / c1 - 1) < 1e-5, "first radiation constant"); S.ensure(abs(k2 / c2 - 1) < 1e-5, "second radiation constant")
    else:
        x = c2 / (w * t)
        ok = x < 600
        S.ensure_eq(v[ok], (c1 / w ** 5 / np.expm1(x))[ok], "Planck's law", rtol=2e-5 * 40)
        S.ensure_all(np.abs(v[ok] / (c1 / w ** 5 / np.expm1(x))[ok] - 1) < 1e-5 * (1 + x[ok]), "Planck's law to five digits")
        S.ensure_all(v[~ok] <= c1 / w[~ok] ** 5 * 1e-250, "vanishing far below the peak")


def planck_constants(S):
    """constants of the code, recovered from the function itself at two points (real interpreter, real function)"""
    import importlib.util, numpy as np
    import astropy.units as u
    f = S.fn(EX + "planck")
    T = 1000.0 * u.K
    unit = u.W / u.m ** 2 / u.sr / u.um
    g = lambda w: float(np.asarray(f(np.array([w]) * u.um, T).to(unit).value)[0])
    # x = k2/(w T): pick two wavelengths, B(w) w^5 = k1/(exp(k2/(w T)) - 1)
    a, b = 5.0, 10.0
    r = (g(b) * b ** 5) / (g(a) * a ** 5)          # (e^{2y}-1)/(e^{y}-1) = e^y + 1, y = k2/(b T)
    y = math.log(r - 1)
    k2 = y * b * 1000.0
    k1 = g(b) * b ** 5 * (math.exp(y) - 1)
    return k1, k2


@contract("C14", [EX + "planck"], samples=60)
def black_body_monotone(S):
    np, u = S.np, S.u
    wl = S.real("wl", lo=0.5, hi=30, unit="um")
    T1, T2 = S.real("T1", lo=100, hi=3000, unit="K"), S.real("T2", lo=3001, hi=12000, unit="K")
    f = S.fn(EX + "planck")
    b1, b2 = f(wl, T1), f(wl, T2)
    S.ensure_all(b1.value > 0, "a warm body shines")
    S.ensure_lt(b1, b2, "a hotter body is brighter at every wavelength")
