"""C24: wavelength dependent signals carry their units and sizes."""
from ..dsl import contract
from ._common import interp0, rebin_stub, rebinned, REBIN, sampled_around

SG = "exorad.models.signal:"
KINDS = [("exorad.models.signal:Signal", "", ["", "percent"]), ("exorad.models.signal:Sed", "W/(m2 um)", ["W/(m2 um)", "erg/(s cm2 AA)", "uW/(mm2 nm)"]),
         ("exorad.models.signal:Radiance", "W/(m2 um sr)", ["W/(m2 um sr)", "W/(m3 sr)", "erg/(s cm2 nm arcsec2)"]), ("exorad.models.signal:CountsPerSeconds", "ct/s", ["ct/s", "ct/h"]),
         ("exorad.models.noise:Noise", "h(1/2)", ["h(1/2)", "s(1/2)"]), ("exorad.models.signal:CustomSignal", "K", ["K", "mK"])]
WRONG = ["s", "W", "K"]


def make(S, cls, unit, wl, data, *a, **k):
    if cls.endswith(":CustomSignal"): return S.fn(cls)(wl, data, unit, *a, **k)
    return S.fn(cls)(wl, data, *a, **k)


def grid(S, n, kind):
    """wavelengths as handed over, and in um"""
    if kind == "plain":
        wl = S.arr("wl", n, pos=True)
        return wl, wl * S.u.um
    wl = S.arr("wl", n, unit="um" if kind == "column" else kind, pos=True)
    return (S.unit_column(wl) if kind == "column" else wl), wl.to("um")


@contract("C24", [SG + "Signal.__init__", SG + "Signal.check_quantities", SG + "Signal.check_sizes", SG + "CustomSignal.__init__", SG + "Sed", SG + "Radiance", SG + "CountsPerSeconds",
                  "exorad.models.noise:Noise"], samples=120)
def units(S):
    """whatever unit a signal is given in, it holds the same physical values in its own"""
    u = S.u
    cls, unit, given = S.choose("class", KINDS)
    n = S.dim("n", lo=1)
    wl, want_wl = grid(S, n, S.choose("wavelength", ["um", "nm", "plain", "column"]))
    kind = S.choose("data", given + ["plain", "column"])
    if kind == "plain":
        data = S.arr("data", n); want = data * u.Unit(unit)
    else:
        data = S.arr("data", n, unit=given[-1] if kind == "column" else kind); want = data.to(unit)
        if kind == "column": data = S.unit_column(data)
    s = make(S, cls, unit, wl, data)
    S.ensure(s.wl_grid.unit == u.um, "wavelengths are in um"); S.ensure_eq(s.wl_grid, want_wl, "wavelengths")
    S.ensure(s.data.unit == u.Unit(unit), "data is in the unit of the class"); S.ensure_eq(s.data, want, "data")
    S.ensure(s.time_grid.unit == u.hr, "time is in hours")
    S.ensure(s.time_dependent is False or s.time_dependent == False, "not time dependent")
    d = s.to_dict()
    for k, v in (("wl_grid", s.wl_grid), ("data", s.data), ("time_grid", s.time_grid)):
        S.ensure(u.Unit(d[k]["unit"]) == v.unit, "dictionary: unit of " + k); S.ensure_eq(d[k]["value"], v.value, "dictionary: " + k)


@contract("C24", [SG + "Signal.check_quantities"], samples=60)
def wrong_units(S):
    """quantities of another kind are rejected, not reinterpreted"""
    cls, unit, given = S.choose("class", KINDS)
    n = S.dim("n", lo=1)
    what = S.choose("wrong", ["wavelength", "data", "time"])
    wrong = [w for w in ["s", "W", "K"] if not (what == "data" and S.u.Unit(w).is_equivalent(S.u.Unit(unit))) and not (what == "time" and w == "s")]
    bad = S.choose("unit", wrong)
    wl = S.arr("wl", n, unit=bad if what == "wavelength" else "um", pos=True)
    data = S.arr("data", n, unit=bad if what == "data" else unit)
    k = {"time_grid": S.arr("t", S.dim("one", lo=1, hi=1), unit=bad)} if what == "time" else {}
    if S.flag("column"):
        if what == "wavelength": wl = S.unit_column(wl)
        if what == "data": data = S.unit_column(data)
    S.expect_raise("a %s in another physical unit is rejected" % what, make, S, cls, unit, wl, data, exc=S.u.UnitConversionError, **k)


@contract("C24", [SG + "Signal.check_sizes", SG + "Signal.time_dependent"], samples=80)
def sizes(S):
    """data has one value per wavelength (and per time); anything else is rejected"""
    cls, unit, given = S.choose("class", KINDS)
    n, m = S.dim("n", lo=1), S.dim("m", lo=1)
    t = S.dim("t", lo=1)
    shape = S.choose("shape", ["length", "two", "grid", "three", "times"])
    wl = S.arr("wl", n, unit="um", pos=True)
    k = {}
    if shape == "length":
        data, good = S.arr("data", m, unit=unit), S.decide(n == m)
    elif shape == "two":
        data, good = S.arr("data2", n, m, unit=unit), S.decide(m == t)
        k = {"time_grid": S.arr("time", t, unit="s", pos=True)}
    elif shape == "grid":
        wl, data, good = S.arr("wl2", n, m, unit="um", pos=True), S.arr("data", n, unit=unit), False
    elif shape == "three": data, good = S.arr("data3", n, 1, 1, unit=unit), False
    else:
        data, good = S.arr("data", n, unit=unit), S.decide(t == 1)
        k = {"time_grid": S.arr("time", t, unit="s", pos=True)}
    o = S.call(make, S, cls, unit, wl, data, **k)
    if not good:
        S.ensure(isinstance(o.exc, ValueError), "sizes that do not match are rejected"); return
    S.ensure(not o.raised, "matching sizes are accepted")
    s = o.value
    S.ensure_eq(s.data, data, "data"); S.ensure_eq(s.wl_grid, wl, "wavelengths")
    if k:
        S.ensure(s.time_grid.unit == S.u.hr, "time in hours"); S.ensure_eq(s.time_grid, k["time_grid"], "time")


def rebin_holes(S, x, xp, fp):
    """assumed contract of rebin, with bins that no sample falls in (undefined)"""
    x, r = rebin_stub(S, x, xp, fp)
    return x, S.ite(S.arr("empty bin", r.size, kind="b"), S.np.nan * r, r)


@contract("C24", [SG + "Signal.spectral_rebin"], stubs={k: rebin_holes for k in REBIN}, samples=60)
def resampling(S):
    """a signal moves to another wavelength grid as a whole; undefined values become zero; what it was built from is untouched"""
    u = S.u
    cls, unit, given = S.choose("class", KINDS)
    n, m = S.dim("n", lo=2), S.dim("m", lo=1)
    new = S.arr("new", m, unit="um", pos=True, increasing=True, lo=0.5, hi=20)
    wl = sampled_around(S, "wl", n, new)
    if not S.symbolic and S.flag("part of the grid is not sampled"):
        a, b = new.value.min(), new.value.max()
        wl = S.np.linspace(*S.choose("part", [(0.9 * a, a + 0.5 * (b - a)), (a + 0.4 * (b - a), 1.1 * b)]), 300) * u.um
    data = S.arr("data", wl.size, unit=unit, nonneg=True)
    before = S.snapshot([wl, data, new])
    s = make(S, cls, unit, wl, data)
    s.spectral_rebin(new)
    S.ensure_eq(s.wl_grid, new, "the new grid")
    S.ensure(s.data.unit == u.Unit(unit), "the unit is kept")
    r = rebin_holes(S, new, wl, data)[1] if S.symbolic else rebinned(S, new, wl, data)
    S.ensure_eq(s.data, S.ite(S.np.isnan(r), S.np.zeros(m) * u.Unit(unit), r), "resampled data, zero where undefined")
    S.ensure_unchanged([wl, data, new], before, "the inputs")
    S.expect_raise("a grid in another unit is rejected", s.spectral_rebin, new.to("nm"), exc=ValueError)
