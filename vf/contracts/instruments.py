"""Channels: C11 star signal, C12 spectral bins, C29 extraction windows, C30 quantum efficiency."""
import copy
from collections import OrderedDict
from ..dsl import contract
from ._common import in_any_order, length, interp0, rebinned, defined, REBIN, sampled_around
from .optics import bin_mean, channel, photons, bins, I

PH = "exorad.models.instruments.photometer:"
SP = "exorad.models.instruments.spectrometer:"
SIG = "exorad.models.signal:"


class Obj:
    pass


def band(S):
    u = S.u
    return S.real("wl_min", lo=0.6, hi=2.5, unit="um"), S.real("wl_max", lo=3, hi=7, unit="um")


def as_built(S, name, grid, v):
    return {"wl_grid": {"value": grid.value, "unit": "um"}, "data": {"value": v, "unit": ""}}


def star_target(S, sky):
    """a target with an arbitrary stellar spectrum, and an arbitrary foreground transmission when sky"""
    u = S.u
    n = S.dim("N", lo=5)
    wl = S.arr("wl", n, unit="um", pos=True, increasing=True) if S.symbolic else S.np.linspace(0.5, 7.5, max(n, 12)) * u.um
    n = wl.size
    sed = S.arr("sed", n, nonneg=True, unit="W / (m2 um)")
    t = Obj()
    t.star = Obj()
    t.star.sed = S.fn(SIG + "Sed")(wl, sed)
    tau = None
    if sky:
        m = S.dim("M", lo=5)
        swl = sampled_around(S, "sky_wl", m, wl)
        stau = S.arr("sky_tr", swl.size, lo=0, hi=1)
        t.skyTransmission = S.fn(SIG + "Signal")(swl, stau)
        tau = (swl, stau)
    return t, wl, sed, tau


def star_channel(S, cls, wl):
    """a built channel: efficiencies on their own grids"""
    u = S.u
    force = S.choose("edges", ["absent", False, True])
    lo, hi = band(S)
    if not S.symbolic and "U" not in S.ghost and S.flag("band limits on samples of the spectrum"): lo, hi = wl[1], wl[-2]
    desc = {"wl_min": {"value": length(S, lo)}, "wl_max": {"value": length(S, hi)}}
    optics = {"Atel": {"value": length(S, S.real("Atel", lo=0.1, hi=10, unit="m2"))}}
    if force != "absent": optics["ForceChannelWlEdge"] = {"value": force}
    c = channel(S, {"optics": optics}, desc, cls)
    g1, g2 = S.dim("G1", lo=6), S.dim("G2", lo=6)
    qwl, twl = sampled_around(S, "qe_wl", g1, wl), sampled_around(S, "tr_wl", g2, wl)
    qe, tr = S.arr("qe", qwl.size, lo=0, hi=1), S.arr("tr", twl.size, lo=0, hi=1)
    c.built_instr = {"qe_data": as_built(S, "qe", qwl, qe), "transmission_data": as_built(S, "tr", twl, tr)}
    return c, desc, optics, force is True, (qwl, qe), (twl, tr), lo, hi


def efficiencies(S, wl, q, t, tau, force, lo, hi):
    """(quantum efficiency, transmission, inside the band) on the wavelength grid of the star"""
    d = S.u.dimensionless_unscaled
    Q = defined(S, rebinned(S, wl, q[0], q[1] * d))
    T = defined(S, rebinned(S, wl, t[0], t[1] * d))
    if tau is not None: T = T * defined(S, rebinned(S, wl, tau[0], tau[1] * d))
    w = S.np.ones(wl.size)
    if force:
        out = S.np.logical_or(wl < lo, wl > hi)
        T, w = S.ite(out, 0.0 * T.value, T.value), S.ite(out, 0.0 * w, w)
    return Q, T, w


@contract("C11", [PH + "Photometer.propagate_target", I + "Instrument._get_efficiency", I + "Instrument._get_sky_transmission",
                  I + "Instrument._force_channel_wl_edge"], stubs=dict(REBIN), samples=60)
def photometer_star_signal(S):
    u = S.u
    t, wl, sed, tau = star_target(S, S.flag("sky"))
    c, desc, optics, force, q, tr, lo, hi = star_channel(S, "Photometer", wl)
    c.table["chName"] = ["Ch"]
    mid = (0.5 * (lo + hi)).value
    c.table["Wavelength"] = [mid] * u.um
    c.table["LeftBinEdge"], c.table["RightBinEdge"] = [lo.value] * u.um, [hi.value] * u.um
    ap = S.choose("aperture", ["correction", "EnE", "none", "both"])
    f = 1.0
    desc["aperture"] = {"radius": {"value": S.real("radius", lo=0.5, hi=5)}}
    if ap in ("EnE", "both"): desc["aperture"]["EnE"] = {"value": S.real("EnE", lo=0.5, hi=1)}
    if ap in ("correction", "both"): desc["aperture"]["apertureCorrection"] = {"value": S.real("corr", lo=0.5, hi=1)}
    if ap in ("correction", "both"): f = desc["aperture"]["apertureCorrection"]["value"]
    elif ap == "EnE": f = desc["aperture"]["EnE"]["value"]
    c.built_instr["PRF"] = S.arr("prf", S.dim("PX", lo=2), S.dim("PY", lo=2), lo=0, hi=1)
    before = S.snapshot((t.star.sed.wl_grid, t.star.sed.data, tau and (t.skyTransmission.wl_grid, t.skyTransmission.data)))
    b_built, b_table = S.snapshot(c.built_instr), S.snapshot(c.table)
    out = c.propagate_target(t)
    Q, T, w = efficiencies(S, wl, q, tr, tau, force, lo, hi)
    flux = S.np.trapz(w * sed, x=wl)
    S.ensure_eq(out["starFlux"], flux * S.np.ones(1), "stellar flux in the band")
    rate = optics["Atel"]["value"] * S.np.trapz(sed * Q * T * photons(S, wl), x=wl)
    S.ensure_eq(out["starSignal"], rate * S.np.ones(1), "star signal is collecting area x photon rate x efficiencies")
    S.ensure_eq(out["star_signal_inAperture"], rate * f * S.np.ones(1), "aperture factor (%s)" % ap)
    S.ensure_eq(out["star_MaxSignal_inPixel"], rate * S.np.max(c.built_instr["PRF"]) * S.np.ones(1), "brightest pixel takes the peak of the response")
    names = ["starFlux", "starSignal", "star_signal_inAperture", "star_MaxSignal_inPixel"]
    if tau is not None:
        names.append("foreground_transmission")
        e = S.np.ones(1) * interp0(S, tau[0], tau[1], c.table["Wavelength"])
        S.ensure_eq(out["foreground_transmission"], e, "foreground transmission of the bin")
    S.ensure(sorted(out.keys()) == sorted(names), "columns")
    S.ensure_unchanged((t.star.sed.wl_grid, t.star.sed.data, tau and (t.skyTransmission.wl_grid, t.skyTransmission.data)), before, "target")
    S.ensure_unchanged(c.built_instr, b_built, "built parameters")
    S.ensure_unchanged(c.table, b_table, "channel table")


def cubic(S, data, x):
    """spec of the cubic interpolation of the pixel response"""
    if S.symbolic:
        from .. import facades as F
        return F.Interp1d(data["wl_grid"]["value"], data["data"]["value"], kind="cubic", assume_sorted=False)(x)
    from scipy.interpolate import interp1d
    return interp1d(data["wl_grid"]["value"], data["data"]["value"], kind="cubic", assume_sorted=False)(x)


@contract("C11", [SP + "Spectrometer.propagate_target", I + "Instrument._window_function", I + "Instrument._get_efficiency",
                  I + "Instrument._get_sky_transmission", I + "Instrument._force_channel_wl_edge", SIG + "Signal.spectral_rebin"],
          stubs=dict(REBIN), samples=60)
def spectrometer_star_signal(S):
    u = S.u
    t, wl, sed, tau = star_target(S, S.flag("sky"))
    c, desc, optics, force, q, tr, lo, hi = star_channel(S, "Spectrometer", wl)
    nb, npx = S.dim("NB", lo=2), S.dim("NP", lo=4)
    if S.symbolic:
        edges = S.arr("edges", nb + 1, unit="um", pos=True, increasing=True)
        pw = S.arr("pix_wl", npx, unit="um", pos=True)
        left, right, mid = edges[:-1], edges[1:], S.arr("mid", nb, unit="um", pos=True)
    else:
        a, b = lo.value + 0.05, hi.value - 0.05
        edges = S.np.sort(S.np.concatenate([[a, b], S.np.linspace(a, b, nb + 1)[1:-1] + S.arr("dj", nb - 1, lo=-0.1, hi=0.1) * (b - a) / nb])) * u.um
        if S.flag("edges on samples"):
            at = [x for x in wl.value if a <= x <= b]
            S.assume(len(at) >= nb + 1)
            edges = S.np.array(at[: nb + 1]) * u.um
            a, b = edges[0].value, edges[-1].value
        left, right, mid = edges[:-1], edges[1:], 0.5 * (edges[1:] + edges[:-1])
        pw = S.np.linspace(a, b, 4 * nb + npx) * u.um
        if S.flag("red end first"): pw = pw[::-1].copy()
    c.table["chName"] = ["Ch"] if S.symbolic else ["Ch"] * nb
    c.table = S.QTable()
    c.table["Wavelength"], c.table["LeftBinEdge"], c.table["RightBinEdge"] = mid, left, right
    # every bin holds at least one pixel
    S.assume_all(nb, lambda k: pw[S.np.logical_and(pw > left[k], pw < right[k])].size > 0)
    pbw = S.arr("pix_bw", pw.size, unit="um", pos=True)
    g = S.dim("G", lo=4)
    gwl = S.arr("g_wl", g, unit="um", pos=True, increasing=True) if S.symbolic else S.np.linspace(lo.value - 0.1, hi.value + 0.1, max(g, 4)) * u.um
    gain = S.arr("gain", gwl.size, lo=0, hi=1)
    c.built_instr.update({"wl_pix_center": pw, "pixel_bandwidth": pbw,
                          "gain_prf_data": {"wl_grid": {"value": gwl.value, "unit": "um"}, "data": {"value": gain, "unit": ""}}})
    before = S.snapshot((t.star.sed.wl_grid, t.star.sed.data, tau and (t.skyTransmission.wl_grid, t.skyTransmission.data)))
    b_built, b_table = S.snapshot(c.built_instr), S.snapshot(c.table)
    out = c.propagate_target(t)
    Q, T, w = efficiencies(S, wl, q, tr, tau, force, lo, hi)
    inbin = lambda k: S.ite(S.np.logical_and(wl >= left[k], wl < right[k]), 1.0 + 0 * wl.value, 0.0 * wl.value)
    flux = S.map(nb, lambda k: S.np.trapz(w * sed * inbin(k), x=wl), unit="W / m2")
    S.ensure_eq(out["starFlux"], flux, "stellar flux of every bin")
    dens = (optics["Atel"]["value"] * T * Q * sed * photons(S, wl)).to(u.count / u.um / u.s)
    rate = S.map(nb, lambda k: S.np.trapz(dens * inbin(k), x=wl), unit="ct/s")
    S.ensure_eq(out["starSignal"], rate, "star signal of every bin")
    S.ensure_eq(out["star_signal_inAperture"], rate, "the extraction keeps the whole star signal")
    D = rebinned(S, pw, wl, dens) if S.symbolic else rebin_units(pw, wl, dens)
    D = defined(S, D)
    pix = D * pbw * cubic(S, c.built_instr["gain_prf_data"], pw)
    mx = S.map(nb, lambda k: S.np.max(pix[S.np.logical_and(pw > left[k], pw < right[k])]), unit="ct/s")
    S.ensure_eq(out["star_MaxSignal_inPixel"], mx, "brightest pixel of every bin")
    names = ["starFlux", "starSignal", "star_signal_inAperture", "star_MaxSignal_inPixel"]
    if tau is not None:
        names.append("foreground_transmission")
        e = bin_mean(S, nb, mid, interp0(S, tau[0], tau[1], mid), left, right)
        if force: e = S.ite(S.np.logical_or(mid < lo, mid > hi), 0.0 * e, e)
        S.ensure_eq(out["foreground_transmission"], e, "foreground transmission of the bins")
    S.ensure(sorted(out.keys()) == sorted(names), "columns")
    S.ensure_unchanged((t.star.sed.wl_grid, t.star.sed.data, tau and (t.skyTransmission.wl_grid, t.skyTransmission.data)), before, "target")
    S.ensure_unchanged(c.built_instr, b_built, "built parameters")
    S.ensure_unchanged(c.table, b_table, "channel table")


# ------------------------------------------------------------------ C18: a channel does not remember, and leaves the target alone
def lit_photometer(S, i, wl):
    """a built photometer with efficiencies on grids of its own"""
    u = S.u
    n = "%d" % i
    lo, hi = S.real("lo" + n, lo=0.6, hi=2.5, unit="um"), S.real("hi" + n, lo=3, hi=7, unit="um")
    desc = {"wl_min": {"value": lo}, "wl_max": {"value": hi}, "aperture": {"EnE": {"value": S.real("EnE" + n, lo=0.5, hi=1)}},
            "Fnum_x": {"value": S.real("Fx" + n, lo=2, hi=60) * u.dimensionless_unscaled}, "Fnum_y": {"value": S.real("Fy" + n, lo=2, hi=60) * u.dimensionless_unscaled},
            "detector": {"delta_pix": {"value": S.real("pix" + n, lo=2, hi=40, unit="um")}}}
    c = channel(S, {"optics": {"Atel": {"value": S.real("Atel", lo=0.1, hi=10, unit="m2")}, "ForceChannelWlEdge": {"value": S.ghost["force"]}}}, desc, "Photometer")
    g = sampled_around(S, "own_wl" + n, S.dim("G" + n, lo=6), wl)
    c.built_instr = {"qe_data": as_built(S, "qe", g, S.arr("qe" + n, g.size, lo=0, hi=1)),
                     "transmission_data": as_built(S, "tr", g, S.arr("tr" + n, g.size, lo=0, hi=1)),
                     "PRF": S.arr("prf" + n, S.dim("PX", lo=2), S.dim("PY", lo=2), lo=0, hi=1), "window_size_px": S.arr("win" + n, 1, lo=1, hi=300)}
    c.table = S.QTable()
    c.table["chName"], c.table["Wavelength"] = ["Ch"], [(0.5 * (lo + hi)).value] * u.um
    c.table["LeftBinEdge"], c.table["RightBinEdge"] = [lo.value] * u.um, [hi.value] * u.um
    return c


@contract("C18", [PH + "Photometer.propagate_target", I + "Instrument._get_efficiency", I + "Instrument._get_sky_transmission",
                  I + "Instrument.propagate_diffuse_foreground"], stubs=dict(REBIN), samples=40, bounds="two photometers, two foregrounds; any grids")
def light_through_channels(S):
    """the light a channel receives does not depend on the channels it was sent through before"""
    u = S.u
    S.ghost["force"] = S.flag("sharp edges")
    t, wl, sed, tau = star_target(S, S.flag("sky"))
    Filter = S.fn("exorad.models.foregrounds.skyForegrounds:SkyFilter")
    t.foreground = OrderedDict()
    g = sampled_around(S, "sky grid", S.dim("F", lo=5), wl)
    for k in ("zodi", "haze"):
        t.foreground[k] = Filter(wl_grid=g, data=S.arr("rad " + k, g.size, nonneg=True, unit="W / (m2 um sr)"))
    t.foreground["haze"].transmission = S.arr("tr haze", g.size, lo=0, hi=1)
    a, b = lit_photometer(S, 1, wl), lit_photometer(S, 2, wl)
    state = lambda: (t.star.sed.wl_grid, t.star.sed.data, tau and (t.skyTransmission.wl_grid, t.skyTransmission.data),
                     [(f.wl_grid, f.data, f.transmission) for f in t.foreground.values()], a.built_instr, b.built_instr, a.table, b.table)
    before = S.snapshot(state())
    history = S.choose("history", ["another channel", "the same channel too", "another target"])
    if history == "another target":
        t2 = copy.deepcopy(t)
        t2.star.sed.data = 2 * t2.star.sed.data
        if tau: t2.skyTransmission.data = 0.5 * t2.skyTransmission.data
        t2.foreground["zodi"].data = 3 * t2.foreground["zodi"].data
        fresh = copy.deepcopy(a)
        columns(a.propagate_target(t2), a.propagate_diffuse_foreground(t2))
        one = {k: v.copy() for k, v in columns(fresh.propagate_target(t), fresh.propagate_diffuse_foreground(t))}
    else:
        one = {k: v.copy() for k, v in columns(a.propagate_target(t), a.propagate_diffuse_foreground(t))}
        for c in ([b, a] if history == "the same channel too" else [b]): columns(c.propagate_target(t), c.propagate_diffuse_foreground(t))
    two = dict(columns(a.propagate_target(t), a.propagate_diffuse_foreground(t)))
    S.ensure(list(one) == list(two), "same columns")
    for k in one: S.ensure_eq(two[k], one[k], "%s is the same whatever came before" % k)
    S.ensure_unchanged(state(), before, "the target and the channels")


def columns(*tables):
    return [(k, t[k]) for t in tables for k in t.keys()]


def rebin_units(x, xp, fp):
    from exorad.utils.exolib import rebin
    return rebin(x, xp, fp)[1]


# ------------------------------------------------------------------ C12: spectral bins
def pow_axiom(S, base, x, r):
    """real analysis: for base > 1 and r > 0, base**x >= r exactly when x >= log r / log base"""
    if S.symbolic:
        lhs, q = base ** x, S.np.log(r) / S.np.log(base)
        S.assume(S.np.logical_or(S.np.logical_not(x >= q), lhs >= r))
        S.assume(S.np.logical_or(S.np.logical_not(x < q), lhs < r))


@contract("C12", [PH + "Photometer._wavelength_table"])
def photometer_single_bin(S):
    u = S.u
    lo, hi = S.real("wl_min", lo=0.3, hi=3, unit="um"), S.real("wl_max", lo=3, hi=9, unit="um")
    c = channel(S, {}, {"wl_min": {"value": length(S, lo)}, "wl_max": {"value": length(S, hi)}}, "Photometer")
    c._wavelength_table()
    one = S.np.ones(1)
    S.ensure_eq(c.table["LeftBinEdge"], lo * one, "the bin starts at the lower end of the band")
    S.ensure_eq(c.table["RightBinEdge"], hi * one, "the bin ends at the upper end of the band")
    S.ensure_eq(c.table["Wavelength"], 0.5 * (lo + hi) * one, "the bin is centred")
    S.ensure_eq(c.table["Bandwidth"], (hi - lo) * one, "the bin is as wide as the band")
    S.ensure(list(c.table["chName"]) == ["Ch"], "channel name")


def tiling(S, c, n):
    """bins adjoin, are centred, and are as wide as their edges say"""
    t = c.table
    L, R = t["LeftBinEdge"], t["RightBinEdge"]
    S.ensure_eq(0.5 * (L + R), t["Wavelength"], "bins are centred on their wavelength")
    S.ensure_eq(R - L, t["Bandwidth"], "bandwidth is the distance of the edges")
    S.ensure_eq(R[:-1], L[1:], "each bin starts where the previous one ends")
    S.ensure_all(R > L, "bins have positive width")
    return L, R


@contract("C12", [SP + "Spectrometer._wavelength_table"], samples=60)
def fixed_resolution_bins(S):
    u = S.u
    lo, hi = S.real("wl_min", lo=0.3, hi=2.9, unit="um"), S.real("wl_max", lo=3, hi=9, unit="um")
    res = S.real("R", lo=1, hi=300)
    c = channel(S, {}, {"wl_min": {"value": length(S, lo)}, "wl_max": {"value": length(S, hi)}, "targetR": {"value": res}}, "Spectrometer")
    b = 1 + 1 / res
    S.assume(S.np.log(b) > 0); S.assume(S.np.log(hi / lo) > 0)      # logarithms of numbers above one
    edges = c._wavelength_table()
    n = c.table["Wavelength"].size
    pow_axiom(S, b, n, (hi / lo).value)
    pow_axiom(S, b, n - 1, (hi / lo).value)
    L, R = tiling(S, c, n)
    S.ensure_eq(L[0], lo, "bins start at the lower end of the band")
    S.ensure_le(hi * (1 - 1e-9), R[n - 1], "bins reach the upper end of the band")
    S.ensure_lt(L[n - 1], hi * (1 + 1e-9), "no bin lies wholly beyond the band")
    S.ensure_eq(L / (R - L), res * S.np.ones(n), "every bin has the requested resolution")
    S.ensure_eq(edges, S.np.append(L, R[n - 1]), "returned edges are those of the table")
    S.ensure_eq(c.table["chName"], S.np.array(["Ch"] * n) if not S.symbolic else c.table["chName"], "channel name")


@contract("C12", [SP + "Spectrometer._wavelength_table"], samples=40)
def native_resolution_bins(S):
    u = S.u
    n = S.dim("n", lo=3)
    pw = S.arr("pix_wl", n, unit="um", pos=True)
    bw = S.arr("pix_bw", n, unit="um", pos=True, hi=0.1)
    desc = {}
    if S.flag("stated"): desc["targetR"] = {"value": "native"}
    c = channel(S, {}, desc, "Spectrometer")
    c.built_instr = {"wl_pix_center": pw, "pixel_bandwidth": bw}
    before = S.snapshot(c.built_instr)
    edges = c._wavelength_table()
    o = S.np.argsort(pw)
    t = c.table
    S.ensure_eq(t["Wavelength"], pw[o], "one bin per pixel, ordered by wavelength")
    S.ensure_eq(t["Bandwidth"], bw[o], "each bin is as wide as its own pixel")
    S.ensure_eq(t["LeftBinEdge"], pw[o] - 0.5 * bw[o], "left edges")
    S.ensure_eq(t["RightBinEdge"], pw[o] + 0.5 * bw[o], "right edges")
    S.ensure_eq(edges, S.np.append(t["LeftBinEdge"], t["RightBinEdge"][n - 1]), "returned edges are those of the table")
    S.ensure_unchanged(c.built_instr, before, "pixel grid")


def bins_so_far(S, lo, hi, res):
    """invariant of the loop that lays the bins: every edge follows from the previous one, none before the last lies beyond the band"""
    def variables(S, old):
        k = S.dim("edges", lo=1)
        w = S.arr("edge", k, pos=True)
        return {"w1": S.real("w1", pos=True), "w2": w[k - 1], "wl_bin": w, "res": S.real("res_", pos=True)}

    def holds(S, v, claim):
        w, k = v["wl_bin"], v["wl_bin"].size
        claim(k >= 1, "an edge")
        claim.eq(w[0], lo, "the first edge is the lower end of the band")
        claim.eq(w[k - 1], v["w2"], "the last edge is the current one")
        claim(v["w2"] > 0, "positive")
        claim.all(k - 1, lambda i: S.np.logical_and(w[i] < hi, w[i] < w[i + 1]), "edges increase and only the last may leave the band")
        claim.all(k - 1, lambda i: w[i + 1] == next_edge(S, res, w[i]), "every bin has the tabulated resolution")
        if claim.given: wide_enough(S, res, v["w2"])
    return variables, holds


def next_edge(S, res, w): return S.np.round(w + w / res(w), 4)


def wide_enough(S, res, w):
    """resolution files whose bins are wider than the rounding of their edges"""
    S.assume(res(w) > 0); S.assume(w / res(w) > 1e-4)


@contract("C12", [SP + "Spectrometer._wavelength_table"], samples=60, bounds="resolution files whose bins are wider than 0.0001 micron and at least two; any number of samples and bins",
          stubs={"pandas:read_csv": lambda S, name, sep=",": S.ghost["R table"]})
def tabulated_resolution_bins(S):
    u, np = S.u, S.np
    lo, hi = S.real("wl_min", lo=0.5, hi=2, unit="um"), S.real("wl_max", lo=3, hi=6.5, unit="um")
    desc = {"wl_min": {"value": length(S, lo)}, "wl_max": {"value": length(S, hi)}, "targetR": {"data": {"value": "R.csv"}}}
    l, h = lo.value, hi.value
    if S.symbolic:
        n = S.dim("samples", lo=2)
        w, r = S.arr("W", n, pos=True), S.arr("R", n, pos=True)
        res = lambda x: tabulated(S, w, r, x)
        S.ghost["R table"] = {"W": w, "R": r}
        S.invariant("Spectrometer._wavelength_table#1", *bins_so_far(S, l, h, res))
        c = channel(S, {}, desc, "Spectrometer")
        edges = c._wavelength_table()
    else:
        import os, tempfile, shutil
        n = 5 + S.integer("extra", lo=0, hi=4)
        w = np.linspace(l - 0.1, h + 0.1, n)
        r = S.arr("R", n, lo=5, hi=80)
        if S.flag("red end first"): w, r = w[::-1], r[::-1]
        d = tempfile.mkdtemp(prefix="vf")
        try:
            desc["targetR"]["data"]["value"] = os.path.join(d, "R.csv")
            with open(desc["targetR"]["data"]["value"], "w") as f:
                f.write("W\tR\n" + "".join("%r\t%r\n" % (float(a), float(b)) for a, b in zip(w, r)))
            res = lambda x: tabulated(S, w, r, x)
            c = channel(S, {}, desc, "Spectrometer")
            edges = c._wavelength_table()
        finally:
            shutil.rmtree(d)
    m = c.table["Wavelength"].size
    L, R = c.table["LeftBinEdge"], c.table["RightBinEdge"]
    S.ensure(edges.size == m + 1, "one more edge than bins")
    S.ensure_eq(c.table["Bandwidth"], (edges[1:] - edges[:-1]) * u.um, "bandwidth is the distance of the edges")
    S.ensure_eq(L, edges[:-1] * u.um, "bins start at their edge")
    S.ensure_eq(R, edges[1:] * u.um, "bins end at the next edge")
    S.ensure_eq(c.table["Wavelength"], 0.5 * (edges[1:] + edges[:-1]) * u.um, "bins are centred on their wavelength")
    S.ensure_eq(edges[0], l, "bins start at the lower end of the band")
    S.ensure_forall(m - 1, lambda i: edges[i + 1] == next_edge(S, res, edges[i]), "every bin but the last has the tabulated resolution")
    S.ensure_forall(m, lambda i: edges[i] < h, "no bin lies beyond the band")
    S.use(m - 1); S.use(m)
    full = next_edge(S, res, edges[m - 1])
    last, before = edges[m], edges[m - 1]
    S.ensure_le(h, last, "bins reach the upper end of the band")
    small = h - full < (full - before) / 2          # what remains of the band after a last bin of the tabulated resolution
    if S.decide(last == full):
        S.ensure_le((before - edges[m - 2]) / 2, h - before, "a remainder smaller than half a bin is not left as a bin of its own")
    else:
        S.ensure(np.logical_and(full < h, small), "a remainder smaller than half a bin is added to the last bin")
        S.ensure_eq(last, h, "the last bin then ends with the band")


def tabulated(S, xp, fp, x):
    """spec of linear interpolation inside the samples"""
    if S.symbolic:
        from .. import facades as F
        return F.Interp1d(xp, fp)(x)
    from scipy.interpolate import interp1d
    return interp1d(xp, fp)(x)


def extrapolated(S, xp, fp, x):
    """spec of linear interpolation continued beyond the samples"""
    if S.symbolic:
        from .. import facades as F
        return F.Interp1d(xp, fp, kind="linear", fill_value="extrapolate", bounds_error=False, assume_sorted=False)(x)
    from scipy.interpolate import interp1d
    return interp1d(xp, fp, assume_sorted=False, fill_value="extrapolate", bounds_error=False)(x)


def psf_env(fmt):
    def f(S, *a, **k):
        names = {"binned": ("F_x", "F_y", "wl", "delta_pix", "filename"), "paos": ("wl", "delta_pix", "filename"), "pixel": ("wl", "delta_pix", "filename")}[fmt]
        d = dict(zip(names, a)); d.update(k); d["format"] = fmt
        calls = S.ghost.setdefault("psf", [])
        i = len(calls)
        if i == 0: S.ghost["psf_shape"] = S.dim("PX", lo=2), S.dim("PY", lo=2), S.dim("KX", lo=2), S.dim("KY", lo=2)
        p = S.ghost["psf_shape"]
        d["prf"] = S.arr("prf%d" % i, p[0], p[1], lo=0, hi=0.3)
        d["pixel"] = S.arr("pixel_rf%d" % i, p[2], p[3], lo=0.1, hi=1)
        calls.append(d)
        return d["prf"], d["pixel"], ("extent", i)
    f.__name__ = "psf_" + fmt
    return f


PSF = {SP + "binnedPSF": psf_env("binned"), SP + "paosPSF": psf_env("paos"), SP + "pixel_based_psf": psf_env("pixel"),
       PH + "binnedPSF": psf_env("binned"), PH + "paosPSF": psf_env("paos"), PH + "pixel_based_psf": psf_env("pixel")}


def bins_env(S, self):
    """any spectral bins (their own contract is in C12)"""
    n = S.dim("NB", lo=2)
    if S.symbolic: e = S.arr("edge", n + 1, unit="um", pos=True, increasing=True)
    else:
        a, b = (self.description[k]["value"].to_value(S.u.um) for k in ("wl_min", "wl_max"))
        e = (a + (b - a) * S.np.linspace(0, 1, n + 1) ** S.choose("spacing of the bins", [1, 1, 12])) * S.u.um      # 12: bins much narrower than a pixel too
    self.table["chName"] = [self.name] * n
    self.table["Wavelength"] = 0.5 * (e[1:] + e[:-1])
    self.table["Bandwidth"] = e[1:] - e[:-1]
    self.table["LeftBinEdge"], self.table["RightBinEdge"] = e[:-1], e[1:]
    return e


def qe_env(S, self):
    n = self.table["Wavelength"].size
    return S.arr("QE", n, lo=0, hi=1), S.fn(SIG + "Signal")([1.0, 2.0] * S.u.um, [0.5, 0.5])


def built_spectrometer(S):
    u, np = S.u, S.np
    lo, hi = S.real("wl_min", lo=0.6, hi=2, unit="um"), S.real("wl_max", lo=3, hi=7, unit="um")
    xu = S.choose("position unit", ["um", "mm"])
    m = S.dim("M", lo=4)
    red = None
    if S.symbolic:
        sw, sx = S.arr("sol_wl", m, unit="um", pos=True), S.arr("sol_x", m, unit=xu)
    else:
        sw = np.linspace(0.3, 8, max(m, 4)) * u.um
        red = S.flag("reversed")
        s = 60.0 if xu == "um" else 0.06
        sx = (np.sort(S.arr("sx", sw.size, lo=0, hi=1)) * 3 + np.linspace(0, 30, sw.size)) * s * u.Unit(xu)
        if red: sx = -sx
        # the origin of the positions is anywhere: at one end, amid the band, or beyond it
        sx = sx + S.choose("origin of the positions", [0, 0, 1, -1]) * S.real("origin", lo=5, hi=60) * s * u.Unit(xu)
        order = S.choose("order of the table", ["as it is", "reversed", "mixed"])
        o = np.arange(sw.size) if order == "as it is" else np.arange(sw.size)[::-1] if order == "reversed" else np.argsort(S.arr("o", sw.size, lo=0, hi=1))
        sw, sx = sw[o], sx[o]
    dp = S.real("delta_pix", lo=8, hi=30, unit="um")
    desc = {"wl_min": {"value": length(S, lo)}, "wl_max": {"value": length(S, hi)}, "detector": {"delta_pix": {"value": length(S, dp)}},
            "Fnum_x": {"value": S.real("Fx", lo=5, hi=40)}, "Fnum_y": {"value": S.real("Fy", lo=5, hi=40)}}
    tab = S.QTable()
    tab["Wavelength"], tab["x"] = length(S, sw), sx
    # the band covers more than two pixels
    S.assume(np.abs(extrapolated(S, sw, sx, lo) - extrapolated(S, sw, sx, hi)) * sx.unit > 2 * dp)
    desc["wlSolution"] = {"data": tab}
    return desc, lo, hi, sw, sx, dp


@contract("C12", [SP + "Spectrometer.builder"], env=dict(PSF, **{SP + "Spectrometer._wavelength_table": bins_env, SP + "Spectrometer._get_qe": qe_env}), samples=40)
def pixel_grid(S):
    u, np = S.u, S.np
    desc, lo, hi, sw, sx, dp = built_spectrometer(S)
    c = channel(S, {}, desc, "Spectrometer")
    c.builder()
    b = c.built_instr
    pc, pw, bw = b["pix_center"], b["wl_pix_center"], b["pixel_bandwidth"]
    xa, xb = extrapolated(S, sw, sx, lo) * sx.unit, extrapolated(S, sw, sx, hi) * sx.unit
    first, last = S.ite(xa < xb, xa, xb), S.ite(xa < xb, xb, xa)
    d = dp.to(sx.unit)
    n = pc.size
    S.ensure_eq(pc[:-1] - pc[1:], d * np.ones(n - 1), "pixels are one pixel pitch apart")
    S.ensure_eq(pc[n - 1], first, "the pixels start at one end of the band")
    S.ensure_lt(pc[0], last, "no pixel beyond the other end")
    S.ensure_le(last, (pc[0] + d) * (1 if S.symbolic else 1 + 1e-12), "the pixels reach the other end")
    S.ensure_eq(pw, extrapolated(S, sx, sw, pc) * u.um, "pixels sample the wavelength given by the wavelength solution")
    S.ensure_eq(bw, np.abs(extrapolated(S, sx, sw, pc - 0.5 * d) - extrapolated(S, sx, sw, pc + 0.5 * d)) * u.um, "bandwidth of a pixel")
    sol = b["wl_solution_data"]
    S.ensure_eq(sol["wl_grid"]["value"], sw.value, "wavelength solution kept: wavelengths")
    S.ensure_eq(sol["data"]["value"], sx.value, "wavelength solution kept: positions")


# ------------------------------------------------------------------ C29: extraction windows and pixel response
@contract("C29", [SP + "Spectrometer.builder"], env=dict(PSF, **{SP + "Spectrometer._wavelength_table": bins_env, SP + "Spectrometer._get_qe": qe_env}), samples=60)
def spectrometer_windows(S):
    u, np = S.u, S.np
    desc, lo, hi, sw, sx, dp = built_spectrometer(S)
    scale = pixn = spec = None
    k = S.choose("spatial", ["plain", "scaled", "fixed", "scaled and fixed"])
    if "scaled" in k: desc["window_spatial_scale"] = {"value": S.real("scale", lo=0.5, hi=3)}
    if "fixed" in k: desc["window_spatial_pixel"] = {"value": S.real("npix", lo=1, hi=30)}
    if S.flag("fixed spectral width"): desc["window_spectral_pixel"] = {"value": S.real("nspec", lo=1, hi=30)}
    ee = None
    if S.flag("encircled energy"):
        m = S.dim("E", lo=3)
        ewl = S.arr("ee_wl", m, unit="um", pos=True, increasing=True) if S.symbolic else np.linspace(0.5, 8, max(m, 3)) * u.um
        ee = (ewl, S.arr("ee", ewl.size, lo=0.5, hi=5))
        if not S.symbolic and S.flag("mixed energy table"):
            o = np.argsort(S.arr("oe", ewl.size, lo=0, hi=1))
            ee = (ee[0][o], ee[1][o])
        t = S.QTable(); t["Wavelength"], t["EE"] = length(S, ee[0]), ee[1]
        desc["EncESolution"] = {"data": t}
    c = channel(S, {}, desc, "Spectrometer")
    c.builder()
    t, b = c.table, c.built_instr
    wl, n = t["Wavelength"], t["Wavelength"].size
    x = extrapolated(S, sw, sx, b["wl_bin"]) * sx.unit
    spectral = (np.abs(x[1:] - x[:-1]) / dp).to("")
    if "window_spectral_pixel" in desc: spectral = desc["window_spectral_pixel"]["value"] * np.ones(n)
    radius = 1.22 if ee is None else extrapolated(S, ee[0], ee[1], wl)
    spatial = (2.0 * radius * desc["Fnum_y"]["value"] * wl / dp).to("")
    if "window_spatial_scale" in desc: spatial = spatial * desc["window_spatial_scale"]["value"]
    if "window_spatial_pixel" in desc: spatial = desc["window_spatial_pixel"]["value"] * np.ones(n)
    S.ensure_eq(b["window_spectral_width"], spectral, "spectral width of the window")
    S.ensure_eq(b["window_spatial_width"], spatial, "spatial width of the window")
    S.ensure_eq(t["WindowSize"], spectral * spatial, "window size is the product of its widths")
    S.ensure_eq(b["window_size_px"], spectral * spatial, "window size handed to the signal propagation")
    L, R = t["LeftBinEdge"], t["RightBinEdge"]
    S.ensure_eq(b["wl_bin"], np.append(L, R[n - 1]), "bin edges handed to the signal propagation")


@contract("C29", [SP + "Spectrometer.builder"], env=dict(PSF, **{SP + "Spectrometer._wavelength_table": bins_env, SP + "Spectrometer._get_qe": qe_env}), samples=40)
def spectrometer_pixel_response(S):
    u, np = S.u, S.np
    desc, lo, hi, sw, sx, dp = built_spectrometer(S)
    fmt = S.choose("PSF", ["none", "binned file", "paos", "pixel_based"])
    if fmt != "none": desc["PSF"] = {"value": "psf.file"}
    if fmt in ("paos", "pixel_based"): desc["PSF"]["format"] = {"value": fmt}
    wfe = S.real("WFErms", lo=0.01, hi=0.5, unit="um") if S.flag("wavefront error") else None
    if wfe is not None: desc["WFErms"] = {"value": length(S, wfe)}
    c = channel(S, {}, desc, "Spectrometer")
    c.builder()
    b = c.built_instr
    g, calls = b["gain_prf_data"], S.ghost["psf"]
    S.ensure(len(calls) == 10, "ten wavelengths sampled")
    pw = b["wl_pix_center"]
    grid = np.linspace(np.min(pw), np.max(pw), 10)
    S.ensure_eq(g["wl_grid"]["value"], grid.value, "the samples span the wavelengths of the pixels")
    for k, d in enumerate(calls):
        w = grid[k]
        S.ensure(d["format"] == {"none": "binned", "binned file": "binned", "paos": "paos", "pixel_based": "pixel"}[fmt], "kind of PSF")
        S.ensure(d["filename"] == (None if fmt == "none" else "psf.file"), "PSF file")
        S.ensure_eq(d["wl"], w if fmt == "pixel_based" else np.ones(1) * w, "PSF evaluated at its wavelength")
        S.ensure_eq(d["delta_pix"], dp, "pixel size")
        if "F_x" in d:
            S.ensure_eq(d["F_x"], desc["Fnum_x"]["value"], "focal ratio x")
            S.ensure_eq(d["F_y"], desc["Fnum_y"]["value"], "focal ratio y")
        v = np.max(np.sum(d["prf"], axis=0) / np.max(np.sum(d["pixel"], axis=0)))
        if wfe is not None: v = v * np.exp(-((2 * np.pi * wfe / w) ** 2))
        S.ensure_eq(g["data"]["value"][k], v, "share of the light in the brightest column of pixels")


@contract("C29", [PH + "Photometer._windows_size"], env={PH + "find_aperture_radius": lambda S, *a: radius_env(S, *a)}, samples=40)
def photometer_window(S):
    u, np = S.u, S.np
    dp = S.real("delta_pix", lo=8, hi=30, unit="um")
    fx, fy = S.real("Fx", lo=5, hi=40), S.real("Fy", lo=5, hi=40)
    fmt = S.choose("PSF format", [None, "paos", "pixel_based"])
    desc = {"detector": {"delta_pix": {"value": length(S, dp)}}, "Fnum_x": {"value": fx}, "Fnum_y": {"value": fy}, "aperture": {}}
    k = S.choose("aperture", ["radius", "EnE", "both"])
    if k != "EnE": desc["aperture"]["radius"] = {"value": S.real("radius", lo=0.5, hi=9)}
    if k != "radius": desc["aperture"]["EnE"] = {"value": S.real("EnE", lo=0.3, hi=0.99)}
    c = channel(S, {}, desc, "Photometer")
    wl = S.arr("wl", 1, unit="um", lo=0.5, hi=8)
    c.table["Wavelength"] = wl
    nx, ny = S.dim("NX", lo=2), S.dim("NY", lo=2)
    prf = S.arr("prf", ny, nx, lo=0, hi=0.3)
    sx, sy = S.real("step x", lo=0.1, hi=5, unit="um"), S.real("step y", lo=0.1, hi=5, unit="um")
    one = S.np.ones(1)
    c.built_instr["extent"] = (-0.5 * nx * sx * one, 0.5 * nx * sx * one, -0.5 * ny * sy * one, 0.5 * ny * sy * one)
    if fmt == "paos": c.built_instr["extent"] = tuple(e[0] for e in c.built_instr["extent"])
    out = c._windows_size(prf, fmt)
    if k == "EnE":
        a = S.ghost["radius"]
        r, f = a["r"], np.pi
        S.ensure(a["ima"] is prf, "radius found on the PSF")
        S.ensure_eq(a["eec"], desc["aperture"]["EnE"]["value"], "requested encircled energy")
        if fmt == "pixel_based":
            S.ensure_eq(a["F_x"] * a["wl"].to(u.um).value * one, one, "one pixel per unit of radius along x")
            S.ensure_eq(a["F_y"] * a["wl"].to(u.um).value * one, one, "one pixel per unit of radius along y")
        else:
            S.ensure_eq(a["F_x"] * a["wl"].to(u.um).value, fx * wl.value / sx.value, "samples of the image per F lambda along x")
            S.ensure_eq(a["F_y"] * a["wl"].to(u.um).value, fy * wl.value / sy.value, "samples of the image per F lambda along y")
    else:
        r, f = desc["aperture"]["radius"]["value"], 1.0
    area = f * r ** 2 * np.ones(1)
    if fmt != "pixel_based": area = area * (fx * wl / dp).to("") * (fy * wl / dp).to("")
    c.table["WindowSize"] = out
    S.ensure_eq(c.table["WindowSize"], area, "window in pixels")


def ellipse(S, ima, x, y, a, b):
    """light inside an ellipse (photutils, exact overlap with the samples)"""
    if S.symbolic:
        from .. import facades as F, terms as T
        from ..sym import Sym
        i, j = T.fresh("i", "int", "nonneg"), T.fresh("j", "int", "nonneg")
        im = T.mk_lam(i, T.mk_lam(j, F.coerce(ima).box.f((i, j))))
        return Sym.scalar(T.app("ellipse", (im,) + tuple(F.coerce(v).term() for v in (x, y, a, b))))
    from photutils.aperture import EllipticalAperture, aperture_photometry
    return aperture_photometry(ima, EllipticalAperture((x, y), float(a), float(b)))["aperture_sum"][0]


class _Record:
    def __init__(self, **k): self.__dict__.update(k)


def aperture_stub(S, positions, a, b, theta=0.0):
    S.ensure_eq(theta, 0.0, "aperture aligned with the axes")
    return _Record(positions=positions, a=a, b=b)


def photometry_stub(S, data, aper):
    v = ellipse(S, data, aper.positions[0], aper.positions[1], aper.a, aper.b)
    return {"aperture_sum": _Record(data=[v], value=[v])}


@contract("C29", ["exorad.utils.exolib:encircled_energy"], samples=40,
          stubs={"photutils.aperture:EllipticalAperture": aperture_stub, "photutils.aperture:aperture_photometry": photometry_stub})
def encircled_energy_share(S):
    """share of the light of an image inside an ellipse around its centre"""
    np, u = S.np, S.u
    nx, ny = S.dim("NX", lo=3), S.dim("NY", lo=3)
    if not S.symbolic: nx, ny = nx + 8, ny + 20
    ima = S.arr("image", ny, nx, lo=0.1, hi=1)
    r = S.real("r", lo=0.5, hi=3)
    fx, fy = S.real("Fx", lo=0.5, hi=2), S.real("Fy", lo=0.5, hi=2)
    wl = S.real("wl", lo=0.5, hi=2, unit="um")
    if S.flag("list of one wavelength"): wl = wl * np.ones(1)
    w = wl.value * 1.0 if wl.ndim == 0 else wl.value[0]
    before = S.snapshot(ima)
    got = S.fn("exorad.utils.exolib:encircled_energy")(r, ima, fx, fy, wl)
    S.ensure_eq(got, ellipse(S, ima, nx // 2, ny // 2, r * fx * w, r * fy * w) / np.sum(ima), "share of the light inside the aperture")
    S.ensure_unchanged(ima, before, "image")


def energy_stub(S, r, ima, fx, fy, wl):
    g = S.ghost["image"]
    S.ensure(ima is g["ima"], "the same image")
    S.ensure_eq(fx, g["fx"], "focal ratio x"); S.ensure_eq(fy, g["fy"], "focal ratio y"); S.ensure_eq(wl, g["wl"], "wavelength")
    return g["E"](r)


@contract("C29", ["exorad.utils.exolib:find_aperture_radius"], samples=40, stubs={"exorad.utils.exolib:encircled_energy": energy_stub},
          bounds="any image; partial correctness (that the search ends is not shown)")
def aperture_radius(S):
    """the radius at which the encircled energy, linear between whole radii, reaches the requested one"""
    np, u = S.np, S.u
    fx, fy = S.real("Fx", lo=2, hi=4), S.real("Fy", lo=2, hi=4)
    wl = S.real("wl", lo=0.5, hi=1, unit="um")
    eec = S.real("EnE", lo=0.05, hi=0.995)
    f = S.fn("exorad.utils.exolib:find_aperture_radius")
    if S.symbolic:
        ima = S.arr("image", S.dim("NY", lo=3), S.dim("NX", lo=3), nonneg=True)
        E = S.arr("E", S.dim("many"), nonneg=True)
        at = lambda i: S.ite(S.np.array([i])[0] == 0, 0.0, E[i])
        S.ghost["image"] = dict(ima=ima, fx=fx, fy=fy, wl=wl, E=lambda i: E[i])

        def variables(S, old):
            i = S.ghost["last"] = S.integer("last", lo=0)
            return {"i": i, "last_enc": at(i), "rs": S.listing(i + 1, lambda j: j), "enc": S.listing(i + 1, at)}

        def holds(S, v, claim):
            i, rs, enc = v["i"], S.np.array(v["rs"]), S.np.array(v["enc"])
            claim(S.np.logical_and(rs.size == i + 1, enc.size == i + 1), "one energy per radius")
            claim.all(i + 1, lambda j: S.np.logical_and(rs[j] == j, enc[j] == at(j)), "energies of the radii 0, 1, 2, ...")
            claim(v["last_enc"] == at(i), "last energy")
            claim.all(i, lambda j: at(j) < eec, "all radii but the last enclose less than requested")
        S.invariant("find_aperture_radius#1", variables, holds)
        r = f(ima, eec, fx, fy, wl)
        k = S.ghost["last"]
        S.ensure(at(k) >= eec, "the last radius encloses the requested energy")
        S.ensure_eq(r, tabulated(S, S.map(k + 1, at), S.map(k + 1, lambda j: 1.0 * j), eec), "radius of the requested energy, linear between whole radii")
    else:
        n = 30 + S.integer("size", lo=0, hi=10)
        y, x = np.indices((n, n + 3))
        ima = np.exp(-((x - (n + 3) // 2) / S.real("width x", lo=3, hi=6)) ** 2 - ((y - n // 2) / S.real("width y", lo=3, hi=6)) ** 2)
        r = float(f(ima, eec, fx, fy, wl))
        at = lambda i: 0.0 if i == 0 else ellipse(S, ima, ima.shape[1] // 2, ima.shape[0] // 2, i * fx * wl.value, i * fy * wl.value) / ima.sum()
        k = 0
        while at(k) < eec: k += 1
        a, b = at(k - 1), at(k)
        S.ensure_eq(r, k - 1 + (eec - a) / (b - a), "radius of the requested energy, linear between whole radii")


@contract("C29", ["exorad.utils.exolib:find_aperture_radius"], samples=10)
def impossible_energies(S):
    f = S.fn("exorad.utils.exolib:find_aperture_radius")
    e = S.choose("requested", [1.0, 1.2, 0.0, -0.5])
    S.expect_raise("an encircled energy outside 0 to 1 is rejected", f, S.np.ones((8, 8)), e, 1, 1, 1 * S.u.um, exc=ValueError)


def radius_env(S, ima, eec, fx, fy, wl):
    r = S.real("found_radius", lo=0.5, hi=9)
    S.ghost["radius"] = dict(ima=ima, eec=eec, F_x=fx, F_y=fy, wl=wl, r=r)
    return r


def window_env(S, self, prf, fmt):
    S.ghost["window"] = (prf, fmt)
    return S.arr("window", 1, lo=1, hi=100) * S.u.dimensionless_unscaled


@contract("C29", [PH + "Photometer.builder"], env=dict(PSF, **{PH + "Photometer._get_qe": qe_env, PH + "Photometer._windows_size": window_env}), samples=30)
def photometer_pixel_response(S):
    u, np = S.u, S.np
    dp = S.real("delta_pix", lo=8, hi=30, unit="um")
    lo, hi = S.real("wl_min", lo=0.6, hi=2, unit="um"), S.real("wl_max", lo=3, hi=7, unit="um")
    desc = {"wl_min": {"value": length(S, lo)}, "wl_max": {"value": length(S, hi)}, "detector": {"delta_pix": {"value": length(S, dp)}},
            "Fnum_x": {"value": S.real("Fx", lo=5, hi=40)}, "Fnum_y": {"value": S.real("Fy", lo=5, hi=40)}, "aperture": {"radius": {"value": 1.0}}}
    fmt = S.choose("PSF", ["none", "binned file", "paos", "pixel_based"])
    if fmt != "none": desc["PSF"] = {"value": "psf.file"}
    if fmt in ("paos", "pixel_based"): desc["PSF"]["format"] = {"value": fmt}
    c = channel(S, {}, desc, "Photometer")
    c.builder()
    b = c.built_instr
    S.ensure(len(S.ghost["psf"]) == 1, "one PSF")
    d = S.ghost["psf"][0]
    S.ensure(d["format"] == {"none": "binned", "binned file": "binned", "paos": "paos", "pixel_based": "pixel"}[fmt], "kind of PSF")
    S.ensure(d["filename"] == (None if fmt == "none" else "psf.file"), "PSF file")
    S.ensure_eq(d["wl"], 0.5 * (lo + hi) * np.ones(1), "PSF evaluated at the central wavelength")
    S.ensure_eq(d["delta_pix"], dp, "pixel size")
    if "F_x" in d:
        S.ensure_eq(d["F_x"], desc["Fnum_x"]["value"], "focal ratio x")
        S.ensure_eq(d["F_y"], desc["Fnum_y"]["value"], "focal ratio y")
    S.ensure_eq(b["PRF"], d["prf"], "response kept"); S.ensure_eq(b["pixelRF"], d["pixel"], "pixel response kept")
    w = S.ghost["window"]
    S.ensure_eq(w[0], d["prf"], "window found on this response")
    S.ensure(w[1] == (fmt if fmt in ("paos", "pixel_based") else None), "window format")
    S.ensure_eq(c.table["WindowSize"], b["window_size_px"], "window size handed to the signal propagation")
    S.ensure(c.table is b["table"], "table handed to the signal propagation")


# ------------------------------------------------------------------ C30: quantum efficiency
@contract("C30", [I + "Instrument._get_qe", I + "Instrument._bin_signal", "exorad.models.utils:get_wl_col_name"], samples=60)
def quantum_efficiency(S):
    u, np = S.u, S.np
    n = S.dim("NB", lo=2)
    if S.symbolic:
        edges = S.arr("edges", n + 1, unit="um", pos=True, increasing=True)
        L, R, wl = edges[:-1], edges[1:], S.arr("wl", n, unit="um", pos=True, increasing=True)
    else:
        edges = np.linspace(S.real("e0", lo=0.5, hi=1), S.real("e1", lo=4, hi=8), n + 1) * u.um
        L, R = edges[:-1], edges[1:]
        wl = S.choose("wavelengths at", [0.5 * (L + R), L])
    det = {}
    if S.flag("data file"):
        col = S.choose("column", ["Wavelength", "wavelength"])
        m = S.dim("G", lo=3)
        gwl = in_any_order(S, "g", S.arr("g_wl", m, unit="um", pos=True) if S.symbolic else sampled_around(S, "g_wl", m, wl))
        tab = S.QTable()
        tab[col] = length(S, gwl)
        tab["Other"] = S.arr("q_other", gwl.size, lo=0, hi=1)
        q = S.arr("q", gwl.size, lo=0, hi=1)
        tab["Ch"] = q
        det["qe"] = {"datafile": {"value": "f"}, "data": tab}
    else:
        lo, hi = S.real("lo", lo=0.4, hi=2, unit="um"), S.real("cut", lo=3, hi=9, unit="um")
        v = S.real("value", lo=0, hi=1)
        det.update(wl_min={"value": length(S, lo)}, cut_off={"value": length(S, hi)}, qe={"value": v})
        pv = S.mod("exorad.utils.passVal").PassVal
        pv.working_R = S.dim("working_R", lo=5)
        gwl = np.logspace(np.log10(lo.value), np.log10(hi.value), pv.working_R) * u.um
        q = v * np.ones(gwl.size)
    c = channel(S, {}, {"detector": det}, "Instrument")
    c.table["Wavelength"], c.table["LeftBinEdge"], c.table["RightBinEdge"] = wl, L, R
    b_table, b_desc = S.snapshot(c.table), S.snapshot(c.description)
    qe, data = c._get_qe()
    S.ensure_eq(qe, bin_mean(S, n, wl, interp0(S, gwl, q, wl), L, R), "efficiency of the bins")
    S.ensure_eq(data.wl_grid, gwl, "wavelengths of the efficiency curve")
    S.ensure_eq(data.data, q, "efficiency curve")
    if "cut_off" in det and not S.symbolic:
        i = np.logical_and(wl >= lo, wl <= hi)
        S.ensure_eq(np.asarray(qe)[i], v * np.ones(i.sum()), "constant efficiency inside the sensitive range")
        S.ensure_eq(np.asarray(qe)[~i], np.zeros((~i).sum()), "no efficiency beyond the cut-off")
    S.ensure_unchanged(c.table, b_table, "channel table")
    S.ensure_unchanged(c.description, b_desc, "channel description")
