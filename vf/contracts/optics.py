"""Optical chain: C07 transmission, C08 emission, C09 self-emission signal, C10 foreground propagation, C26 solid angle."""
from collections import OrderedDict
from ..dsl import contract
from ._common import in_any_order, interp0, length, no_rounding, sampled_around

E = "exorad.models.optics.opticalElement:"
P = "exorad.models.optics.opticalPath:"
I = "exorad.models.instruments.instrument:"

MODES = ["default", "transmission", "reflectivity", "both", "data-T", "data-R", "data-TR-use"]


def element_description(S, mode, name="M1", pre=""):
    d = OrderedDict(value=name, type={"value": "filter"})
    if mode in ("transmission", "both"): d["transmission"] = {"value": S.real(pre + "tr", lo=0, hi=1)}
    if mode in ("reflectivity", "both"): d["reflectivity"] = {"value": S.real(pre + "re", lo=0, hi=1)}
    if mode == "both": d["use"] = {"value": "reflectivity" if S.flag(pre + "use_refl") else "transmission"}
    if mode.startswith("data"):
        n = S.dim(pre + "D", lo=2)
        t = S.QTable()
        t["Wavelength"] = length(S, in_any_order(S, pre, S.arr(pre + "dwl", n, unit="um", pos=True, increasing=not S.symbolic, lo=0.1, hi=20)))
        if "T" in mode[5:]: t["Transmission"] = S.arr(pre + "dT", n, lo=0, hi=1)
        if "R" in mode[5:]: t["Reflectivity"] = S.arr(pre + "dR", n, lo=0, hi=1)
        t["Emissivity"] = S.arr(pre + "dE", n, lo=0, hi=1)
        d["data"] = t
        if mode == "data-TR-use": d["use"] = {"value": "Reflectivity" if S.flag(pre + "use_refl") else "Transmission"}
    return d


@contract("C07", [E + "OpticalElement.__init__", E + "OpticalElement._get_transmission"], samples=60)
def element_transmission(S):
    u = S.u
    mode = S.choose("mode", MODES)
    d = element_description(S, mode)
    if mode.startswith("data") and S.flag("constants as well"):
        d["transmission"], d["emissivity"] = {"value": S.real("tr", lo=0, hi=1)}, {"value": S.real("em", lo=0, hi=1)}
    lim = S.choose("limits", [(), ("wl_min",), ("wl_max",), ("wl_min", "wl_max")]) if mode in ("transmission", "reflectivity", "both") else ()
    for l in lim: d[l] = {"value": length(S, S.real(l, lo=0.2, hi=15, unit="um"))}
    n = S.dim("N", lo=2)
    wl = length(S, S.arr("wl", n, unit="um", pos=True, increasing=True, lo=0.1, hi=20))
    before = S.snapshot(d)
    el = S.fn(E + "OpticalElement")(d, wl)
    if mode == "default": t = S.np.ones(n)
    elif mode == "transmission": t = d["transmission"]["value"] * S.np.ones(n)
    elif mode == "reflectivity": t = d["reflectivity"]["value"] * S.np.ones(n)
    elif mode == "both": t = d[d["use"]["value"]]["value"] * S.np.ones(n)
    else:
        col = {"data-T": "Transmission", "data-R": "Reflectivity"}.get(mode) or d["use"]["value"]
        t = interp0(S, d["data"]["Wavelength"].to(u.um), d["data"][col], wl.to(u.um))
    for l in lim:
        out = wl < d[l]["value"] if l == "wl_min" else wl > d[l]["value"]
        t = S.ite(out, 0.0 * t, t)
    S.ensure_eq(el.transmission, t, "transmission of the element (%s)" % mode)
    S.ensure_unchanged(d, before, "element description")


@contract("C08", [E + "OpticalElement.__init__", E + "OpticalElement._get_emissivity", E + "OpticalElement._get_temperature",
                  E + "OpticalElement._get_position", E + "OpticalElement._get_angle"], samples=60)
def element_emission_parameters(S):
    u = S.u
    typ = S.choose("type", ["surface", "optics box", "detector box", "slit", "filter"])
    mode = S.choose("mode", ["default", "const", "data-T"])
    d = element_description(S, mode)
    d["type"] = {"value": typ}
    if mode == "const" or mode == "data-T" and S.flag("constant as well"): d["emissivity"] = {"value": S.real("em", lo=0, hi=1)}
    tm = S.choose("temperature", ["none", "K", "mK", "bare"])
    if tm != "none":
        v = S.real("T", lo=1, hi=1000)
        d["temperature"] = {"value": v if tm == "bare" else v * u.Unit(tm)}
    am = S.choose("angle", ["none", "sr", "bare"])
    if am != "none":
        w = S.real("ang", lo=1e-3, hi=3)
        d["solid_angle"] = {"value": w * u.sr if am == "sr" else w}
    n = S.dim("N", lo=2)
    wl = length(S, S.arr("wl", n, unit="um", pos=True, increasing=True, lo=0.1, hi=20))
    el = S.fn(E + "OpticalElement")(d, wl)
    if mode == "const": e = d["emissivity"]["value"] * S.np.ones(n)
    elif mode == "data-T": e = interp0(S, d["data"]["Wavelength"].to(u.um), d["data"]["Emissivity"], wl.to(u.um))
    elif typ == "detector box": e = S.np.ones(n)
    else: e = S.np.zeros(n)
    S.ensure_eq(el.emissivity, e, "emissivity (%s, %s)" % (typ, mode))
    if tm == "none": S.ensure(el.temperature is None, "no temperature")
    else: S.ensure_eq(el.temperature, v * u.Unit("K" if tm == "bare" else tm), "temperature")
    if am == "none": S.ensure(el.angle is None, "no custom angle")
    else: S.ensure_eq(el.angle, w * u.sr, "custom solid angle")
    S.ensure(el.position == {"detector box": "detector", "optics box": "optics box"}.get(typ, "path"), "position of %s" % typ)


# ---------------------------------------------------------------- paths
# (type, has a temperature)
ELEMENTS = [
    [],
    [("surface", True)],
    [("surface", True), ("filter", False)],
    [("surface", True), ("slit", False), ("detector box", True)],
    [("surface", True), ("surface", True), ("optics box", True)],
    [("surface", False), ("surface", True), ("slit", True), ("filter", True)],
    [("surface", False), ("slit", False), ("optics box", True)],
    [("optics box", True), ("slit", True), ("slit", False), ("detector box", True)],
]


def build_path(S, conf, wl, pre="e", extra=None):
    """real OpticalPath over a description with len(conf) elements of arbitrary transmission and emissivity"""
    u = S.u
    d = dict(extra or {})
    opt = OrderedDict()
    n = wl.size
    for i, (typ, emits) in enumerate(conf):
        nm = "%s%d" % (pre, i)
        e = OrderedDict(value=nm, type={"value": typ})
        if emits: e["temperature"] = {"value": S.real("T_" + nm, lo=0.05, hi=400, unit="K")}
        if typ == "slit": e["width"] = {"value": S.real("w_" + nm, lo=1, hi=500, unit="um")}
        opt[nm] = e
    if conf: d["optics"] = {"opticalElement": opt}
    else: d["optics"] = {}
    p = S.fn(P + "OpticalPath")(d, wl)
    for nm in opt:
        el = p.optical_element_dict[nm]
        el.transmission = S.arr("tr_" + nm, n, lo=0, hi=1)
        el.emissivity = S.arr("em_" + nm, n, lo=0, hi=1)
    return p


def wl_grid(S, name="wl", lo=2):
    n = S.dim("N", lo=lo)
    return n, S.arr(name, n, unit="um", pos=True, increasing=True, lo=0.3, hi=10)


@contract("C07", [P + "OpticalPath.__init__", P + "OpticalPath._prepare_elements", P + "OpticalPath.build_transmission_table",
                  P + "OpticalPath.prepend_optical_elements"], bounds="up to 4+3 optical elements; any wavelength grid")
def path_total_transmission(S):
    n, wl = wl_grid(S)
    conf = S.choose("channel", ELEMENTS)
    com = S.choose("common", ELEMENTS[:4])
    ch, co = build_path(S, conf, wl, "c"), build_path(S, com, wl, "t")
    ch.prepend_optical_elements(co.optical_element_dict)
    order = ["t%d" % i for i in range(len(com))] + ["c%d" % i for i in range(len(conf))]
    if not com: order = ["noElement"] + [o for o in order if o != "noElement"]
    got = list(ch.optical_element_dict)
    S.ensure([g for g in got if g != "noElement"] == [o for o in order if o != "noElement"], "common elements come first, in order")
    els = {k: v.transmission for k, v in ch.optical_element_dict.items()}
    before = S.snapshot(els)
    t = ch.build_transmission_table()
    tot = S.np.ones(n)
    for k in got:
        S.ensure_eq(t[k], els[k], "column of %s" % k)
        tot = tot * els[k]
    S.ensure_eq(t["total"], tot, "total transmission is the product over every element of the path")
    S.ensure_eq(t["Wavelength"], wl, "wavelength column")
    S.ensure_unchanged({k: v.transmission for k, v in ch.optical_element_dict.items()}, before, "element transmissions")


@contract("C08", [P + "OpticalPath.chain", P + "surface_radiance", "exorad.utils.exolib:planck"], bounds="up to 4 optical elements; any wavelength grid")
def emission_chain(S):
    n, wl = wl_grid(S)
    conf = S.choose("path", ELEMENTS)
    p = build_path(S, conf, wl)
    if not conf: return S.ok("nothing to emit") if not p.chain() else S.fail("nothing can emit")
    els = list(p.optical_element_dict.values())
    before = S.snapshot({e.name: (e.transmission, e.emissivity) for e in els})
    planck = S.fn("exorad.utils.exolib:planck")
    ang = [e.angle for e in els]
    if S.flag("custom_angle"):
        for i, e in enumerate(els): e.angle = ang[i] = S.real("ang%d" % i, lo=1e-3, hi=3, unit="sr")
    r = p.chain()
    S.ensure(list(r) == [e.name for e, c in zip(els, conf) if c[1]], "exactly the elements with a temperature emit")
    for i, (e, c) in enumerate(zip(els, conf)):
        if not c[1]: continue
        I = e.emissivity * planck(wl, e.temperature)
        for o in els[i + 1:]: I = I * o.transmission
        S.ensure_eq(r[e.name].data, I, "emission of element %d (%s) dimmed by every later element" % (i, c[0]))
        S.ensure_eq(p.radiance_table[e.name], I, "radiance table column %d" % i)
        S.ensure_eq(r[e.name].wl_grid, wl, "grid %d" % i)
        down = any(x[0] == "slit" for x in conf[i + 1:])
        S.ensure(bool(r[e.name].slit) == down, "slit flag of element %d (%s) tells whether a slit lies downstream" % (i, c[0]))
        S.ensure(r[e.name].position == {"detector box": "detector", "optics box": "optics box"}.get(c[0], "path"), "position of element %d" % i)
        if ang[i] is None: S.ensure(r[e.name].angle is None, "element %d has no solid angle of its own" % i)
        else: S.ensure_eq(r[e.name].angle, ang[i], "solid angle of element %d" % i)
    slits = [e for e, c in zip(els, conf) if c[0] == "slit"]
    if slits: S.ensure_eq(p.slit_width, slits[-1].description["width"]["value"], "slit width is the one of the slit")
    else: S.ensure(p.slit_width is None, "no slit width without a slit")
    S.ensure_unchanged({e.name: (e.transmission, e.emissivity) for e in els}, before, "elements")


# ---------------------------------------------------------------- channel level
def bins(S, n, table, lo=0.4, hi=9):
    """spectral table: bins tile a wavelength range, every centre lies inside its own bin"""
    u = S.u
    table["chName"] = S.strs("chName", n, values=["Ch"])
    wl = table["Wavelength"] = S.arr("bin_wl", n, unit="um", increasing=True, lo=lo, hi=hi)
    w = S.arr("bin_w", n, unit="um", pos=True, lo=0.01, hi=0.3)
    table["LeftBinEdge"] = wl - 0.5 * w
    table["RightBinEdge"] = wl + 0.5 * w
    return wl


def bin_mean(S, n, wl, v, L, R):
    return S.map(n, lambda k: S.np.mean(v[S.np.logical_and(wl >= L[k], wl < R[k])]))


def channel(S, payload=None, description=None, cls="Instrument"):
    mods = {"Instrument": I, "Photometer": "exorad.models.instruments.photometer:", "Spectrometer": "exorad.models.instruments.spectrometer:"}
    c = S.fn(mods[cls] + cls)("Ch", description or {}, payload or {})
    return c


@contract("C07", [I + "Instrument._get_transmission", I + "Instrument._bin_signal"])
def channel_transmission(S):
    u = S.u
    force = S.flag("force_edge")
    desc = {"wl_min": {"value": length(S, S.real("wl_min", lo=0.4, hi=3, unit="um"))}, "wl_max": {"value": length(S, S.real("wl_max", lo=3, hi=9, unit="um"))}}
    c = channel(S, {"optics": {"ForceChannelWlEdge": {"value": force}}}, desc)
    k = S.dim("K", lo=1)
    wl = bins(S, k, c.table)
    n, grid = wl_grid(S, "grid")
    tr = S.arr("tr", n, lo=0, hi=1)
    before = S.snapshot(tr)
    before_t = S.snapshot(c.table)
    T, data = c._get_transmission(grid, tr)
    L, R = c.table["LeftBinEdge"], c.table["RightBinEdge"]
    e = bin_mean(S, k, wl, interp0(S, grid, tr, wl), L, R)
    d = tr * S.np.ones(n)
    if force:
        out = S.np.logical_or(wl < desc["wl_min"]["value"], wl > desc["wl_max"]["value"])
        e = S.ite(out, 0.0 * e, e)
        d = S.ite(S.np.logical_or(grid < desc["wl_min"]["value"], grid > desc["wl_max"]["value"]), 0.0 * d, d)
    S.ensure_eq(T, e, "transmission of each bin")
    S.ensure_eq(data.data, d, "transmission on the fine grid")
    S.ensure_eq(data.wl_grid, grid, "fine grid")
    S.ensure_unchanged(tr, before, "input transmission")
    S.ensure_unchanged(c.table, before_t, "channel table")


# ---------------------------------------------------------------- self emission and foreground signals
from ._common import rebinned, defined, REBIN

D = "exorad.utils.diffuse_light_propagation:"
W_M2 = "W / (m2 um)"


def detector_side(S, slit=False, grid=None, apart=False):
    """channel description, built parameters and table as the rest of the chain prepares them; apart: the efficiency and
    the transmission of the channel may be sampled on a grid of their own (they are returned resampled on the radiance's)"""
    u = S.u
    desc = {"Fnum_x": {"value": S.real("Fx", lo=0.6, hi=60) * u.dimensionless_unscaled},
            "detector": {"delta_pix": {"value": length(S, S.real("pix", lo=2, hi=40, unit="um"))}}}
    if S.flag("has_Fnum_y"): desc["Fnum_y"] = {"value": S.real("Fy", lo=0.6, hi=60) * u.dimensionless_unscaled}
    k = S.dim("K", lo=1, hi=3)
    t = S.QTable()
    t["chName"] = S.strs("chName", k, values=["Ch"])
    if grid is None: n, grid = wl_grid(S, "grid", lo=4)
    n = grid.size
    built = {}
    built["window_size_px"] = S.arr("win", k, lo=1, hi=300)
    t["WindowSize"] = built["window_size_px"]
    own = S.choose("sampling of the channel", ["same", "other", "other size"]) if apart else "same"
    g = grid if own == "same" else sampled_around(S, "built_grid", n if own == "other" else S.dim("G", lo=4), grid)
    qe = S.arr("qe", g.size, lo=0, hi=1)
    tr = S.arr("trans", g.size, lo=0, hi=1)
    built["qe_data"] = {"wl_grid": {"value": g.value, "unit": "um"}, "data": {"value": qe, "unit": ""}}
    built["transmission_data"] = {"wl_grid": {"value": g.value, "unit": "um"}, "data": {"value": tr, "unit": ""}}
    S.ghost["built qe"] = (g, qe)
    if own != "same":
        qe, tr = defined(S, rebinned(S, grid, g, qe)), defined(S, rebinned(S, grid, g, tr))
        if not S.symbolic: qe, tr = qe.value, tr.value
    if slit:
        m = S.dim("PIX", lo=6, hi=14)
        if S.symbolic:
            built["wl_pix_center"] = S.arr("wl_pix", m, unit="um", pos=True)
            t["Wavelength"] = S.arr("bin_wl", k, unit="um", increasing=True, lo=0.4, hi=9)
            w = S.arr("bin_w", k, unit="um", pos=True, lo=0.01, hi=0.3)
            t["LeftBinEdge"], t["RightBinEdge"] = t["Wavelength"] - 0.5 * w, t["Wavelength"] + 0.5 * w
        else:
            # pixels spread over the grid, bins over the pixels
            g = grid.value
            built["wl_pix_center"] = S.np.linspace(g[0] * 1.001, g[-1] * 0.999, m) * u.um
            ed = S.np.linspace(g[0], g[-1], k + 1)
            if k > 1 and S.flag("edges on pixels"): ed[1:-1] = [built["wl_pix_center"].value[(j * m) // k] for j in range(1, k)]
            t["Wavelength"] = 0.5 * (ed[1:] + ed[:-1]) * u.um
            t["LeftBinEdge"], t["RightBinEdge"] = ed[:-1] * u.um, ed[1:] * u.um
        built["pixel_bandwidth"] = S.arr("wl_bw", m, unit="um", pos=True, lo=1e-3, hi=0.1)
        built["window_spatial_width"] = S.arr("win_sp", k, lo=1, hi=30)
        built["slit_width"] = S.real("slit_px", lo=1, hi=14) * desc["detector"]["delta_pix"]["value"]
        px = built["wl_pix_center"]
        ratio = (built["slit_width"] / desc["detector"]["delta_pix"]["value"]).to("")
        S.assume(ratio <= m)
        no_rounding(S, ratio)
        S.assume(S.np.all(S.map(k, lambda i: S.np.any(S.np.logical_and(px > t["LeftBinEdge"][i], px <= t["RightBinEdge"][i])))))
    else:
        t["Wavelength"] = S.arr("bin_wl", k, unit="um", increasing=True, lo=0.4, hi=9)
        w = S.arr("bin_w", k, unit="um", pos=True, lo=0.01, hi=0.3)
        t["LeftBinEdge"], t["RightBinEdge"] = t["Wavelength"] - 0.5 * w, t["Wavelength"] + 0.5 * w
    return desc, built, t, grid, qe, tr, k


def omega_of(S, desc):
    fy = desc["Fnum_y"]["value"].value if "Fnum_y" in desc else None
    return S.fn("exorad.utils.exolib:OmegaPix")(desc["Fnum_x"]["value"].value, fy)


def photons(S, wl):
    """photons per joule at each wavelength: lambda / (h c)"""
    from astropy import constants as const
    return (wl / (const.h * const.c)).to(1 / S.u.J) * S.u.ct


def diffuse_rate(S, desc, grid, rad, qe, omega):
    """counts per second in one pixel from a radiance seen over a solid angle"""
    pix = desc["detector"]["delta_pix"]["value"]
    return (S.np.trapz(rad * qe * photons(S, grid), x=grid) * omega * pix * pix).to(S.u.ct / S.u.s)


def slit_rate(S, desc, built, t, grid, rad, qe, omega, qgrid=None):
    """(per bin signal, per bin largest pixel) of a radiance dispersed through a slit"""
    px, bw = built["wl_pix_center"], built["pixel_bandwidth"]
    pix = desc["detector"]["delta_pix"]["value"]
    ru = S.u.W / S.u.m ** 2 / S.u.um / S.u.sr
    r = defined(S, rebinned(S, px, grid, rad.to(ru).value)) * ru
    q = interp0(S, grid if qgrid is None else qgrid, qe, px)
    f = (r * q * photons(S, px) * bw * omega * pix * pix).to(S.u.ct / S.u.s)
    ns = S.np.floor((built["slit_width"] / pix).to("")) if S.symbolic else int((built["slit_width"] / pix).to(""))
    if S.symbolic:
        from ..sym import Sym
        ns = Sym.scalar(ns.term(), kind="i")
    c = S.np.convolve(f, S.np.ones(ns), "same")
    sel = lambda k: S.np.logical_and(px > t["LeftBinEdge"][k], px <= t["RightBinEdge"][k])
    n = built["window_spatial_width"].size
    sig = S.map(n, lambda k: S.np.sum(c[sel(k)]) * built["window_spatial_width"][k])
    mx = S.map(n, lambda k: S.np.max(c[sel(k)]))
    return sig, mx


# (position, upstream of a slit)
SOURCES = [[], [("path", False)], [("optics box", False), ("detector", False)], [("path", False), ("path", False), ("detector", False)]]


@contract("C09", [P + "OpticalPath.compute_signal", D + "prepare", D + "integrate_light"], stubs=dict(REBIN),
          bounds="up to 3 emitting elements; any grid and table", samples=40)
def self_emission_signal(S):
    u = S.u
    desc, built, t, grid, qe, tr, k = detector_side(S, apart=True)
    conf = S.choose("sources", SOURCES)
    desc["optics"] = {}
    p = S.fn(P + "OpticalPath")(desc, grid)
    n = grid.size
    custom = S.flag("custom_angle")
    rad = {}
    for i, (pos, slit) in enumerate(conf):
        rad[i] = S.arr("rad%d" % i, n, nonneg=True, unit="W / (m2 um sr)")
        r = S.fn(P + "InstRadiance")(wl_grid=grid, data=rad[i])
        r.position = pos
        if custom: r.angle = S.real("ang%d" % i, lo=1e-3, hi=3, unit="sr")
        p.radiance_dict["e%d" % i] = r
    b_r, b_b, b_t = S.snapshot({a: b.data for a, b in p.radiance_dict.items()}), S.snapshot(built), S.snapshot(t)
    out = p.compute_signal(t, built)
    om = omega_of(S, desc)
    tot = S.np.zeros(k) * u.ct / u.s
    mx = S.np.zeros(k) * u.ct / u.s
    for i, (pos, slit) in enumerate(conf):
        ang = {"path": om, "detector": S.np.pi * u.sr, "optics box": S.np.pi * u.sr - om}[pos]
        if custom: ang = p.radiance_dict["e%d" % i].angle
        s = diffuse_rate(S, desc, grid, rad[i], qe, ang)
        S.ensure_eq(p.signal_table["e%d signal" % i], s * built["window_size_px"], "signal of element %d (%s)" % (i, pos))
        S.ensure_eq(p.max_signal_per_pixel["e%d" % i], s * S.np.ones(k), "signal per pixel of element %d (%s)" % (i, pos))
        tot, mx = tot + s * built["window_size_px"], mx + s * S.np.ones(k)
    S.ensure_eq(out["instrument_signal"], tot, "instrument signal is the sum over the emitting elements")
    S.ensure_eq(out["instrument_MaxSignal_inPixel"], mx, "instrument signal per pixel is the sum over the emitting elements")
    S.ensure(sorted(out.keys()) == sorted(list(b_t["__table__"]) + ["instrument_signal", "instrument_MaxSignal_inPixel"]), "channel columns are kept")
    S.ensure_unchanged({a: b.data for a, b in p.radiance_dict.items()}, b_r, "element radiances")
    S.ensure_unchanged(built, b_b, "built parameters")
    S.ensure_unchanged(t, b_t, "channel table")


@contract("C09", [P + "OpticalPath.compute_signal", D + "prepare", D + "convolve_with_slit"], stubs=dict(REBIN),
          bounds="one element before and one after the slit; any grid, pixels and table", samples=40)
def self_emission_through_slit(S):
    u = S.u
    desc, built, t, grid, qe, tr, k = detector_side(S, slit=True, apart=True)
    desc["optics"] = {}
    p = S.fn(P + "OpticalPath")(desc, grid)
    n = grid.size
    ra = S.arr("ra", n, nonneg=True, unit="W / (m2 um sr)")
    rb = S.arr("rb", n, nonneg=True, unit="W / (m2 um sr)")
    a = S.fn(P + "InstRadiance")(wl_grid=grid, data=ra); a.slit = True
    a.position = S.choose("place of the element before the slit", ["path", "optics box"])
    b = S.fn(P + "InstRadiance")(wl_grid=grid, data=rb); b.position = "detector"
    if S.flag("custom_angle"): a.angle = S.real("ang", lo=1e-3, hi=3, unit="sr")
    p.radiance_dict["before"], p.radiance_dict["after"] = a, b
    out = p.compute_signal(t, built)
    om = omega_of(S, desc) if a.angle is None else a.angle
    sa, ma = slit_rate(S, desc, built, t, grid, ra, qe, om)
    s2 = diffuse_rate(S, desc, grid, rb, qe, S.np.pi * u.sr)
    S.ensure_eq(p.signal_table["before signal"], sa, "element before the slit is dispersed")
    S.ensure_eq(p.max_signal_per_pixel["before"], ma, "largest pixel of the element before the slit")
    S.ensure_eq(p.signal_table["after signal"], s2 * built["window_size_px"], "element after the slit is not dispersed")
    S.ensure_eq(out["instrument_signal"], sa + s2 * built["window_size_px"], "instrument signal")
    S.ensure_eq(out["instrument_MaxSignal_inPixel"], ma + s2 * S.np.ones(k), "instrument signal per pixel")


# (has its own transmission)
FOREGROUNDS = [[], [False], [True, False], [False, True], [True, True, False]]


class _Sky:
    pass


@contract("C10", [I + "Instrument.propagate_diffuse_foreground", D + "prepare", D + "integrate_light"], stubs=dict(REBIN),
          bounds="up to 3 foregrounds; any grid and table", samples=40)
def foreground_signal(S):
    u = S.u
    desc, built, t, grid, qe, tr, k = detector_side(S, apart=True)
    conf = S.choose("foregrounds", FOREGROUNDS)
    c = channel(S, {}, desc)
    c.table, c.built_instr = t, built
    tgt = _Sky()
    tgt.foreground = OrderedDict()
    rad, tau = [], []
    n = grid.size
    Rad = S.fn("exorad.models.foregrounds.skyForegrounds:SkyFilter")
    label = ["milky way", "zodi", "earth sky"]
    for i, has in enumerate(conf):
        rad.append(S.arr("rad%d" % i, n, nonneg=True, unit="W / (m2 um sr)"))
        r = Rad(wl_grid=grid, data=rad[i])
        tau.append(S.arr("tau%d" % i, n, lo=0, hi=1) if has else None)
        if has: r.transmission = tau[i]
        tgt.foreground[label[i]] = r
    sky = {a: (b.data, b.transmission) for a, b in tgt.foreground.items()}
    b_s, b_b, b_t = S.snapshot(sky), S.snapshot(built), S.snapshot(t)
    out = c.propagate_diffuse_foreground(tgt)
    om = omega_of(S, desc)
    names = []
    for i in reversed(range(len(conf))):
        r = rad[i] * tr
        for j in range(i + 1, len(conf)):
            if tau[j] is not None: r = r * tau[j]
        s = diffuse_rate(S, desc, grid, r, qe, om)
        S.ensure_eq(out[label[i] + "_signal"], s * built["window_size_px"],
                    "foreground %d is dimmed by every foreground closer to the telescope and by the optics" % i)
        S.ensure_eq(out[label[i] + "_MaxSignal_inPixel"], s * S.np.ones(k), "signal per pixel of foreground %d" % i)
        names += [label[i] + "_signal", label[i] + "_MaxSignal_inPixel"]
    S.ensure(sorted(out.keys()) == sorted(names), "one pair of columns per foreground")
    now = {a: (b.data, b.transmission) for a, b in tgt.foreground.items()}
    S.ensure_unchanged(now, b_s, "foregrounds of the target")
    S.ensure_unchanged(built, b_b, "built parameters")
    S.ensure_unchanged(t, b_t, "channel table")


@contract("C10", [I + "Instrument.propagate_diffuse_foreground", D + "prepare", D + "convolve_with_slit"], stubs=dict(REBIN),
          bounds="two foregrounds; any grid, pixels and table", samples=40)
def foreground_through_slit(S):
    u = S.u
    desc, built, t, grid, qe, tr, k = detector_side(S, slit=True, apart=True)
    c = channel(S, {}, desc)
    c.table, c.built_instr = t, built
    tgt = _Sky()
    tgt.foreground = OrderedDict()
    n = grid.size
    Rad = S.fn("exorad.models.foregrounds.skyForegrounds:SkyFilter")
    r0 = S.arr("rad0", n, nonneg=True, unit="W / (m2 um sr)")
    r1 = S.arr("rad1", n, nonneg=True, unit="W / (m2 um sr)")
    tau = S.arr("tau1", n, lo=0, hi=1)
    tgt.foreground["far"] = Rad(wl_grid=grid, data=r0)
    tgt.foreground["near"] = Rad(wl_grid=grid, data=r1)
    tgt.foreground["near"].transmission = tau
    out = c.propagate_diffuse_foreground(tgt)
    om = omega_of(S, desc)
    for nm, r in (("far", r0 * tr * tau), ("near", r1 * tr)):
        s, m = slit_rate(S, desc, built, t, grid, r, S.ghost["built qe"][1], om, S.ghost["built qe"][0])
        S.ensure_eq(out[nm + "_signal"], s, "dispersed signal of the %s foreground" % nm)
        S.ensure_eq(out[nm + "_MaxSignal_inPixel"], m, "largest pixel of the %s foreground" % nm)


# ---------------------------------------------------------------- the whole optical path of a channel
# (type, emits) of the common elements and of the channel's own
CHAINS = [
    ([], []),
    ([("surface", True)], []),
    ([], [("surface", True), ("filter", False)]),
    ([("surface", True), ("filter", False)], [("surface", True), ("detector box", True)]),
    ([("surface", True)], [("slit", False), ("surface", True), ("optics box", True)]),
    ([("filter", False)], [("surface", True), ("slit", True), ("surface", False)]),
]


@contract("C07", [P + "OpticalPath.__init__", P + "OpticalPath._wl_grid_refinement", P + "OpticalPath.build_transmission_table"])
def path_of_one_wavelength(S):
    """a path built for a single wavelength covers the range of its detector; any other grid is kept"""
    np, u = S.np, S.u
    pv = S.mod("exorad.utils.passVal").PassVal
    pv.working_R = S.dim("working_R", lo=3, hi=12)
    lo, cut = length(S, S.real("det_wl_min", lo=0.4, hi=1, unit="um")), length(S, S.real("cut_off", lo=4, hi=9, unit="um"))
    n = S.choose("wavelengths", [1, 2, 3])
    wl = S.arr("wl", n, unit="um", pos=True, increasing=True, lo=0.3, hi=10)
    d = {"detector": {"wl_min": {"value": lo}, "cut_off": {"value": cut}}, "optics": {}}
    d["optics"], pars = described_elements(S, [("surface", True), ("filter", False)], "c")
    p = S.fn(P + "OpticalPath")(d, wl)
    t = p.build_transmission_table()
    grid = np.logspace(np.log10(lo.to(u.um).value), np.log10(cut.to(u.um).value), pv.working_R) * u.um if n == 1 else wl
    S.ensure_eq(t["Wavelength"], grid, "wavelengths of the path")
    S.ensure_eq(t["total"], pars[0]["tr"] * pars[1]["tr"] * np.ones(grid.size), "transmission on them")


def described_elements(S, conf, pre):
    """descriptions of optical elements with any constant transmission, emissivity and temperature"""
    d, pars = OrderedDict(), []
    for i, (typ, emits) in enumerate(conf):
        nm = "%s%d" % (pre, i)
        p = dict(name=nm, type=typ, tr=S.real("tr_" + nm, lo=0.1, hi=1), em=S.real("em_" + nm, lo=0.01, hi=1), T=None)
        e = OrderedDict(value=nm, type={"value": typ}, transmission={"value": p["tr"]}, emissivity={"value": p["em"]})
        if emits:
            p["T"] = S.real("T_" + nm, lo=50, hi=400, unit="K")
            e["temperature"] = {"value": p["T"]}
        if typ == "slit":
            e["width"] = None       # set by the caller
        d[nm] = e
        pars.append(p)
    return ({"opticalElement": d} if conf else {}), pars


def built_channel_path(S):
    """runs Instrument.build_optical_path on any description; returns what the parts of the claim need"""
    u, np = S.u, S.np
    com, own = S.choose("elements", CHAINS)
    pv = S.mod("exorad.utils.passVal").PassVal
    pv.working_R = S.dim("working_R", lo=6, hi=12)
    lo, cut = length(S, S.real("det_wl_min", lo=0.4, hi=1, unit="um")), length(S, S.real("cut_off", lo=4, hi=9, unit="um"))
    grid = np.logspace(np.log10(lo.to(u.um).value), np.log10(cut.to(u.um).value), pv.working_R) * u.um
    slit = any(t == "slit" for t, _ in com + own)
    desc, built, t, grid_, qe, tr, k = detector_side(S, slit=slit, grid=grid)
    del built["transmission_data"]
    desc["detector"]["wl_min"], desc["detector"]["cut_off"] = {"value": lo}, {"value": cut}
    pix = desc["detector"]["delta_pix"]["value"]
    payload = {}
    payload["optics"], a = described_elements(S, com, "t")
    desc["optics"], b = described_elements(S, own, "c")
    for e in list(payload["optics"].get("opticalElement", {}).values()) + list(desc["optics"].get("opticalElement", {}).values()):
        if "width" in e:
            e["width"] = {"value": length(S, built["slit_width"])}
    width = built.pop("slit_width", None)
    c = channel(S, payload, desc)
    c.table, c.built_instr = t, built
    before = S.snapshot(t)
    c.build_optical_path()
    S.ensure(sorted(c.table.keys()) == sorted(list(before["__table__"]) + ["TR", "instrument_signal", "instrument_MaxSignal_inPixel"]), "columns of the channel table")
    return c, desc, built, grid, qe, a + b, k, width


WHOLE = [I + "Instrument.build_optical_path", I + "Instrument._get_transmission", I + "Instrument._add_data_to_built"]


@contract("C07", WHOLE + [P + "OpticalPath.__init__", P + "OpticalPath._prepare_elements", P + "OpticalPath.prepend_optical_elements",
                          P + "OpticalPath.build_transmission_table", P + "OpticalPath._wl_grid_refinement", E + "OpticalElement._get_transmission"],
          stubs=dict(REBIN), samples=60, bounds="up to 2+3 optical elements; any grid, table and description")
def channel_path_transmission(S):
    c, desc, built, grid, qe, els, k, width = built_channel_path(S)
    n = grid.size
    tot = S.np.ones(n)
    tab = c.built_instr["optical_path"]["transmission_table"]
    for e in els:
        S.ensure_eq(tab[e["name"]], e["tr"] * S.np.ones(n), "transmission of %s" % e["name"])
        tot = tot * e["tr"]
    S.ensure([x for x in tab.keys() if x not in ("Wavelength", "total", "noElement")] == [e["name"] for e in els], "every element is in the path, common ones first")
    S.ensure_eq(tab["total"], tot, "total transmission of the path")
    S.ensure_eq(tab["Wavelength"], grid, "the path covers the range of the detector")
    d = c.built_instr["transmission_data"]
    S.ensure_eq(d["data"]["value"], tot, "transmission handed to the signal propagation")
    S.ensure_eq(d["wl_grid"]["value"], grid.value, "its wavelengths"); S.ensure(S.u.Unit(d["wl_grid"]["unit"]) == S.u.um, "its unit")
    t = c.table
    S.ensure_eq(t["TR"], bin_mean(S, k, t["Wavelength"], interp0(S, grid, tot, t["Wavelength"]), t["LeftBinEdge"], t["RightBinEdge"]), "transmission of the bins")


@contract("C08", WHOLE + [P + "OpticalPath.chain", P + "OpticalPath.prepend_optical_elements", P + "surface_radiance", E + "OpticalElement._get_emissivity",
                          E + "OpticalElement._get_temperature"],
          stubs=dict(REBIN), samples=60, bounds="up to 2+3 optical elements; any grid, table and description")
def channel_path_emission(S):
    c, desc, built, grid, qe, els, k, width = built_channel_path(S)
    n = grid.size
    tab = c.built_instr["optical_path"]["radiance_table"]
    S.ensure([x for x in tab.keys() if x != "Wavelength"] == [e["name"] for e in els if e["T"] is not None], "exactly the elements with a temperature emit")
    for i, r in path_radiances(S, grid, els): S.ensure_eq(tab[els[i]["name"]], r, "emission of %s dimmed by what follows" % els[i]["name"])
    S.ensure(("slit_width" in c.built_instr) == any(e["type"] == "slit" for e in els), "a slit is handed to the signal propagation")
    if "slit_width" in c.built_instr: S.ensure_eq(c.built_instr["slit_width"], width, "width of the slit")


def path_radiances(S, grid, els):
    planck = S.fn("exorad.utils.exolib:planck")
    for i, e in enumerate(els):
        if e["T"] is None: continue
        r = e["em"] * S.np.ones(grid.size) * planck(grid, e["T"])
        for o in els[i + 1:]: r = r * o["tr"]
        yield i, r


@contract("C09", WHOLE + [P + "OpticalPath.compute_signal", D + "prepare", D + "integrate_light", D + "convolve_with_slit"],
          stubs=dict(REBIN), samples=60, bounds="up to 2+3 optical elements; any grid, table and description")
def channel_path_signal(S):
    u = S.u
    c, desc, built, grid, qe, els, k, width = built_channel_path(S)
    om = omega_of(S, desc)
    tot = S.np.zeros(k) * u.ct / u.s
    mx = S.np.zeros(k) * u.ct / u.s
    op = c.built_instr["optical_path"]
    for i, r in path_radiances(S, grid, els):
        e = els[i]
        if any(o["type"] == "slit" for o in els[i + 1:]):
            s, m = slit_rate(S, desc, c.built_instr, c.table, grid, r, qe, om)
        else:
            m = diffuse_rate(S, desc, grid, r, qe, {"detector box": S.np.pi * u.sr, "optics box": S.np.pi * u.sr - om}.get(e["type"], om))
            s, m = m * c.built_instr["window_size_px"], m * S.np.ones(k)
        S.ensure_eq(op["signal_table"][e["name"] + " signal"], s, "signal of %s" % e["name"])
        S.ensure_eq(op["max_signal_per_pixel"][e["name"]], m, "largest pixel of %s" % e["name"])
        tot, mx = tot + s, mx + m
    S.ensure_eq(c.table["instrument_signal"], tot, "instrument signal of the channel")
    S.ensure_eq(c.table["instrument_MaxSignal_inPixel"], mx, "instrument signal per pixel of the channel")
