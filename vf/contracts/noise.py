"""Noise budget: C01 shot noise, C02 total noise, C03 custom noise, C04 saturation, C05 multiaccum."""
from collections import OrderedDict
from ..dsl import contract
from ._common import rebinned, defined, REBIN, sampled_around

N = "exorad.models.noise:"
H = "exorad.tasks.noiseHandler:"

SIG_SETS = [
    [],
    ["star_signal_inAperture"],
    ["star_signal", "instrument_signal"],
    ["stray signal_signal", "star_signal_inAperture", "M1 signal"],
    ["total zodi_signal", "noMax_signal"],
]


def target_table(S, extra=(), sigs=None, nonneg=True):
    """table of N rows over several channels, some columns of which are signals"""
    u = S.u
    n = S.dim("N", lo=1)
    t = S.QTable()
    t["chName"] = S.strs("chName", n, values=["A", "A", "AB", "BA", "B"])
    t["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    for c, unit in (("Bandwidth", "um"), ("LeftBinEdge", "um"), ("RightBinEdge", "um"), ("QE", None), ("TR", None), ("starFlux", "W / m2"), ("starSignal", "ct/s")):
        t[c] = S.arr("c_" + c, n, unit=unit, nonneg=True)
    t["WindowSize"] = S.arr("win", n, lo=1, hi=400)
    for s in sigs:
        t[s] = S.arr("sig_" + s, n, unit="ct/s", nonneg=True)
    for nm, unit in extra:
        t[nm] = S.arr("x_" + nm, n, unit=unit, nonneg=True)
    return n, t


def row_mask(S, t, name):
    return t["chName"] == name


@contract("C01", [N + "photon_noise"], bounds="up to 3 signal columns; any number of rows and channels")
def shot_noise_columns(S):
    u = S.u
    sigs = S.choose("signals", SIG_SETS)
    n, t = target_table(S, sigs=sigs, extra=[("MaxSignal_inPixel", "ct/s"), ("stray signal_MaxSignal_inPixel", "ct/s")])
    if S.flag("estimated before"):
        for s in sigs: t[s + "_noise"] = S.arr("old_" + s, n, unit=u.ct / u.s * u.hr ** 0.5, nonneg=True)
    g = S.real("shot_gain", pos=True)
    out = S.QTable()
    sel = t["chName"] == "A"
    out["frameTime"] = S.arr("ft", n, unit="s", pos=True)[sel]
    before_t = S.snapshot(t)
    before_f = S.snapshot(out["frameTime"])
    r = S.fn(N + "photon_noise")(t, {"value": "A"}, g, out)
    S.ensure_eq(sorted(r.keys()), sorted(["frameTime"] + [s + "_noise" for s in sigs]), "one noise column per signal column")
    for s in sigs:
        q = r[s + "_noise"]
        S.ensure_eq(q ** 2, g * t[s][sel] * u.ct, "variance of %s is gain x signal" % s)
        S.ensure_all(q >= 0 * q, "noise of %s is not negative" % s)
    S.ensure_unchanged(t, before_t, "target table")
    S.ensure_unchanged(r["frameTime"], before_f, "other output columns")


@contract("C01", [N + "photon_noise_variance"], bounds="up to 3 signal columns; any number of rows")
def shot_noise_variance_sum(S):
    u = S.u
    sigs = S.choose("signals", SIG_SETS)
    n = S.dim("N", lo=1)
    t = S.QTable()
    t["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    for s in sigs: t[s] = S.arr("sig_" + s, n, unit="ct/s", nonneg=True)
    t["stray signal_MaxSignal_inPixel"] = S.arr("max", n, unit="ct/s", nonneg=True)
    if S.flag("estimated before"):
        for s in sigs: t[s + "_noise"] = S.arr("old_" + s, n, unit=u.ct / u.s * u.hr ** 0.5, nonneg=True)
    out = S.QTable()
    k = S.dim("K", lo=1)
    out["frameTime"] = S.arr("ft", k, unit="s", pos=True)
    tot = S.np.zeros(k) * (u.ct / u.s) ** 2 * u.hr
    for s in sigs:
        out[s + "_noise"] = S.arr("n_" + s, k, unit=u.ct / u.s * u.hr ** 0.5, nonneg=True)
        tot = tot + out[s + "_noise"] ** 2
    before = S.snapshot(out)
    v = S.fn(N + "photon_noise_variance")(t, out)
    S.ensure_eq(v, tot, "sum of the variances of every signal column")
    S.ensure_unchanged(out, before, "noise table")


@contract("C05", [N + "multiaccum"])
def multiaccum_gains(S):
    u = S.u
    t = S.real("t_frame", lo=1e-3, hi=1e4, unit=S.choose("unit of time", ["s", "ms", "min"]))
    f = S.real("freq", lo=1e-3, hi=1e3, unit=S.choose("unit of frequency", ["Hz", "kHz", "1 / min"]))
    det = {"freqNDR": {"value": f}}
    m = 1
    if S.flag("hasM"):
        m = S.integer("m", lo=1, hi=64)
        det["multiaccumM"] = {"value": m}
    n = S.np.floor((t * f).to(""))
    n = S.ite(n < 2, 2.0, n)
    rg, sg = S.fn(N + "multiaccum")({"detector": det}, t)
    S.ensure_eq(rg, 12 * (n - 1) / (n * (n + 1)) / m, "read gain")
    S.ensure_eq(sg, 6 * (n ** 2 + 1) / (5 * n * (n + 1)), "shot gain")
    S.ensure_all(sg >= 1, "correlated sampling never lowers the shot noise below a single exposure")


class _Target:
    name = "t"


def detector(S, frame_time=None):
    other = S.flag("units other than count and second")
    ct, rate, time, freq = ("kct", "ct/h", "ms", "1 / min") if other else ("ct", "ct/s", "s", "Hz")
    det = {"well_depth": {"value": S.real("well", lo=1e2, hi=1e6, unit=ct)},
           "f_well_depth": {"value": S.real("fwell", lo=0.01, hi=1)},
           "dark_current": {"value": S.real("dark", lo=0, hi=100, unit=rate)},
           "read_noise": {"value": S.real("ron", lo=0, hi=50, unit="ct")},
           "freqNDR": {"value": S.real("freq", lo=1e-3, hi=1e2, unit=freq)}}
    if frame_time:
        det["frame_time"] = {"value": S.real("ft", lo=1e-2, hi=1e3, unit=time)}
    return det


@contract("C04", [N + "frame_time"])
def saturation_and_frame_time(S):
    u = S.u
    n, t = target_table(S, sigs=["star_signal_inAperture", "instrument_signal"])
    t["MaxSignal_inPixel"] = S.arr("maxsig", n, unit="ct/s", pos=True)
    sel = t["chName"] == "A"
    S.assume(S.np.any(sel))
    fixed = S.flag("fixed_frame_time")
    det = detector(S, fixed)
    tgt = _Target(); tgt.table = t
    before = S.snapshot(t)
    out = S.fn(N + "frame_time")(tgt, {"value": "A", "detector": det}, S.QTable())
    sat = det["well_depth"]["value"] / t["MaxSignal_inPixel"][sel]
    S.ensure_eq(sorted(out.keys()), ["frameTime", "saturation_time"], "columns")
    S.ensure_eq(out["saturation_time"], sat, "saturation time is well depth over the largest pixel signal")
    if fixed:
        S.ensure_eq(out["frameTime"], det["frame_time"]["value"] * S.np.ones(sat.size), "configured frame time is used for every bin")
    else:
        S.ensure_eq(out["frameTime"], det["f_well_depth"]["value"] * S.np.min(sat) * S.np.ones(sat.size),
                    "frame time is the filling fraction of the fastest saturating bin")
        S.ensure_all(out["frameTime"] <= sat, "no bin saturates within the frame time")
    S.ensure_unchanged(t, before, "target table")


def gains(S, det, ft):
    n = S.np.floor((ft * det["freqNDR"]["value"]).to(""))
    n = S.ite(n < 2, 2.0, n)
    return 12 * (n - 1) / (n * (n + 1)), 6 * (n ** 2 + 1) / (5 * n * (n + 1))


SIG_SMALL = [["star_signal_inAperture"], ["zodi_signal", "star_signal_inAperture", "M1_signal"]]


@contract("C02", [H + "EstimateNoiseInChannel.execute", N + "photon_noise", N + "photon_noise_variance", N + "frame_time", N + "multiaccum",
                  N + "add_custom_noise"], bounds="up to 3 signal columns; any number of rows")
def channel_noise_budget(S):
    u = S.u
    sigs = S.choose("signals", SIG_SMALL)
    n, t = target_table(S, sigs=sigs)
    t["MaxSignal_inPixel"] = S.arr("maxsig", n, unit="ct/s", pos=True)
    if S.flag("zero_signal") and not S.symbolic:
        t["star_signal_inAperture"][0] = 0 * u.ct / u.s
        t["chName"][0] = "A"
    sel = t["chName"] == "A"
    S.assume(S.np.any(sel))
    det = detector(S, S.flag("fixed"))
    ch = {"value": "A", "detector": det}
    X = 0.0
    if S.flag("hasX"):
        X = S.real("NoiseX", lo=0, hi=3)
        ch["NoiseX"] = {"value": X}
    tgt = _Target(); tgt.table = t
    before = S.snapshot(t)
    payload = S.choose("payload", [None, {"common": {}}])
    out = S.fn(H + "EstimateNoiseInChannel")()(target=tgt, channel=ch, payload=payload)
    sat = det["well_depth"]["value"] / t["MaxSignal_inPixel"][sel]
    ft = det["frame_time"]["value"] if "frame_time" in det else det["f_well_depth"]["value"] * S.np.min(sat)
    rg, sg = gains(S, det, ft)
    W = t["WindowSize"][sel]
    dark = sg * W * det["dark_current"]["value"] * u.ct
    read = rg * det["read_noise"]["value"] ** 2 * W / ft
    S.ensure_eq(out["darkcurrent_noise"] ** 2, dark, "dark current noise variance")
    S.ensure_eq(out["read_noise"] ** 2, read, "read noise variance")
    phot = 0 * dark
    for s in sigs:
        S.ensure_eq(out[s + "_noise"] ** 2, sg * t[s][sel] * u.ct, "photon noise of %s" % s)
        phot = phot + sg * t[s][sel] * u.ct
    sig = t["star_signal_inAperture"][sel]
    zero = sig == 0 * u.ct / u.s
    tot = out["total_noise"]
    S.ensure_eq(S.np.isnan(tot), zero, "total noise is undefined exactly where the star gives no signal")
    var = (dark + (1 + X) * phot + read).to(u.ct ** 2 / u.s).value
    sv = sig.to(u.ct / u.s).value
    S.ensure_eq(S.ite(zero, 0.0, (tot.to(u.s ** 0.5).value) ** 2 * sv ** 2), S.ite(zero, 0.0, var), "total noise budget")
    S.ensure_all(S.ite(zero, 0.0, tot.value) >= 0, "noise is not negative")
    S.ensure_eq(tot.unit, u.hr ** 0.5, "noise unit") if not S.symbolic else None
    S.ensure_unchanged(t, before, "target table")


CUSTOM = ["none", "single", "several"]


def custom_noise(S, kind, tag):
    """custom noise description as the parser produces it, with its list of (name, ppm)"""
    if kind == "none": return None, []
    if kind == "single":
        v = S.real("ppm_" + tag, lo=0, hi=1000)
        return {"value": v, "name": {"value": tag + "0"}}, [(tag + "0", v)]
    items = OrderedDict()
    vals = []
    for i in range(2 if kind == "several" else 3):
        v = S.real("ppm_%s%d" % (tag, i), lo=0, hi=1000)
        items["c%d" % i] = {"value": v, "name": {"value": "%s%d" % (tag, i)}}
        vals.append(("%s%d" % (tag, i), v))
    return items, vals


@contract("C03", [N + "add_custom_noise"], bounds="up to 3 custom noise entries; any number of bins")
def custom_noise_quadrature(S):
    u = S.u
    kind = S.choose("kind", ["single", "several", "three"])
    desc, vals = custom_noise(S, kind, "x")
    n = S.dim("N", lo=1)
    out = S.QTable()
    t0 = S.arr("tot", n, unit=u.hr ** 0.5, lo=0, hi=1)
    out["other"] = S.arr("oth", n, unit=u.s, nonneg=True)
    out["total_noise"] = t0.copy()
    wl = S.arr("wl", n, unit="um", pos=True)
    r = S.fn(N + "add_custom_noise")(desc, wl, out)
    tot = t0 ** 2
    for nm, v in vals:
        S.ensure_eq(r[nm + "_noise"], v * 1e-6 * S.np.ones(n) * u.hr ** 0.5, "custom noise column %s in parts per million" % nm)
        tot = tot + (v * 1e-6) ** 2 * S.np.ones(n) * u.hr
    S.ensure_eq(r["total_noise"] ** 2, tot, "custom noise adds in quadrature")
    S.ensure_eq(sorted(r.keys()), sorted(["other", "total_noise"] + [nm + "_noise" for nm, v in vals]), "columns")
    S.ensure_eq(r["other"], S.arr("oth", n, unit=u.s, nonneg=True) if S.symbolic else out["other"], "other columns untouched")


@contract("C03", [N + "add_custom_noise", N + "Noise.__init__", "exorad.models.signal:Signal.spectral_rebin"], stubs=dict(REBIN),
          bounds="one data file with up to 2 noise columns, alone or listed with a constant entry; any sampling and number of bins", samples=40)
def custom_noise_data_file(S):
    u = S.u
    lst = S.choose("kind", ["alone", "before a constant", "after a constant"])
    nd, n = S.dim("D", lo=4), S.dim("N", lo=1)
    wl = S.arr("wl", n, unit="um", pos=True, increasing=True, lo=0.6, hi=7)
    grid = sampled_around(S, "dwl", nd, wl)
    tab = S.QTable()
    cols, at = S.choose("cols", [(["jitter"], 0), (["jitter"], 1), (["jitter", "gain"], 0), (["jitter", "gain"], 1), (["jitter", "gain"], 2),
                                  (["Wavelength jitter"], 0), (["wl_err", "wavelength"], 0)])
    for i, c in enumerate(cols + [None]):
        if i == at: tab["Wavelength"] = grid
        if c: tab[c] = S.arr("d_" + c, nd, lo=0, hi=1e-3) * (u.hr ** 0.5 if S.flag("has_unit") else 1)
    entry = {"value": "custom", "data": tab, "datafile": {"value": "x.csv"}}
    v = S.real("ppm", lo=0, hi=1000)
    const = {"value": v, "name": {"value": "k"}}
    desc = {"alone": lambda: entry, "before a constant": lambda: OrderedDict([("custom", entry), ("c", const)]),
            "after a constant": lambda: OrderedDict([("c", const), ("custom", entry)])}[lst]()
    out = S.QTable()
    t0 = S.arr("tot", n, unit=u.hr ** 0.5, lo=0, hi=1)
    out["total_noise"] = t0.copy()
    before, before_wl = S.snapshot(tab), S.snapshot(wl)
    r = S.fn(N + "add_custom_noise")(desc, wl, out)
    tot = t0 ** 2
    for c in cols:
        e = defined(S, rebinned(S, wl, grid, (tab[c].value if hasattr(tab[c], "value") else tab[c]) * u.hr ** 0.5))
        S.ensure_eq(r[c + "_noise"], e, "noise column %s follows the data file" % c)
        tot = tot + e ** 2
    if lst != "alone":
        S.ensure_eq(r["k_noise"], v * 1e-6 * S.np.ones(n) * u.hr ** 0.5, "constant noise column")
        tot = tot + (v * 1e-6) ** 2 * S.np.ones(n) * u.hr
    S.ensure_eq(r["total_noise"] ** 2, tot, "data file noise adds in quadrature")
    S.ensure_unchanged(tab, before, "noise data file")
    S.ensure_unchanged(wl, before_wl, "wavelength of the bins")


@contract("C03", [H + "EstimateNoiseInChannel.execute", N + "add_custom_noise"], bounds="up to 2 custom noise entries per section; any number of bins")
def custom_noise_sections(S):
    u = S.u
    kc, kp = S.choose("channel_section", CUSTOM), S.choose("common_section", CUSTOM)
    n, t = target_table(S, sigs=["star_signal_inAperture"])
    t["MaxSignal_inPixel"] = S.arr("maxsig", n, unit="ct/s", pos=True)
    sel = t["chName"] == "A"
    S.assume(S.np.any(sel))
    det = detector(S, True)
    ch = {"value": "A", "detector": det}
    dc, vc = custom_noise(S, kc, "c")
    dp, vp = custom_noise(S, kp, "p")
    if dc: ch["customNoise"] = dc
    payload = {"common": {}}
    if dp: payload["common"]["customNoise"] = dp
    tgt = _Target(); tgt.table = t
    task = S.fn(H + "EstimateNoiseInChannel")
    base = task()(target=tgt, channel={k: v for k, v in ch.items() if k != "customNoise"}, payload={"common": {}})
    out = task()(target=tgt, channel=ch, payload=payload)
    tot = base["total_noise"] ** 2
    for nm, v in vc + vp:
        S.ensure_eq(out[nm + "_noise"], v * 1e-6 * S.np.ones(base["total_noise"].size) * u.hr ** 0.5, "custom noise column %s" % nm)
        tot = tot + (v * 1e-6) ** 2 * S.np.ones(base["total_noise"].size) * u.hr
    S.ensure_eq(out["total_noise"] ** 2, tot, "every configured noise floor of both sections adds in quadrature")


@contract("C03", [H + "EstimateNoiseInChannel.execute", N + "add_custom_noise", N + "Noise.__init__", "exorad.models.signal:Signal.spectral_rebin"], stubs=dict(REBIN),
          bounds="one data file in the common or the channel section, or one in both; any table, any sampling of the file", samples=40)
def channel_custom_noise_data(S):
    u = S.u
    where = S.choose("section", ["common", "channel", "both"])
    n, t = target_table(S, sigs=["star_signal_inAperture"])
    t["MaxSignal_inPixel"] = S.arr("maxsig", n, unit="ct/s", pos=True)
    name = S.choose("channel", ["A", "B"])
    if not S.symbolic:
        k = n + S.choose("more rows", [2, 6])
        t, t0 = S.QTable(), t
        for c in t0.keys(): t[c] = S.np.resize(t0[c], k)
        t["chName"] = S.np.sort(S.np.resize(["A", S.choose("other channel", ["B", "AB"]), "B"], k))
        t["Wavelength"] = S.np.linspace(0.6, 7, k) * u.um
    sel = t["chName"] == name
    S.assume(S.np.any(sel))
    wl = t["Wavelength"][sel]
    files = {}
    nd = S.dim("D", lo=4)
    for sec in (("common", "channel") if where == "both" else (where,)):
        tab = S.QTable()
        tab["Wavelength"] = sampled_around(S, "dwl_" + sec, nd, t["Wavelength"])
        tab[sec] = S.arr("d_" + sec, tab["Wavelength"].size, lo=0, hi=1e-3)
        files[sec] = tab
    det = detector(S, True)
    ch, payload = {"value": name, "detector": det}, {"common": {}}
    if "channel" in files: ch["customNoise"] = {"value": "custom", "data": files["channel"], "datafile": {"value": "a.csv"}}
    if "common" in files: payload["common"]["customNoise"] = {"value": "custom", "data": files["common"], "datafile": {"value": "b.csv"}}
    tgt = _Target(); tgt.table = t
    task = S.fn(H + "EstimateNoiseInChannel")
    base = task()(target=tgt, channel={k: v for k, v in ch.items() if k != "customNoise"}, payload={"common": {}})
    out = task()(target=tgt, channel=ch, payload=payload)
    tot = base["total_noise"] ** 2
    for sec, tab in files.items():
        e = defined(S, rebinned(S, wl, tab["Wavelength"], tab[sec] * u.hr ** 0.5))
        S.ensure_eq(out[sec + "_noise"], e, "noise of the %s data file at the bins of the channel" % sec)
        tot = tot + e ** 2
    S.ensure_eq(out["total_noise"] ** 2, tot, "noise of the data files of both sections adds in quadrature")


@contract("C06", ["exorad.tasks.targetHandler:EstimateMaxSignal.execute", "exorad.tasks.targetHandler:UpdateTargetTable.execute"],
          bounds="up to 3 maximum-signal columns; any number of rows")
def max_pixel_signal(S):
    u = S.u
    cols = S.choose("cols", [[], ["star_MaxSignal_inPixel"], ["star_MaxSignal_inPixel", "instrument_MaxSignal_inPixel"], ["Max light_MaxSignal_inPixel", "star_MaxSignal_inPixel", "signal_MaxSignal_inPixel"], ["total zodi_MaxSignal_inPixel", "my zodi_MaxSignal_inPixel"]])
    n = S.dim("N", lo=1)
    t = S.QTable()
    t["chName"] = S.strs("ch", n, values=["A", "AB", "B"])
    t["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    t["star_signal_inAperture"] = S.arr("s", n, unit="ct/s", nonneg=True)
    t["Max light_signal"] = S.arr("l", n, unit="ct/s", nonneg=True)
    tot = S.np.zeros(n) * u.ct / u.s
    for c in cols:
        t[c] = S.arr("m_" + c, n, unit="ct/s", nonneg=True)
        tot = tot + t[c]
    before = S.snapshot(dict((k, t[k]) for k in t.keys()))
    if S.flag("estimated before"): t["MaxSignal_inPixel"] = S.arr("stale", n, unit="ct/s", nonneg=True)
    tgt = _Target(); tgt.table = t
    r = S.fn("exorad.tasks.targetHandler:EstimateMaxSignal")()(target=tgt)
    S.ensure(r is tgt, "the given target is updated")
    S.ensure_eq(tgt.table["MaxSignal_inPixel"], tot, "largest pixel signal is the sum over every contribution")
    S.ensure_unchanged(dict((k, tgt.table[k]) for k in tgt.table.keys() if k != "MaxSignal_inPixel"), before, "other columns")
