"""C17 output tables, C18 independent observations, C19 target lists, C20 tasks."""
import os
from collections import OrderedDict
from ..dsl import contract
from ._common import REBIN
from .stars import STARS, NAMES, target_of

UT = "exorad.utils.util:"
IH = "exorad.tasks.instrumentHandler:"
TH = "exorad.tasks.targetHandler:"
PL = "exorad.tasks.propagateLight:"
NH = "exorad.tasks.noiseHandler:"


class Obj:
    pass


def rows_of(t): return t["Wavelength"].size


def a_table(S, i, extra):
    """table of a channel: names and wavelengths, and any of the columns in `extra`"""
    n = S.dim("n%d" % i, lo=1)
    t = S.QTable()
    t["Wavelength"] = S.arr("wl%d" % i, n, unit="um", pos=True)
    t["chName"] = "channel %d" % (9 - i)
    if "s" in extra: t["signal"] = S.arr("sig%d" % i, n, unit=S.choose("unit %d" % i, ["ct/s", "ct/hr"]), nonneg=True)
    if "q" in extra: t["QE"] = S.arr("qe%d" % i, n, nonneg=True)
    if "t" in extra: t["mode"] = S.strs("mode%d" % i, n, ["a", "bcd"])
    if "n" in extra: t["depth"] = S.arr("depth%d" % i, n, unit="um") if S.flag("filled %d" % i) else S.np.zeros(n) * float("nan") * S.u.um
    if "w" in extra: t["WindowSize"] = S.arr("win%d" % i, n, pos=True) * S.u.dimensionless_unscaled
    return t


def check_stack(S, out, tabs, label):
    cols = []
    for t in tabs: cols += [c for c in t.keys() if c not in cols]
    S.ensure(sorted(out.keys()) == sorted(cols), label + ": every column of every table")
    total = rows_of(tabs[0])
    for t in tabs[1:]: total = total + rows_of(t)
    S.ensure(rows_of(out) == total, label + ": every row of every table")
    off = 0
    for i, t in enumerate(tabs):
        n = rows_of(t)
        for c in cols:
            part = out[c][off:off + n]
            if c in t.keys(): S.ensure_eq(part, t[c], "%s: %s of table %d" % (label, c, i))
            elif c == "mode": S.ensure(S.np.all(part == ""), "%s: %s absent from table %d is empty" % (label, c, i))
            else: S.ensure_eq(part.value if hasattr(part, "unit") and part.unit is not None else part, S.np.zeros(n), "%s: %s absent from table %d is zero" % (label, c, i))
        off = off + n


@contract("C17", [UT + "vstack_tables"], samples=80, bounds="1 to 3 tables")
def stacking(S):
    k = S.choose("tables", [1, 2, 3])
    tabs = [a_table(S, i, S.choose("columns %d" % i, ["", "s", "sq", "qw", "sqw"][:5 if k < 3 else 4])) for i in range(k)]
    before = S.snapshot(tabs)
    out = S.fn(UT + "vstack_tables")(list(tabs))
    check_stack(S, out, tabs, "stack")
    S.ensure_unchanged(tabs, before, "tables")
    for c in list(out.keys()):
        if c not in ("chName", "mode"): out[c][0] = 7 * out[c].unit if getattr(out[c], "unit", None) is not None else 7
    out["new"] = out["Wavelength"] * 2
    S.ensure_unchanged(tabs, before, "tables, after the stack is modified")


@contract("C17", [UT + "vstack_tables"], samples=40, bounds="2 tables")
def stacking_texts(S):
    """columns of texts, and columns whose first cells are unknown"""
    tabs = [a_table(S, i, S.choose("columns %d" % i, ["s", "t", "n"])) for i in range(2)]
    check_stack(S, S.fn(UT + "vstack_tables")(list(tabs)), tabs, "stack")


class Channel:
    """a built channel; its propagation is an arbitrary table with one row per bin"""

    def __init__(self, S, i, extra="s"):
        self.S, self.i, self.name = S, i, "channel %d" % (9 - i)
        self.table = a_table(S, i, extra)
        self.description = {"value": self.name, "kind": "description %d" % i}
        self.payload = {"common": {}, "kind": "payload"}
        self.seen = []

    def answer(self, what, cols):
        S, n = self.S, rows_of(self.table)
        t = S.QTable()
        for c in cols: t[c] = S.arr("%s %s%d" % (what, c, self.i), n, unit="ct/s", nonneg=True)
        return t

    def propagate_target(self, target):
        self.seen.append("target")
        self.out = self.answer("star", ["star_signal", "star_MaxSignal_inPixel"] + (["starFlux"] if self.i else []))
        return self.out

    def propagate_diffuse_foreground(self, target):
        self.seen.append("foreground")
        self.out = self.answer("frg", ["zodi_signal", "zodi_MaxSignal_inPixel"])
        return self.out


def channels_of(S, n=None):
    n = n or S.choose("channels", [1, 2])
    return OrderedDict(("ch%d" % (9 - i), Channel(S, i, ["s", "sq"][i])) for i in range(n))


@contract("C17", [IH + "MergeChannelsOutput.execute", TH + "PrepareTarget.execute"], samples=60, bounds="1 or 2 channels")
def prepared_target(S):
    chs = channels_of(S)
    tabs = [c.table for c in chs.values()]
    before = S.snapshot(tabs)
    m = S.fn(IH + "MergeChannelsOutput")()(channels=chs)
    check_stack(S, m, tabs, "merged channels")
    t = Obj()
    t.name = "HD 1"
    t.other = "kept"
    if S.flag("observed before"):
        t.table = S.QTable()
        t.table["old"] = S.arr("old", S.dim("O", lo=1))
    r = S.fn(TH + "PrepareTarget")()(target=t, channels=chs)
    S.ensure(r is t, "the target is returned")
    check_stack(S, t.table, tabs, "table of the target")
    S.ensure(t.table.meta["name"] == "HD 1", "target name in the metadata")
    S.ensure("ExoRad version" in t.table.meta, "version in the metadata")
    S.ensure(t.other == "kept" and t.name == "HD 1", "the target is otherwise unchanged")
    t.table["signal"][0] = 7 * t.table["signal"].unit
    t.table["more"] = t.table["Wavelength"] * 2
    S.ensure_unchanged(tabs, before, "tables of the channels")


@contract("C17", [TH + "UpdateTargetTable.execute"], samples=60)
def updated_table(S):
    n = S.dim("n", lo=1)
    t = Obj()
    t.table = S.QTable()
    t.table["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    t.table["signal"] = S.arr("sig", n, unit="ct/s")
    t.table["noise"] = S.arr("noi", n, unit="ct/s")
    t.table.meta["name"] = "HD 1"
    new = S.QTable()
    cols = S.choose("new columns", [["extra"], ["signal"], ["noise", "extra"], ["signal", "noise"], ["a", "b"]])
    for c in cols: new[c] = S.arr("new " + c, n, unit="ct/hr")
    if S.flag("metadata"): new.meta["note"] = "x"
    old = {c: t.table[c].copy() for c in t.table.keys()}
    before = S.snapshot(new)
    r = S.fn(TH + "UpdateTargetTable")()(target=t, table=new)
    S.ensure(r is t, "the target is returned")
    S.ensure(sorted(t.table.keys()) == sorted(set(old) | set(cols)), "columns of both tables")
    for c in t.table.keys(): S.ensure_eq(t.table[c], new[c] if c in cols else old[c], "column " + c)
    S.ensure(t.table.meta["name"] == "HD 1", "metadata kept")
    if "note" in new.meta: S.ensure(t.table.meta["note"] == "x", "metadata added")
    t.table[cols[0]][0] = 7 * t.table[cols[0]].unit
    S.ensure_unchanged(new, before, "new table")


@contract("C17", [PL + "PropagateTargetLight.execute", PL + "PropagateForegroundLight.execute", UT + "vstack_tables"], samples=60, bounds="1 or 2 channels")
def signals_in_rows(S):
    chs = channels_of(S)
    t = Obj()
    t.name = "HD 1"
    S.fn(TH + "PrepareTarget")()(target=t, channels=chs)
    base = {c: t.table[c].copy() for c in t.table.keys()}
    if S.flag("foreground"):
        r, what, cols = S.fn(PL + "PropagateForegroundLight")()(channels=chs, target=t), "foreground", ["zodi_signal", "zodi_MaxSignal_inPixel"]
    else:
        r, what, cols = S.fn(PL + "PropagateTargetLight")()(channels=chs, target=t), "target", ["star_signal", "star_MaxSignal_inPixel"]
    S.ensure(r is t, "the target is returned")
    for c in base: S.ensure_eq(t.table[c], base[c], "column %s kept" % c)
    outs = [c.out for c in chs.values()]
    for c in chs.values(): S.ensure(c.seen == [what], "each channel observes once")
    off = 0
    for i, (nm, ch) in enumerate(chs.items()):
        n = rows_of(ch.table)
        for c in cols + (["starFlux"] if i and what == "target" else []):
            S.ensure_eq(t.table[c][off:off + n], ch.out[c], "%s of %s" % (c, nm))
        S.ensure_all(t.table["chName"][off:off + n] == ch.name, "rows of " + nm)
        off = off + n
    if what == "target" and len(chs) == 2: S.ensure_eq(t.table["starFlux"][:rows_of(chs["ch9"].table)].value, S.np.zeros(rows_of(chs["ch9"].table)), "no value in the other channel")


def noise_in_channel(S, self):
    """stand-in: the noise of one channel is an arbitrary function of what the task is given"""
    t, d, p = self.get_task_param("target"), self.get_task_param("channel"), self.get_task_param("payload")
    i = 9 - int(d["value"].split()[1])
    S.ghost.setdefault("calls", []).append((t, d, p, list(t.table.keys())))
    sel = t.table["chName"] == d["value"]
    out = S.QTable()
    out["frameTime"] = S.arr("ft%d" % i, rows_of(S.ghost["chs"][i].table), unit="s", pos=True)
    out["total_noise"] = S.arr("tn%d" % i, rows_of(S.ghost["chs"][i].table), unit="hr(1/2)", pos=True)
    if i: out["custom"] = S.arr("cu%d" % i, rows_of(S.ghost["chs"][i].table), unit="hr(1/2)", pos=True)
    S.ghost.setdefault("out", []).append(out.copy())
    self.set_output(out)


@contract("C17", [NH + "EstimateNoise.execute", TH + "EstimateMaxSignal.execute"], env={NH + "EstimateNoiseInChannel.execute": noise_in_channel},
          samples=60, bounds="1 or 2 channels")
def noise_in_rows(S):
    chs = channels_of(S)
    S.ghost["chs"] = list(chs.values())
    t = Obj()
    t.name = "HD 1"
    S.fn(TH + "PrepareTarget")()(target=t, channels=chs)
    S.fn(PL + "PropagateTargetLight")()(channels=chs, target=t)
    base = {c: t.table[c].copy() for c in t.table.keys()}
    before, light = S.choose("history", ["first estimate", "estimated before", "a foreground was added since"]), base["star_MaxSignal_inPixel"]
    if before != "first estimate":
        S.fn(NH + "EstimateNoise")()(target=t, channels=chs)
        S.ghost["calls"].clear(); S.ghost["out"].clear()
    if before == "a foreground was added since":
        t.table["zodi_MaxSignal_inPixel"] = base["zodi_MaxSignal_inPixel"] = light * 2
        light = light * 3
    r = S.fn(NH + "EstimateNoise")()(target=t, channels=chs)
    S.ensure(r is t, "the target is returned")
    for c in base: S.ensure_eq(t.table[c], base[c], "column %s kept" % c)
    calls, outs = S.ghost["calls"], S.ghost["out"]
    S.ensure(len(calls) == len(chs), "each channel once")
    S.ensure_eq(t.table["MaxSignal_inPixel"], light, "maximum signal of the pixels")
    off = 0
    for i, ch in enumerate(chs.values()):
        n = rows_of(ch.table)
        S.ensure(calls[i][0] is t and calls[i][1] is ch.description and calls[i][2] is ch.payload, "noise of the channel from its own description")
        S.ensure("MaxSignal_inPixel" in calls[i][3], "after the maximum signal is known")
        for c in outs[i].keys(): S.ensure_eq(t.table[c][off:off + n], outs[i][c], "%s of channel %d" % (c, i))
        if not i and len(chs) == 2: S.ensure_eq(t.table["custom"][:n].value, S.np.zeros(n), "no value in the other channel")
        off = off + n


# ------------------------------------------------------------------ C18
def fixed_star(S, self, *a, **k):
    """stand-in for the stellar models: an arbitrary spectrum per star, the same whenever it is asked for"""
    k = dict(dict(zip(NAMES, a)), **k)
    if "src" not in S.ghost:
        n = S.dim("P", lo=4)
        wl = S.arr("src_wl", n, unit="um", pos=True, increasing=True) if S.symbolic else S.np.linspace(0.3, 9.5, 300) * S.u.um
        S.ghost["src"] = (wl, S.arr("src_flux", wl.size, unit="W / (m2 um)", nonneg=True), S.real("L", pos=True, unit="Lsun"))
    wl, f, lum = S.ghost["src"]
    self.sed = S.fn("exorad.models.signal:Sed")(wl.copy(), f * k["starRadius"].to("Rsun").value)
    planck = k.get("use_planck_spectrum")
    self.luminosity, self.model, self.filename = lum * (1 if planck else 2), "Planck" if planck else "library model", "file"


class Seeing:
    """a built channel whose signals are functions of everything a channel may look at"""

    def __init__(self, S, i):
        self.S, self.i, self.name = S, i, "channel %d" % (9 - i)
        self.table = a_table(S, i, "q")
        self.description = {"value": self.name}
        self.payload = {"common": {}}

    def sky(self, target):
        if not hasattr(target, "skyTransmission"): return 1.0
        return self.S.np.trapz(target.skyTransmission.data.value, x=target.skyTransmission.wl_grid.value)

    def propagate_target(self, target):
        S = self.S
        t = S.QTable()
        amount = S.np.trapz(target.star.sed.data.value, x=target.star.sed.wl_grid.value) * self.sky(target)
        t["star_signal_inAperture"] = self.table["QE"] * amount * S.u.ct / S.u.s
        t["star_MaxSignal_inPixel"] = self.table["QE"] * amount * 0.1 * S.u.ct / S.u.s
        return t

    def propagate_diffuse_foreground(self, target):
        S = self.S
        t = S.QTable()
        for k, f in target.foreground.items():
            amount = S.np.trapz(f.data.value, x=f.wl_grid.value)
            t[k + "_signal"] = self.table["QE"] * amount * S.u.ct / S.u.s
            t[k + "_MaxSignal_inPixel"] = self.table["QE"] * amount * 0.1 * S.u.ct / S.u.s
        return t


def noise_of_signals(S, self):
    """stand-in: the noise of a channel is a function of the target's table"""
    t, d = self.get_task_param("target").table, self.get_task_param("channel")
    i = 9 - int(d["value"].split()[1])
    out = S.QTable()
    m = t["MaxSignal_inPixel"]
    off = 0
    for j in range(i): off = off + rows_of(S.ghost["chs"][j].table)
    out["total_noise"] = m[off:off + rows_of(S.ghost["chs"][i].table)] * 2
    self.set_output(out)


SEE = {"exorad.models.source:Star.__init__": fixed_star, NH + "EstimateNoiseInChannel.execute": noise_of_signals}


def a_payload(S, kind, pre="s"):
    from .foregrounds import sky_description
    common = {"sourceSpectrum": {"value": "planck"}}
    if pre != "s": common["sourceSpectrum"] = {"value": "phoenix", "StellarModels": {"value": os.environ.get("VF_SCRATCH", "/tmp")}}
    zodi = OrderedDict(value="zodiacal", zodiacFactor={"value": 1.5})
    sky = sky_description(S, "sky", pre, units=False) if "sky" in kind else None
    if kind == "one zodi": common["foreground"] = dict(zodi)
    if kind == "one sky": common["foreground"] = dict(sky)
    if kind == "zodi sky": common["foreground"] = OrderedDict([("zodiacal", zodi), ("sky", sky)])
    if kind == "sky": common["foreground"] = OrderedDict([("sky", sky)])
    if kind == "zodi": common["foreground"] = OrderedDict([("zodiacal", zodi)])
    return {"common": common}


def two_targets(S):
    """the same target twice"""
    a = target_of(S)
    b = S.fn("exorad.models.target:Target")()
    b.name = a.name
    b.star = Obj()
    for k, v in vars(a.star).items():
        if k != "calc_logg": setattr(b.star, k, v)
    b.star.calc_logg = b.calc_logg
    return a, b


def same_observation(S, a, b, label):
    S.ensure(sorted(a.table.keys()) == sorted(b.table.keys()), label + ": same columns")
    for c in b.table.keys(): S.ensure_eq(a.table[c], b.table[c], "%s: column %s" % (label, c))
    fa, fb = getattr(a, "foreground", {}), getattr(b, "foreground", {})
    S.ensure(list(fa) == list(fb), label + ": same foregrounds")
    for k in fb:
        S.ensure_eq(fa[k].wl_grid, fb[k].wl_grid, "%s: grid of %s" % (label, k))
        S.ensure_eq(fa[k].data, fb[k].data, "%s: radiance of %s" % (label, k))
    S.ensure(hasattr(a, "skyTransmission") == hasattr(b, "skyTransmission"), label + ": transmission of the sky")
    if hasattr(b, "skyTransmission"): S.ensure_eq(a.skyTransmission.data, b.skyTransmission.data, label + ": transmission of the sky")
    S.ensure_eq(a.star.sed.data, b.star.sed.data, label + ": spectrum of the star")
    S.ensure_eq(a.star.luminosity, b.star.luminosity, label + ": luminosity of the star")
    S.ensure(a.star.model == b.star.model, label + ": model of the star")
    ma, mb = a.table.meta, b.table.meta
    S.ensure(sorted(ma) == sorted(mb), label + ": same metadata")
    for k in mb:
        if isinstance(mb[k], str): S.ensure(ma[k] == mb[k], "%s: metadata %s" % (label, k))
        else: S.ensure_eq(ma[k], mb[k], "%s: metadata %s" % (label, k))


def observe_twice(S, kind, history, source=None):
    u = S.u
    chs = OrderedDict(("ch%d" % (9 - i), Seeing(S, i)) for i in range(S.choose("channels", [1, 2])))
    S.ghost["chs"] = list(chs.values())
    S.mod("exorad.utils.passVal").PassVal.working_R = S.dim("working_R", lo=4)
    rng = (S.real("lo", lo=0.4, hi=1, unit="um"), S.real("hi", lo=3, hi=9, unit="um"))
    payload = a_payload(S, kind)
    if source: payload["common"]["sourceSpectrum"] = source
    before = S.snapshot([payload, [(c.table, c.description, c.payload) for c in chs.values()]])
    first, again = two_targets(S)
    obs = S.fn(TH + "ObserveTarget")
    history(obs, again, chs, rng)
    r = obs()(target=again, payload=payload, channels=chs, wl_range=rng)
    S.ensure(r is again, "the target is returned")
    obs()(target=first, payload=payload, channels=chs, wl_range=rng)
    same_observation(S, again, first, "compared with a fresh target")
    S.ensure_unchanged([payload, [(c.table, c.description, c.payload) for c in chs.values()]], before, "payload and channels")


OT = [TH + "ObserveTarget.execute", TH + "PrepareTarget.execute", "exorad.tasks.foregroundHandler:EstimateForegrounds.execute",
      PL + "PropagateForegroundLight.execute", "exorad.tasks.loadSource:LoadSource.execute", PL + "PropagateTargetLight.execute", NH + "EstimateNoise.execute"]
KINDS = ["none", "zodi", "sky", "one sky", "one zodi", "zodi sky"]


@contract("C18", OT, stubs=REBIN, env=SEE, samples=60, bounds="1 or 2 channels, 0 to 2 foregrounds")
def target_with_a_past(S):
    """whatever an earlier observation left on the target"""
    def history(obs, t, chs, rng):
        Signal = S.fn("exorad.models.signal:Signal")
        wl = S.arr("old_wl", S.dim("O", lo=2), unit="um", pos=True, increasing=True)
        if S.flag("old transmission"): t.skyTransmission = Signal(wl, S.arr("old_tr", wl.size, lo=0, hi=1))
        if S.flag("old foregrounds"): t.foreground = OrderedDict(zodi="old", fog="old")
        if S.flag("old table"):
            t.table = S.QTable()
            t.table["Wavelength"] = wl
            t.table["fog_MaxSignal_inPixel"] = S.arr("old_col", wl.size, unit="ct/s")
            t.table.meta.update(name="old", starModel="old", starDistance="old")
            t.star.sed, t.star.model, t.star.luminosity = "old", "old", "old"
    observe_twice(S, S.choose("payload", KINDS), history)


@contract("C18", OT, stubs=REBIN, env=SEE, samples=60, bounds="1 or 2 channels, 0 to 2 foregrounds, one earlier observation")
def observed_before(S):
    """the same target or another one was observed before, with the same channels and with another payload"""
    def history(obs, t, chs, rng):
        other = t
        if not S.flag("same target before"):
            other = two_targets(S)[0]
            other.name, other.star.R = "another", other.star.R * 3
        obs()(target=other, payload=a_payload(S, S.choose("earlier payload", KINDS), "earlier "), channels=chs, wl_range=rng)
    observe_twice(S, S.choose("payload", KINDS), history)


@contract("C18", OT, stubs=REBIN, env=SEE, samples=30, bounds="1 or 2 channels, no or one foreground, one earlier observation")
def another_range_before(S):
    """the same target was observed before with the same source, or a source of the same name, over another range of wavelengths"""
    library = {"value": "phoenix", "StellarModels": {"value": os.environ.get("VF_SCRATCH", "/tmp")}}
    source = S.choose("source", [{"value": "planck"}, library])
    def history(obs, t, chs, rng):
        other = (S.real("old_lo", lo=0.4, hi=1, unit="um"), S.real("old_hi", lo=3, hi=9, unit="um"))
        payload = a_payload(S, S.choose("earlier payload", ["none", "one zodi"]))
        payload["common"]["sourceSpectrum"] = dict(source)
        obs()(target=t, payload=payload, channels=chs, wl_range=other)
    observe_twice(S, S.choose("payload", ["none", "one zodi"]), history, source)


# ------------------------------------------------------------------ C19
class Broken(Exception):
    pass


FAULTS = [ValueError("x"), KeyError("x"), OSError("x"), AttributeError("x"), UnboundLocalError("x"), ZeroDivisionError("x"), Broken("x"), AssertionError()]


def observe_or_fail(S, self):
    """stand-in for one observation: it succeeds or fails with any error"""
    t = self.get_task_param("target")
    S.ghost.setdefault("observed", []).append((t.name, self.get_task_param("payload"), self.get_task_param("channels"), self.get_task_param("wl_range")))
    bad = S.ghost["bad"].get(t.name)
    if bad is not None: raise bad
    t.table = S.QTable()
    t.table["signal"] = t.flux * S.np.array([1.0, 2.0]) if not S.symbolic else S.map(2, lambda i: t.flux * (i + 1))
    t.table.meta["name"] = t.name
    self.set_output(t)


class Pool:
    """stand-in for a pool of processes: tasks get copies of their arguments and their results come back as copies, in order"""
    def __init__(self, S): self.S = S
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def map(self, f, *its, **k):
        import copy
        self.S.ghost["pooled"] = True
        out = [copy.deepcopy(f(*copy.deepcopy(list(args)))) for args in zip(*its)]
        return iter(out)


def pool(S, *a, **k):
    S.ghost["workers"] = k.get("max_workers", a[0] if a else None)
    return Pool(S)


OBSERVE = {TH + "ObserveTarget.execute": observe_or_fail, "concurrent.futures:ProcessPoolExecutor": pool}


def some_targets(S, n):
    ts, S.ghost["bad"] = [], {}
    for i in range(n):
        t = S.fn("exorad.models.target:Target")()
        t.name = "HD %d" % i
        t.flux = S.real("flux%d" % i, lo=1, hi=2, unit="ct/s")
        if S.flag("target %d fails" % i): S.ghost["bad"][t.name] = S.choose("error %d" % i, FAULTS) if n == 1 else FAULTS[i % len(FAULTS)]
        ts.append(t)
    return ts


def check_results(S, res, ts, same_process=True):
    good = [t for t in ts if t.name not in S.ghost["bad"]]
    S.ensure(list(res) == [t.name for t in good], "exactly the targets that could be observed")
    for t in good:
        r = res[t.name]
        S.ensure(r.name == t.name, "each under its own name")
        S.ensure_eq(r.table["signal"][1], t.flux * 2, "with its own table")
        S.ensure(r is not t, "a copy")
    if not same_process: return
    for t in good:
        if hasattr(t, "table"):
            t.table["signal"][1] = t.flux * 9
            t.table["later"] = t.table["signal"] * 2
            S.ensure_eq(res[t.name].table["signal"][1], t.flux * 2, "results do not share data with the targets")
            S.ensure("later" not in res[t.name].table.keys(), "results do not share tables with the targets")


def level(S):
    return S.fn("exorad.log.logger:root_logger").handlers[0].level


@contract("C19", [TH + "ObserveTargetlist.execute", TH + "pipeline_to_dict"], env=OBSERVE, samples=80, bounds="0 to 3 targets, every subset failing")
def surviving_targets(S):
    ts = some_targets(S, S.choose("targets", [0, 1, 2, 3]))
    k = {}
    th = S.choose("n_thread", [None, 1, 4])
    if th is not None: k["n_thread"] = th
    if S.flag("debug"): k["debug"] = True
    S.fn("exorad.log:setLogLevel")(20)
    payload, chs, rng = {"a": 1}, {"b": 2}, (0.5 * S.u.um, 9 * S.u.um)
    res = S.fn(TH + "ObserveTargetlist")()(targets=ts, payload=payload, channels=chs, wl_range=rng, plot=False, out_dir=None, **k)
    check_results(S, res, ts)
    obs = S.ghost.get("observed", [])
    S.ensure([o[0] for o in obs] == [t.name for t in ts], "every target is observed once, whatever happens to the others")
    S.ensure(all(o[1] == payload and o[2] == chs and len(o[3]) == 2 and o[3][0].value == 0.5 and o[3][1].value == 9 for o in obs), "with the payload and channels given")
    S.ensure(bool(S.ghost.get("pooled")) == (th == 4), "several workers when requested")
    S.ensure(level(S) == 20, "messages are shown again afterwards")


@contract("C19", [TH + "pipeline_to_dict"], env=OBSERVE, samples=40)
def one_target(S):
    ts = some_targets(S, 1)
    S.fn("exorad.log:setLogLevel")(20)
    o = S.call(S.fn(TH + "pipeline_to_dict"), ts[0], {"a": 1}, {}, (1, 2), False, None, S.flag("debug"))
    S.ensure(not o.raised, "a failing target does not end the run")
    name, res = o.value
    S.ensure(level(S) == 20, "messages are shown again afterwards")
    if S.ghost["bad"]: S.ensure(name is None and res is None, "a failing target has no result"); return
    check_results(S, {name: res}, ts)


def prepare(S, self):
    p = self.get_task_param("payload_file")
    S.ghost["prepared"] = (p, self.get_task_param("output"))
    self.set_output([{"payload": p}, S.ghost["channels"], (0.5 * S.u.um, 9 * S.u.um)])


def load_list(S, self):
    S.ghost["list"] = self.get_task_param("target_list")
    o = Obj()
    o.target = S.ghost["ts"]
    self.set_output(o)


class Written:
    def __init__(self, S, name, append):
        self.S, self.name, self.append = S, name, append
        S.ghost.setdefault("opened", []).append((str(name), append))
    def __enter__(self): return self
    def __exit__(self, *a): return False


def output_file(S, name, append=False, *a, **k): return Written(S, name, append)


def write_target(S, self, out):
    S.ghost.setdefault("written", []).append((self.name, out.name, out.append, self))
    return out


PIPE = dict(OBSERVE, **{IH + "PreparePayload.execute": prepare, TH + "LoadTargetList.execute": load_list, "exorad.output.hdf5:HDF5Output": output_file,
                        "exorad.exorad:HDF5Output": output_file, "exorad.models.target:Target.write": write_target})


class Built:
    pass


@contract("C19", ["exorad.exorad:standard_pipeline", TH + "ObserveTargetlist.execute"], env=PIPE, samples=60, bounds="0 to 2 targets, 1 channel with 2 optical elements")
def whole_pipeline(S):
    import tempfile
    d = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp"))
    opt, lst = os.path.join(d, "payload.xml"), os.path.join(d, "targets.csv")
    for f in (opt, lst):
        with open(f, "w") as h: h.write(f)
    ts = S.ghost["ts"] = some_targets(S, S.choose("targets", [0, 1, 2]))
    contrib = S.flag("full_contrib")
    ch = Built()
    ch.table = S.QTable()
    n = S.dim("n", lo=1)
    ch.table["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    a, b = S.arr("a", n, unit="ct/s", nonneg=True), S.arr("b", n, unit="ct/s", nonneg=True)
    ch.table["instrument_signal"] = a + b
    sig = S.QTable()
    sig["mirror_signal"], sig["filter_signal"] = a, b
    ch.built_instr = {"optical_path": {"signal_table": sig}}
    S.ghost["channels"] = {"ch": ch}
    before = S.snapshot(sig)
    out = None
    o = S.choose("output", ["none", "new", "new directory", "existing"])
    if o != "none":
        out = os.path.join(d, "new" if o == "new directory" else "", "out.h5")
        if o == "existing":
            with open(out, "w") as h: h.write("old")
    replace = S.flag("replace")
    k = {} if replace else {"replace": False}
    S.fn("exorad.exorad:standard_pipeline")(options=opt, target_list=lst, output=out, full_contrib=contrib, **k)
    S.ensure(S.ghost["prepared"] == (opt, out), "the payload file is loaded"); S.ensure(S.ghost["list"] == lst, "the target list is loaded")
    obs = S.ghost.get("observed", [])
    S.ensure([x[0] for x in obs] == [t.name for t in ts], "every target is observed")
    S.ensure(all(x[1] == {"payload": opt} and x[2] == {"ch": ch} for x in obs), "with the payload and its channels")
    good = [t.name for t in ts if t.name not in S.ghost["bad"]]
    w = S.ghost.get("written", [])
    S.ensure([x[0] for x in w] == (good if out else []), "every result is saved, and nothing else")
    S.ensure(all(str(x[1]) == out and x[2] is True for x in w), "results are added to the output file")
    if out:
        S.ensure(os.path.exists(os.path.join(os.path.dirname(out), "payload.xml")), "the payload file is saved along")
        S.ensure(os.path.exists(os.path.join(os.path.dirname(out), "targets.csv")), "the target list is saved along")
        S.ensure(os.path.exists(out) == (o == "existing" and not replace), "an existing output is replaced only when asked")
    S.ensure(open(opt).read() == opt and open(lst).read() == lst, "the input files are left alone")
    t = ch.table
    if contrib:
        S.ensure(sorted(t.keys()) == ["Wavelength", "filter_signal", "mirror_signal"], "the parts of the instrument signal replace it")
        S.ensure_eq(t["mirror_signal"], a, "first part"); S.ensure_eq(t["filter_signal"], b, "second part")
    else: S.ensure(sorted(t.keys()) == ["Wavelength", "instrument_signal"], "the instrument signal")
    S.ensure_unchanged(sig, before, "signal table of the optical path")


@contract("C19", [TH + "ObserveTargetlist.execute"], env={TH + "ObserveTarget.execute": observe_or_fail}, samples=6, kind="bounded", bounds="3 targets in 2 real worker processes")
def real_processes(S):
    ts = some_targets(S, 3)
    res = S.fn(TH + "ObserveTargetlist")()(targets=ts, payload={}, channels={}, wl_range=(0.5 * S.u.um, 9 * S.u.um), plot=False, out_dir=None, n_thread=2)
    check_results(S, res, ts, same_process=False)


# ------------------------------------------------------------------ C20
TK = "exorad.tasks.task:Task"


def a_task(S, params, log):
    Task = S.fn(TK)

    class Some(Task):
        def __init__(self):
            for nm, d in params:
                if d is None: self.addTaskParam(nm, "about " + nm)
                else: self.addTaskParam(nm, "about " + nm, d)

        def execute(self):
            log.append({nm: self.get_task_param(nm) for nm, _ in params})
            self.set_output(("output", len(log)))
    return Some()


@contract("C20", [TK + ".__call__", TK + ".addTaskParam", TK + ".get_task_param", TK + ".set_output"], samples=60, bounds="up to 3 parameters, 2 calls, 2 tasks")
def task_parameters(S):
    x, y = S.real("x"), S.real("y")
    names = ["alpha", "beta", "gamma"][:S.choose("parameters", [1, 2, 3])]
    defaults = [None, 5.0, "text"]
    log, log2 = [], []
    t = a_task(S, list(zip(names, defaults)), log)
    other = a_task(S, [("delta", 1.0), ("alpha", "own default")], log2)
    for call in range(2):
        if call: subset = names[1:] if S.flag("second call gives values") else []
        else: subset = [n for n in names if S.flag("first call gives " + n)]
        given = {n: (x if n == "beta" else y) * (call + 1) for n in subset}
        extra = S.flag("call %d gives an unknown parameter" % call)
        kw = dict(given)
        if extra: kw[(S.choose("unknown", ["delta", "execute", "Alpha"]) if call else "delta")] = x
        n = len(log)
        o = S.call(t, **kw)
        if extra:
            S.ensure(isinstance(o.exc, ValueError), "unknown parameters are rejected")
            S.ensure(len(log) == n, "and nothing is executed")
            continue
        S.ensure(not o.raised and len(log) == n + 1, "executed once")
        S.ensure(o.value == ("output", n + 1), "the output of this call is returned")
        for i, nm in enumerate(names):
            S.ensure_eq(log[-1][nm], given.get(nm, defaults[i]), "parameter %s is the given value or its default" % nm)
    other()
    S.ensure(log2[-1] == {"delta": 1.0, "alpha": "own default"}, "tasks do not share parameters")


@contract("C20", [TK + ".__call__", TK + ".get_task_param"], samples=30)
def empty_values(S):
    """a value that is empty or false is a value"""
    log = []
    t = a_task(S, [("alpha", S.choose("default", ["text", 5.0, True, None])), ("beta", "other")], log)
    if S.flag("called before"): t(beta=S.real("x"))
    v = S.choose("given", [None, False, 0, "", [], {}])
    t(alpha=v)
    S.ensure(log[-1]["alpha"] is v and log[-1]["beta"] == "other", "the value given is used as it is")


@contract("C20", ["exorad.tasks:*"], samples=4)
def all_tasks(S):
    """every task of the package"""
    Task, mod = S.fn(TK), S.mod("exorad.tasks")
    found = [c for c in vars(mod).values() if isinstance(c, type) and issubclass(c, Task) and c is not Task]
    S.ensure(len(found) >= 15, "tasks are found")
    for c in found:
        S.expect_raise(c.__name__ + " rejects unknown parameters", c(), no_such_parameter=1, exc=ValueError)
