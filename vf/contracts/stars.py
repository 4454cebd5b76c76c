"""C16: stellar spectrum of a target."""
import os
from collections import OrderedDict
from ..dsl import contract
from ._common import REBIN, length, rebinned, defined

SRC = "exorad.models.source:"
LS = "exorad.tasks.loadSource:"
TG = "exorad.models.target:"
PLANCK = "exorad.utils.exolib:planck"


class Obj:
    pass


def star_pars(S):
    u = S.u
    return (S.real("D", lo=1, hi=500, unit=S.choose("unit of D", ["pc", "m"])), S.real("R", lo=0.05, hi=5, unit=S.choose("unit of R", ["Rsun", "m"])),
            S.real("T", lo=2000, hi=12000, unit="K"))


@contract("C16", [SRC + "Star.__init__", SRC + "Star.__get_star_spectrum", PLANCK], samples=20)
def planck_star(S):
    np, u = S.np, S.u
    D, R, T = star_pars(S)
    lo, hi = S.real("lo", lo=0.4, hi=1, unit="um"), S.real("hi", lo=3, hi=9, unit="um")
    s = S.fn(SRC + "Star")(star_sed_path=".", starDistance=D, starTemperature=T, starLogg=4.4, starMetallicity=0.0, starRadius=R,
                           use_planck_spectrum=True, wl_min=lo, wl_max=hi)
    wl, sed = s.sed.wl_grid, s.sed.data
    n = wl.size
    S.ensure(n > 1000, "sampled finely")
    S.ensure_eq(wl[0], lo, "spectrum starts at the lower end of the range"); S.ensure_eq(wl[n - 1], hi, "and ends at the upper end")
    S.ensure_all(wl[1:] > wl[:-1], "increasing wavelengths")
    dil = np.pi * (R.to("m") / D.to("m")) ** 2 * u.sr
    S.ensure(sed.unit == u.W / u.m ** 2 / u.um, "unit of a flux density")
    S.ensure_eq(sed, dil * S.fn(PLANCK)(wl, T), "black body diluted by the solid angle of the star")
    L = 4 * np.pi * D.to("m") ** 2 * np.trapz(sed, x=wl)
    S.ensure_eq(s.luminosity, L, "luminosity")
    S.ensure(s.model == "Planck", "model name")


class Hdu:
    def __init__(self, header, cols):
        self.header, self.cols = header, cols
        self.data = self

    def field(self, n): return self.cols[n]


class HduList(list):
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


def uneven(S):
    """a sampling with parts much finer than others"""
    x = S.np.linspace(0.3, 9.5, 400)
    k = S.choose("fine part", [0, 1, 2])
    return x if k == 0 else S.np.sort(S.np.append(x, 1.0 + 10.0 ** (-2 - 3 * k) * S.np.arange(1, 40)))


def on_disk(S, name, make):
    """the content of a file: the same whenever it is read"""
    d = S.ghost.setdefault("disk", {})
    if name not in d: d[name] = make()
    return d[name]


def fits_open(S, name, *a, **k):
    """stand-in for the FITS reader: an arbitrary model spectrum"""
    S.ghost["file"] = str(name)
    S.ghost.setdefault("files", []).append(str(name))
    n = S.dim("P", lo=5)
    S.full_masks()

    def make():
        wl = S.arr("ph_wl", n, pos=True, increasing=True) if S.symbolic else uneven(S)
        return wl, S.arr("ph_flux", wl.size, nonneg=True), S.choose("units of the file", [("um", "W / (m2 um)"), ("nm", "erg / (s cm2 Angstrom)")])
    wl, fl, (wu, fu) = on_disk(S, str(name), make)
    S.ghost["spectrum"] = (wl, fl)
    f = {"um": 1.0, "nm": 1000.0}[wu]
    g = {"um": 1.0, "nm": 0.1}[wu]      # 1 W/(m2 um) = 0.1 erg/(s cm2 Angstrom)
    return HduList([Hdu({}, {}), Hdu({"TUNIT1": wu, "TUNIT2": fu, "PHXLUM": 3.8e26}, {"Wavelength": wl * f, "Flux": fl * g})])


FITS = {"astropy.io.fits:open": fits_open}


def diluted(S, s, R, D):
    """the star's spectrum is the model's, diluted; the sampling is the model's (a last sample may be dropped)"""
    np, u = S.np, S.u
    wl, fl = S.ghost["spectrum"]
    n = s.sed.wl_grid.size
    S.ensure(wl.size - 1 <= n, "samples kept"); S.ensure(n <= wl.size, "no sample invented")
    S.ensure_eq(s.sed.wl_grid, wl[:n] * u.um, "wavelengths of the model")
    S.ensure(s.sed.data.unit == u.W / u.m ** 2 / u.um, "unit of a flux density")
    f = fl[:n] * u.Unit("W/(m2 um)")
    S.ensure_eq(s.sed.data, f * (R.to("m") / D.to("m")) ** 2, "model flux diluted by (R/D)^2")
    S.ensure_eq(s.luminosity, 4 * np.pi * R.to("m") ** 2 * np.trapz(f, x=wl[:n] * u.um), "luminosity of the star's surface")


@contract("C16", [SRC + "Star.__init__", SRC + "Star.__read_phenix_spectrum"], env=FITS, samples=40)
def phoenix_star(S):
    u = S.u
    D, R, T = star_pars(S)
    def star(D, R):
        return S.fn(SRC + "Star")(star_sed_path="models", starDistance=D, starTemperature=T, starLogg=4.4, starMetallicity=0.0, starRadius=R,
                                  phoenix_model_filename="lte057.0-4.5-0.0a+0.0.BT-Settl.spec.fits.gz")
    if S.flag("another star of the same model before"): star(2 * D, 0.5 * R)
    s = star(D, R)
    S.ensure(S.ghost["file"] == os.path.join("models", "lte057.0-4.5-0.0a+0.0.BT-Settl.spec.fits.gz"), "the requested file is read")
    diluted(S, s, R, D)


# temperature / 100 K, minus the surface gravity (written so in the names), metallicity
MODELS = [("050.0", "-4.5", "-0.0"), ("050.0", "-5.0", "-0.0"), ("057.0", "-4.0", "+0.0"), ("057.0", "-4.5", "-0.5"), ("064.0", "-4.5", "-0.0")]
SIGNED = [("050.0", "-4.5", "-0.5"), ("050.0", "-4.5", "+0.5"), ("057.0", "-4.0", "+0.5"), ("057.0", "-4.0", "-1.0")]


def listing(S, pattern, *a, **k):
    if "BT-Settl" not in pattern: return []
    return [os.path.join(os.path.dirname(pattern), "lte%s%s%sa+0.0.BT-Settl.spec.fits.gz" % m) for m in S.ghost["models"]]


@contract("C16", [SRC + "Star.__init__", SRC + "Star.__get_phonix_model_filename", SRC + "Star.__get_sed_list"],
          env=dict(FITS, **{"glob:glob": listing}), samples=60, bounds="libraries of 0, 1, 4 and 5 models; all temperatures, gravities and metallicities")
def model_choice(S):
    np = S.np
    D, R, _ = star_pars(S)
    T = S.real("Teff", lo=4000, hi=7500, unit="K")
    given = T.to("kK") if S.flag("kilokelvin") else T
    g, z = S.real("logg", lo=3, hi=6), S.real("Z", lo=-1, hi=1)
    S.ghost["models"] = S.choose("library", [MODELS, SIGNED, MODELS[2:3], []])
    o = S.call(S.fn(SRC + "Star"), star_sed_path="models", starDistance=D, starTemperature=given, starLogg=g, starMetallicity=z, starRadius=R)
    m = S.ghost["models"]
    if not m:
        S.ensure(isinstance(o.exc, OSError), "an empty library is reported"); return
    t = np.round(T.value / 100)
    Ts = [float(x[0]) for x in m]
    if S.decide(t < min(Ts)) or S.decide(t > max(Ts)):
        S.ensure(isinstance(o.exc, ValueError), "temperatures outside the library are reported"); return
    S.ensure(not o.raised, "a model is found")
    S.ensure(len(S.ghost["files"]) == 1, "one file read")
    name = S.ghost["file"]
    files = listing(S, os.path.join("models", "BT-Settl"))
    S.ensure(name in files, "file of the library")
    dist = lambda a, b, c: np.abs(float(a) - t) + np.abs(-float(b) - g) + np.abs(float(c) - z)
    for x in m:
        S.ensure_le(dist(*m[files.index(name)]), dist(*x), "no model of the library is closer")
    S.ensure(o.value.model == os.path.basename(name), "model name")
    diluted(S, o.value, R, D)


# ------------------------------------------------------------------ custom spectrum
def read_ascii(S, name, *a, **k):
    S.ghost["file"] = name
    n = S.dim("P", lo=4)
    t = S.Table() if not S.symbolic else S.QTable()

    def make():
        wl = S.arr("c_wl", n, unit="um", pos=True, increasing=True) if S.symbolic else uneven(S) * S.u.um
        return wl, S.arr("c_flux", wl.size, unit="W / (m2 um)", nonneg=True), S.flag("file in other units")
    wl, fl, other = on_disk(S, name, make)
    wl, fl = wl.copy(), fl.copy()
    S.ghost["spectrum"] = (wl.value.copy(), fl.value.copy())
    if other: wl, fl = wl.to("nm"), fl.to("erg / (s cm2 Angstrom)")
    if S.symbolic: return ColTable({"Wavelength": wl, "Sed": fl})
    from astropy.table import Column
    t["Wavelength"], t["Sed"] = Column(wl.value, unit=wl.unit), Column(fl.value, unit=fl.unit)
    return t


class ColTable(dict):
    """columns with .data and .unit (symbolic runs)"""

    def __getitem__(self, k):
        q = dict.__getitem__(self, k)
        c = Obj()
        c.data, c.unit = q.value, q.unit
        return c


@contract("C16", [SRC + "CustomSed.__init__"], env={"astropy.io.ascii:read": read_ascii}, samples=40)
def custom_spectrum(S):
    D, R, _ = star_pars(S)
    if S.flag("another star with the same spectrum before"): S.fn(SRC + "CustomSed")("file.csv", 2 * R, 0.5 * D)
    s = S.fn(SRC + "CustomSed")("file.csv", R, D)
    S.ensure(S.ghost["file"] == "file.csv", "the configured file is read")
    diluted(S, s, R, D)
    S.ensure(s.model == "Custom", "model name")


# ------------------------------------------------------------------ the task
NAMES = ["star_sed_path", "starDistance", "starTemperature", "starLogg", "starMetallicity", "starRadius", "use_planck_spectrum", "wl_min",
         "wl_max", "phoenix_model_filename"]


def spectrum_of(S, self, name):
    n = S.dim("P", lo=4)
    wl = S.arr("src_wl", n, unit="um", pos=True, increasing=True) if S.symbolic else S.np.linspace(0.3, 9.5, 300) * S.u.um
    f = S.arr("src_flux", wl.size, unit="W / (m2 um)", nonneg=True)
    self.sed = S.fn("exorad.models.signal:Sed")(wl, f)
    self.luminosity, self.model, self.filename = S.real("L", pos=True, unit="Lsun"), name, "file of " + name
    S.ghost["spectrum"] = (wl, f.copy())


def star_init(S, self, *a, **k):
    k = dict(dict(zip(NAMES, a)), **k)
    S.ghost.setdefault("stars", []).append(k)
    if not k.get("use_planck_spectrum") and S.ghost.get("outside"): raise ValueError
    spectrum_of(S, self, "Planck" if k.get("use_planck_spectrum") else "phoenix model")


def custom_init(S, self, fname, star_radius, star_distance):
    S.ghost["custom"] = (fname, star_radius, star_distance)
    spectrum_of(S, self, "Custom")


STARS = dict({SRC + "Star.__init__": star_init, SRC + "CustomSed.__init__": custom_init})


def target_of(S, missing=()):
    t = S.fn(TG + "Target")()
    t.name = "target"
    s = t.star = Obj()
    s.name, s.magk = "star", 7.5
    full = dict(D=S.real("D", lo=1, hi=500, unit="pc"), R=S.real("R", lo=0.05, hi=5, unit="Rsun"), M=S.real("M", lo=0.05, hi=5, unit="Msun"),
                Teff=S.real("T", lo=2000, hi=12000, unit="K"))
    for k, v in full.items(): setattr(s, k, float("nan") if k in missing else v)
    s.calc_logg = t.calc_logg
    return t


@contract("C16", [LS + "LoadSource.execute", LS + "LoadSource._add_star_metadata", TG + "Target.update_target", TG + "Target.calc_logg",
                  "exorad.models.signal:Signal.spectral_rebin"], stubs=REBIN, env=STARS, samples=80)
def spectrum_of_target(S):
    np, u = S.np, S.u
    kind = S.choose("source", ["planck", "Planck", "phoenix", "Phoenix", "custom", "CUSTOM", "other", "string"])
    t = target_of(S)
    k = S.choose("magnitude", [7.5, 0.0, None]) if kind == "planck" else 7.5
    if k is None: del t.star.magk
    else: t.star.magk = k
    if S.flag("loaded before"): t.star.sed, t.star.luminosity, t.star.model = "spectrum", "luminosity", "model of an earlier observation"
    with_table = S.flag("table")
    if with_table:
        t.table = S.QTable()
        t.table["Wavelength"] = S.arr("tab", S.dim("K", lo=1), unit="um", pos=True)
        t.table.meta["name"] = "target"
    source = {"value": "planck" if kind == "string" else kind}
    kind = {"Phoenix": "phoenix", "CUSTOM": "custom"}.get(kind, kind)
    if kind == "phoenix":
        source["StellarModels"] = {"value": os.environ.get("VF_SCRATCH", "/tmp")}
        S.ghost["outside"] = S.flag("temperature outside the library")
    if kind == "custom": source["CustomSed"] = {"value": "own.csv"}
    if kind == "string": source = "planck"
    before = S.snapshot(source)
    lo, hi = S.real("lo", lo=0.4, hi=1, unit="um"), S.real("hi", lo=3, hi=9, unit="um")
    pv = S.mod("exorad.utils.passVal").PassVal
    pv.working_R = S.dim("working_R", lo=4)
    wl = np.logspace(np.log10(lo.value), np.log10(hi.value), pv.working_R) * u.um
    rng = S.choose("range", ["increasing", "decreasing", "no unit", "mixed"])
    r = {"increasing": (length(S, lo), length(S, hi)), "decreasing": (length(S, hi), length(S, lo)), "mixed": (lo.to("nm"), hi), "no unit": (lo.value, hi.value)}[rng]
    out = S.fn(LS + "LoadSource")()(target=t, source=source, wl_range=r)
    S.ensure(len(out) == 2, "target and spectrum"); S.ensure(out[0] is t, "the target is returned")
    sed = t.star.sed
    S.ensure(out[1] is sed, "the spectrum of the target is returned")
    x, f = S.ghost["spectrum"]
    S.ensure_eq(sed.wl_grid, wl, "spectrum on the working wavelength grid")
    S.ensure(sed.data.unit == u.W / u.m ** 2 / u.um, "unit of a flux density")
    want = rebinned(S, wl, x, f)
    want = defined(S, want) if not S.symbolic else want
    S.ensure_eq(sed.data, want, "resampled model spectrum")
    if kind == "custom":
        c = S.ghost["custom"]
        S.ensure(c[0] == "own.csv", "configured file")
        S.ensure_eq(c[1], t.star.R, "radius"); S.ensure_eq(c[2], t.star.D, "distance")
        S.ensure("stars" not in S.ghost, "no other model")
        model = "Custom"
    else:
        calls = S.ghost["stars"]
        planck = kind != "phoenix" or S.ghost["outside"]
        model = "Planck" if planck else "phoenix model"
        S.ensure(len(calls) == (2 if kind == "phoenix" and planck else 1), "one model, a black body when the library has none")
        for i, c in enumerate(calls):
            last = i == len(calls) - 1
            S.ensure(bool(c.get("use_planck_spectrum")) == (planck and last), "kind of model")
            S.ensure_eq(c["starDistance"], t.star.D, "distance"); S.ensure_eq(c["starRadius"], t.star.R, "radius")
            S.ensure_eq(c["starTemperature"], t.star.Teff, "temperature")
            S.ensure_eq(c["starMetallicity"], 0.0, "metallicity")
            if not (planck and last): S.ensure(c["star_sed_path"] == source["StellarModels"]["value"], "model library")
            else:
                S.ensure_eq(c["wl_min"], lo, "lower end of the range"); S.ensure_eq(c["wl_max"], hi, "upper end of the range")
            G = u.Quantity(6.6743e-11, "m3 / (kg s2)")
            S.ensure_eq(c["starLogg"], np.log10((G * t.star.M / t.star.R ** 2).to("cm/s2").value), "surface gravity", rtol=1e-6)
    S.ensure(t.star.model == model, "model recorded")
    S.ensure_eq(t.star.luminosity, S.real("L", pos=True, unit="Lsun") if S.symbolic else S.inputs["L"] * u.Lsun, "luminosity recorded")
    if with_table:
        m = t.table.meta
        S.ensure(m["name"] == "target", "other metadata kept")
        S.ensure(m["starName"] == "star", "star name"); S.ensure(m["starModel"] == model, "star model");
        if hasattr(t.star, "magk"): S.ensure(m["starMagK"] == t.star.magk, "magnitude")
        else: S.ensure("starMagK" not in m, "no magnitude invented")
        for k, v in (("starM", t.star.M), ("starTeff", t.star.Teff), ("starR", t.star.R), ("starDistance", t.star.D), ("starL", t.star.luminosity)):
            S.ensure_eq(m[k], v, k)
        S.ensure(list(t.table.keys()) == ["Wavelength"], "table columns unchanged")
    S.ensure_unchanged(source, before, "source description")


@contract("C16", [LS + "LoadSource.execute"], stubs=REBIN, env=STARS, samples=40)
def missing_information(S):
    u = S.u
    S.mod("exorad.utils.passVal").PassVal.working_R = S.dim("working_R", lo=4)
    kind = S.choose("source", ["planck", "phoenix", "custom", "other"])
    miss = S.choose("missing", ["D", "R", "M", "Teff"])
    t = target_of(S, [miss])
    if S.flag("absent"): delattr(t.star, miss)
    with_table = S.flag("table")
    if with_table:
        t.table = S.QTable()
        t.table["Wavelength"] = S.arr("tab", S.dim("K", lo=1), unit="um", pos=True)
    source = {"value": kind, "StellarModels": {"value": os.environ.get("VF_SCRATCH", "/tmp")}, "CustomSed": {"value": "own.csv"}}
    o = S.call(S.fn(LS + "LoadSource")(), target=t, source=source, wl_range=(0.5 * u.um, 3 * u.um))
    if kind == "custom" and miss in ("M", "Teff"):
        S.ensure(not o.raised, "a custom spectrum needs only distance and radius")
        S.ensure(o.value[0] is t and o.value[1] is t.star.sed and t.star.model == "Custom", "custom spectrum of the target")
        if with_table:
            m = t.table.meta
            S.ensure(m["starModel"] == "Custom" and m["starName"] == "star", "metadata of the star")
            S.ensure_eq(m["starR"], t.star.R, "radius recorded"); S.ensure_eq(m["starDistance"], t.star.D, "distance recorded")
        return
    S.ensure(isinstance(o.exc, AttributeError), "missing star information is rejected")
    S.ensure(not hasattr(t.star, "sed"), "no spectrum is attached")
    S.ensure("stars" not in S.ghost and "custom" not in S.ghost, "no model is computed")


@contract("C16", [LS + "LoadSource.execute"], stubs=REBIN, env=STARS, samples=20)
def missing_library(S):
    u = S.u
    t = target_of(S)
    k = S.choose("path", ["does not exist", "not given"])
    source = {"value": "phoenix"}
    if k == "does not exist": source["StellarModels"] = {"value": "/nonexistent/phoenix"}
    saved = os.environ.pop("PHOENIX_PATH", None)
    try:
        S.expect_raise("missing model library is rejected", S.fn(LS + "LoadSource")(), target=t, source=source, wl_range=(0.5 * u.um, 3 * u.um), exc=OSError)
    finally:
        if saved is not None: os.environ["PHOENIX_PATH"] = saved
