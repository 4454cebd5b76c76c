"""Foregrounds: C15 zodiacal light, C31 sky foregrounds."""
import os
from collections import OrderedDict
from ..dsl import contract
from ._common import interp0, in_any_order

Z = "exorad.models.foregrounds.zodiacalForeground:"
K = "exorad.models.foregrounds.skyForegrounds:"
T = "exorad.tasks.foregroundHandler:"
PLANCK = "exorad.utils.exolib:planck"


class Obj:
    pass


def read_map(S, path, *a, **k):
    """stand-in for the HDF5 reader: an arbitrary map, or a map that cannot be used"""
    S.ghost["path"] = str(path)
    if S.ghost["state"] == "unreadable": raise OSError("unreadable")
    which = "other_" if "another" in str(path) else ""
    n = S.dim(which + "M", lo=1)
    t = S.Table()
    t["ra_icrs"] = S.arr(which + "map_ra", n, lo=0, hi=360)
    if S.ghost["state"] != "incomplete": t["dec_icrs"] = S.arr(which + "map_dec", n, lo=-90, hi=90)
    t["zodi_coeff"] = S.arr(which + "map_coeff", n, lo=0.2, hi=30)
    S.ghost["map"] = t
    return t


MAP = {"astropy.io.misc.hdf5:read_table_hdf5": read_map}


def glasse(S, wl, A):
    B = S.fn(PLANCK)
    u = S.u
    return A * (3.5e-14 * B(wl, 5500.0 * u.K) + 3.58e-8 * B(wl, 270.0 * u.K))


def map_coefficient(S, ra, dec):
    """coefficient of the map point nearest to the pointing"""
    t = S.ghost["map"]
    if S.symbolic:
        d = (t["ra_icrs"] - ra.to("deg").value) ** 2 + (t["dec_icrs"] - dec.to("deg").value) ** 2
        return t["zodi_coeff"][S.np.argmin(d)]
    best = None
    for i in range(len(t)):
        d = (t["ra_icrs"][i] - ra.to("deg").value) ** 2 + (t["dec_icrs"][i] - dec.to("deg").value) ** 2
        if best is None or d < best[0]: best = (d, t["zodi_coeff"][i])
    return best[1]


def zodi_description(S):
    d = OrderedDict(value="zodiacal")
    use = S.choose("zodiacalMap", ["absent", False, True])
    if use != "absent": d["zodiacalMap"] = {"value": use}
    if S.flag("zodiacFactor"): d["zodiacFactor"] = {"value": S.real("factor", lo=0, hi=10)}
    S.ghost["state"] = S.choose("map", ["good", "unreadable", "incomplete"]) if use is True else "good"
    return d, use is True


def coefficient(S, d, use, coords):
    if use and coords is not None and S.ghost["state"] == "good":
        S.ensure("map" in S.ghost, "the map is used")
        return map_coefficient(S, *coords)
    if "zodiacFactor" in d: return d["zodiacFactor"]["value"]
    return 0.0


@contract("C15", [Z + "ZodiacalFrg.__init__", Z + "ZodiacalFrg._get_radiance", Z + "ZodiacalFrg.zodiacal_fit_direction", Z + "ZodiacalFrg.model"],
          env=MAP, samples=80)
def zodiacal_radiance(S):
    u = S.u
    d, use = zodi_description(S)
    custom = None
    if use and S.flag("own map"):
        custom = os.path.join(os.environ.get("VF_SCRATCH", "/tmp"), "own_map.hdf5")
        open(custom, "w").close()
        if S.flag("relative path"): custom = os.path.relpath(custom)
        d["custom_map_file"] = {"value": custom}
    coords = None
    if S.flag("pointing"):
        unit = S.choose("unit of the pointing", ["deg", "rad"])
        f = 1.0 if unit == "deg" else 3.14159265358979 / 180
        coords = (S.real("ra", lo=0, hi=360 * f, unit=unit), S.real("dec", lo=-90 * f, hi=90 * f, unit=unit))
    wl = S.arr("wl", S.dim("N", lo=1), unit="um", lo=0.3, hi=30)
    before = S.snapshot(d)
    if use and coords is not None and S.flag("another map before"):
        another = os.path.join(os.environ.get("VF_SCRATCH", "/tmp"), "another_map.hdf5")
        open(another, "w").close()
        S.fn(Z + "ZodiacalFrg")(wl, dict(d, custom_map_file={"value": another}), coordinates=coords)
        S.ghost.pop("path", None); S.ghost.pop("map", None)
    z = S.fn(Z + "ZodiacalFrg")(wl, d, coordinates=coords)
    A = coefficient(S, d, use, coords)
    S.ensure_eq(z.radiance.wl_grid, wl, "wavelengths")
    S.ensure(z.radiance.data.unit == u.W / u.m ** 2 / u.um / u.sr, "unit of a spectral radiance")
    S.ensure_eq(z.radiance.data, glasse(S, wl, A), "two-temperature zodiacal model scaled by the coefficient")
    if use and coords is not None:
        S.ensure("path" in S.ghost, "a map is read")
        if custom: S.ensure(os.path.abspath(S.ghost["path"]) == os.path.abspath(custom), "the configured map is read")
        else: S.ensure(S.ghost["path"].endswith("data/Zodi_map.hdf5"), "the map of the package is read")
    S.ensure_unchanged(d, before, "description")


def a_target(S, pointing):
    u = S.u
    t = Obj()
    t.star = Obj()
    if pointing: t.star.ra, t.star.dec = S.real("ra", lo=0, hi=360, unit="deg"), S.real("dec", lo=-90, hi=90, unit="deg")
    return t


def working_range(S):
    u = S.u
    unit = S.choose("unit of the range", ["um", "nm"])
    f = 1.0 if unit == "um" else 1000.0
    lo, hi = S.real("lo", lo=0.4 * f, hi=1 * f, unit=unit), S.real("hi", lo=4 * f, hi=9 * f, unit=unit)
    pv = S.mod("exorad.utils.passVal").PassVal
    pv.working_R = S.dim("working_R", lo=4)
    np = S.np
    wl = np.logspace(np.log10(lo.to("um").value), np.log10(hi.to("um").value), pv.working_R) * u.um
    return (lo, hi), wl


@contract("C15", [T + "EstimateZodi.execute", Z + "ZodiacalFrg._get_radiance"], env=MAP, samples=60)
def zodiacal_light_of_target(S):
    d, use = zodi_description(S)
    pointing = S.flag("pointing")
    t = a_target(S, pointing)
    earlier = S.flag("earlier foreground")
    if earlier: t.foreground = OrderedDict(sky="radiance of the sky")
    rng, wl = working_range(S)
    before, before_d = S.snapshot(t.star), S.snapshot(d)
    out = S.fn(T + "EstimateZodi")()(zodi=d, target=t, wl_range=rng)
    A = coefficient(S, d, use, (t.star.ra, t.star.dec) if pointing else None)
    S.ensure(out is t, "the target is returned")
    S.ensure(list(t.foreground) == (["sky", "zodi"] if earlier else ["zodi"]), "recorded as a foreground of the target")
    if earlier: S.ensure(t.foreground["sky"] == "radiance of the sky", "other foregrounds kept")
    z = t.foreground["zodi"]
    S.ensure_eq(z.wl_grid, wl, "working wavelength grid")
    S.ensure_eq(z.data, glasse(S, wl, A), "zodiacal radiance in the direction of the target")
    S.ensure_unchanged(t.star, before, "star")
    S.ensure_unchanged(d, before_d, "description")


# ------------------------------------------------------------------ C31: sky foregrounds
def interp_fill(S, xp, fp, x, fill):
    """linear interpolation, `fill` outside the samples"""
    if S.symbolic:
        from .. import facades as F
        return F.Interp1d(xp, fp, kind="linear", fill_value=fill, bounds_error=False, assume_sorted=False)(x)
    np = S.np
    o = np.argsort(xp.value, kind="stable")
    return np.interp(x.to_value(xp.unit), xp.value[o], np.asarray(getattr(fp, "value", fp))[o], left=fill, right=fill)


def sky_description(S, name, pre="", units=True):
    """a data file: radiance and transmission on any wavelength sampling, in any order and unit"""
    m = S.dim(pre + "G", lo=2)
    unit = S.choose(pre + "wavelength unit", ["um", "nm"]) if units else "nm"
    f = 1.0 if unit == "um" else 1000.0
    t = S.QTable()
    t["Wavelength"] = in_any_order(S, pre, S.arr(pre + "sky_wl", m, unit=unit, increasing=S.symbolic is False, lo=0.3 * f, hi=9 * f))
    t["Transmission"] = S.arr(pre + "sky_tr", m, lo=0, hi=1)
    t["Radiance"] = S.arr(pre + "sky_rad", m, nonneg=True, unit=S.choose(pre + "radiance unit", ["W/(m2 um sr)", "W/(m2 nm sr)"]) if units else "W/(m2 um sr)")
    return OrderedDict(value=name, data=t)


def sky_spec(S, d, wl):
    t = d["data"]
    x = t["Wavelength"].to("um")
    return (interp_fill(S, x, t["Radiance"].value, wl, 0.0) * t["Radiance"].unit, interp_fill(S, x, t["Transmission"], wl, 1.0))


@contract("C31", [K + "SkyForeground.__init__", K + "SkyForeground._get_radiance"], samples=60)
def sky_filter(S):
    d = sky_description(S, "sky")
    wl = S.arr("wl", S.dim("N", lo=1), unit="um", lo=0.2, hi=10)
    before = S.snapshot(d)
    f = S.fn(K + "SkyForeground")(wl, d).skyFilter
    rad, tr = sky_spec(S, d, wl)
    S.ensure_eq(f.wl_grid, wl, "wavelengths")
    S.ensure_eq(f.data, rad, "radiance interpolated, none outside the data")
    S.ensure(f.data.unit == S.u.W / S.u.m ** 2 / S.u.um / S.u.sr, "unit of a spectral radiance")
    S.ensure_eq(f.transmission, tr, "transmission interpolated, transparent outside the data")
    S.ensure_unchanged(d, before, "description")


@contract("C31", [T + "EstimateForegrounds.execute", T + "EstimateForeground.execute", T + "EstimateZodi.execute"], env=MAP, samples=60,
          bounds="0 to 3 foregrounds")
def all_foregrounds(S):
    """the foregrounds of a payload, single or several, on a fresh target or on one observed before"""
    np = S.np
    kinds = S.choose("foregrounds", ["none", "one sky", "one zodi", "one zodiSky", "zodi", "sky", "zodi sky", "sky zodi", "sky zodiSky", "sky zodi zodiSky"])
    t = a_target(S, False)
    S.ghost["state"] = "good"
    if S.flag("observed before"):
        t.foreground = OrderedDict(old="old", sky="old")
        t.skyTransmission = "transmission of an earlier observation"
    zodi = OrderedDict(value="zodiacal", zodiacFactor={"value": 1.5})
    rng, wl = working_range(S)
    names = [] if kinds == "none" else kinds.replace("one ", "").split()
    d = {k: (zodi if k == "zodi" else sky_description(S, k, k)) for k in names}
    if kinds.startswith("one "): frg = dict(d[names[0]])
    else: frg = OrderedDict(("zodiacal" if k == "zodi" else k, d[k]) for k in names)
    before = S.snapshot(d)
    out = S.fn(T + "EstimateForegrounds")()(foregrounds=frg, target=t, wl_range=rng)
    S.ensure(out is t, "the target is returned")
    S.ensure(list(t.foreground) == names, "exactly the configured foregrounds, in their order")
    tau = None
    for k in names:
        f = t.foreground[k]
        S.ensure_eq(f.wl_grid, wl, k + ": working wavelength grid")
        if k == "zodi":
            S.ensure_eq(f.data, glasse(S, wl, 1.5), k + ": radiance")
            continue
        rad, tr = sky_spec(S, d[k], wl)
        S.ensure_eq(f.data, rad, k + ": radiance"); S.ensure_eq(f.transmission, tr, k + ": own transmission")
        tau = tr if tau is None else tau * tr
    if tau is None: S.ensure(not hasattr(t, "skyTransmission"), "no foreground absorbs")
    else:
        S.ensure_eq(t.skyTransmission.wl_grid, wl, "sky transmission: wavelengths")
        S.ensure_eq(t.skyTransmission.data, tau, "sky transmission is the product over the foregrounds")
    S.ensure_unchanged(d, before, "descriptions")
