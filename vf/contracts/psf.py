"""C27: point spread functions are read, sampled and integrated over the pixel as documented.  The two dimensional convolution is scipy's."""
import os, tempfile
import numpy as onp
from ..dsl import contract
from ._common import length, no_rounding

EX = "exorad.utils.exolib:"


def convolve(S, ima, kernel, mode="full", **k):
    S.ghost["conv"] = (ima, kernel, mode)
    if S.symbolic: 
        r = S.arr("convolved", ima.shape[0], ima.shape[1], nonneg=True)
    else:
        import importlib
        r = importlib.import_module("scipy.signal._signaltools").convolve2d(ima, kernel, mode)
    S.ghost["out"] = r
    return r


CONV = {"scipy.signal:convolve2d": convolve}


def lengths(S):
    """focal ratios, wavelength and pixel size; the response spans a moderate number of samples in the concrete runs"""
    return S.real("Fx", lo=5, hi=40), S.real("Fy", lo=5, hi=40), S.real("wl", lo=1, hi=8, unit="um"), length(S, S.real("pix", lo=1, hi=12, unit="um"))


def pixel_response(S, kernel, kx, ky, label):
    """kernel of one pixel: whole samples count one, the two fractional ends half of the fraction each"""
    np = S.np
    no_rounding(S, kx, True); no_rounding(S, ky, True)
    kx, ky = kx.to(S.u.dimensionless_unscaled).value, ky.to(S.u.dimensionless_unscaled).value
    for _ in (0, 1):
        kx = kx[0] if getattr(kx, "ndim", 0) else kx
        ky = ky[0] if getattr(ky, "ndim", 0) else ky
    nx, ny = np.floor(kx), np.floor(ky)
    S.ensure_eq(kernel.shape[0], ny + 2, label + ": rows"); S.ensure_eq(kernel.shape[1], nx + 2, label + ": columns")

    nx, ny = kernel.shape[1] - 2, kernel.shape[0] - 2        # the whole samples, as just established

    def w(n, k, j): return S.ite((j == 0) | (j == n + 1), 0.5 * (k - n), 1.0)
    if S.symbolic:
        i, j = S.integer("row"), S.integer("column")
        S.assume(i < ny + 2); S.assume(j < nx + 2)
        S.ensure_eq(kernel[i, j] * S.u.dimensionless_unscaled, w(ny, ky, i) * w(nx, kx, j), label)
    else:
        want = onp.outer([w(ny, ky, i) for i in range(int(ny) + 2)], [w(nx, kx, j) for j in range(int(nx) + 2)])
        S.ensure_eq(kernel, want, label)
        S.ensure_eq(onp.sum(onp.asarray(kernel)), kx * ky, label + ": area of the pixel")


@contract("C27", [EX + "binnedPSF"], env=CONV, samples=12)
def airy(S):
    """without a file the response is the normalised Airy pattern of the aperture, integrated over the pixel"""
    np = S.np
    fx, fy, wl, pix = lengths(S)
    args = dict(F_x=fx, F_y=fy, wl=wl * np.ones(1) if S.flag("array") else wl, delta_pix=pix)
    if S.flag("missing file"): args["filename"] = "/nonexistent/psf.fits"
    if S.flag("another detector before"): S.fn(EX + "binnedPSF")(**dict(args, delta_pix=2 * pix))
    prf, kernel, extent = S.fn(EX + "binnedPSF")(**args)
    ima, k, mode = S.ghost["conv"]
    S.ensure(prf is S.ghost["out"], "the pixel response is the convolved image"); S.ensure(mode == "same", "same sampling as the image")
    S.ensure(k is kernel, "convolved with the pixel")
    s = 8.0 / 255
    pixel_response(S, kernel, pix / (fx * wl * s), pix / (fy * wl * s), "pixel")
    for got, want in zip(extent, (-128 * fx, 128 * fx, -128 * fy, 128 * fy)): S.ensure_eq(got * np.ones(1), want * wl * s * np.ones(1), "extent of the image")
    ima = onp.asarray(concrete(S, ima))
    from scipy.special import j1
    x = onp.linspace(-4, 4, 256)
    r = onp.pi * onp.hypot(x[None, :], x[:, None]) + 1e-10
    want = (2 * j1(r) / r) ** 2
    S.ensure(ima.shape == (256, 256) and onp.allclose(ima, want / want.sum(), rtol=1e-9, atol=1e-15), "Airy pattern that sums to one")


def concrete(S, a):
    if not S.symbolic or isinstance(a, onp.ndarray): return a
    from ..terms import const
    n, m = a.shape
    return onp.array([[float(a.at(i, j).val) for j in range(m)] for i in range(n)])


# ------------------------------------------------------------------ files
class Hdu:
    def __init__(self, data, header): self.data, self.header = data, header


class Fits(list):
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


def fits_file(S, i):
    if "fits%d" % i in S.ghost: return S.ghost["fits%d" % i]
    n, m = S.dim("n%d" % i, lo=3), S.dim("m%d" % i, lo=3)
    hdr = {"CDELT1": S.real("c1 %d" % i, lo=0.05, hi=0.5), "CDELT2": S.real("c2 %d" % i, lo=0.05, hi=0.5), "CRPIX1": S.real("p1 %d" % i, lo=1, hi=9), "CRPIX2": S.real("p2 %d" % i, lo=1, hi=9),
           "NAXIS1": m, "NAXIS2": n, "WAVELEN": S.real("w%d" % i, lo=1, hi=8)}
    S.ghost["fits%d" % i] = (S.arr("image%d" % i, n, m, nonneg=True), hdr)
    return S.ghost["fits%d" % i]


def fits_open(S, name, *a, **k):
    S.ghost.setdefault("opened", []).append(str(name))
    i = S.ghost["files"].index(str(name))
    image, hdr = fits_file(S, i)
    return Fits([Hdu(image.copy(), dict(hdr))])


def fits_glob(S, pattern, *a, **k):
    return list(reversed(S.ghost["files"])) if pattern == S.ghost["dir"] + "*.fits" else []


FITS = {"astropy.io.fits:open": fits_open, "glob:glob": fits_glob}


def files(S, k):
    d = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp")) + "/"
    fs = [os.path.join(d, "psf%d.fits" % i) for i in range(k)]
    for f in fs: open(f, "w").close()
    S.ghost["dir"], S.ghost["files"] = d, fs
    return d, fs


def nearest(S, k, wl):
    """the file whose wavelength is nearest (the first one of the folder when two are equally near)"""
    d = [abs(fits_file(S, i)[1]["WAVELEN"] - wl.value) for i in range(k)]
    best = 0
    for i in range(1, k):
        if S.decide(d[i] < d[best]): best = i
    return best


@contract("C27", [EX + "binnedPSF", EX + "load_standard_psf"], env=dict(CONV, **FITS), samples=30, bounds="folders of up to 3 files")
def image_file(S):
    """a FITS image, or the image of a folder nearest in wavelength, is used with its own sampling"""
    fx, fy, wl, pix = lengths(S)
    k = S.choose("files", [0, 1, 2, 3])
    d, fs = files(S, max(k, 1))
    if S.flag("another detector before"): S.fn(EX + "binnedPSF")(F_x=fx, F_y=fy, wl=wl, delta_pix=2 * pix, filename=d if k else fs[0], format="zemax")
    prf, kernel, extent = S.fn(EX + "binnedPSF")(F_x=fx, F_y=fy, wl=wl, delta_pix=pix, filename=d if k else fs[0], format="zemax")
    i = nearest(S, k, wl) if k else 0
    ima, h = fits_file(S, i)
    got, kk, mode = S.ghost["conv"]
    S.ensure(S.ghost["opened"][-1] == fs[i], "the image nearest in wavelength is opened")
    S.ensure_eq(got, ima, "its image is used"); S.ensure(prf is S.ghost["out"] and kk is kernel and mode == "same", "convolved with the pixel")
    pixel_response(S, kernel, pix / (fx * wl * h["CDELT2"]), pix / (fy * wl * h["CDELT1"]), "pixel")
    want = (-(h["CRPIX2"] - 1) * fx * h["CDELT2"], (h["NAXIS2"] - h["CRPIX2"] + 1) * fx * h["CDELT2"], -(h["CRPIX1"] - 1) * fy * h["CDELT1"], (h["NAXIS1"] - h["CRPIX1"] + 1) * fy * h["CDELT1"])
    for g, w in zip(extent, want): S.ensure_eq(g, w * wl, "extent of the image")


@contract("C27", [EX + "pixel_based_psf", EX + "load_pixel_psf_size"], env=FITS, samples=30, bounds="folders of up to 3 files")
def pixel_image(S):
    """an image sampled at the pixels is used as it is"""
    np = S.np
    k = S.choose("files", [0, 1, 2, 3])
    d, fs = files(S, max(k, 1))
    wl, pix = S.real("wl", lo=1, hi=8, unit="um"), length(S, S.real("pix", lo=1, hi=12, unit="um"))
    if S.flag("another detector before"): S.fn(EX + "pixel_based_psf")(wl, 2 * pix, d if k else fs[0])
    prf, kernel, extent = S.fn(EX + "pixel_based_psf")(wl, pix, d if k else fs[0])
    i = nearest(S, k, wl) if k else 0
    ima, h = fits_file(S, i)
    S.ensure(S.ghost["opened"][-1] == fs[i], "the image nearest in wavelength is opened")
    S.ensure_eq(prf, ima, "the image is the response"); S.ensure_eq(kernel, np.ones(1), "no further integration")
    for g, w in zip(extent, (-h["NAXIS2"], h["NAXIS2"], -h["NAXIS1"], h["NAXIS1"])): S.ensure_eq(g, w * 0.5 * pix * np.ones(1), "extent of the image")


# ------------------------------------------------------------------ PAOS
WLS = [["1.0", "1.5", "3.0"], ["0.55", "1.1"], ["2.25"]]


def paos_file(S, keys):
    """a PAOS file: for every wavelength the surfaces of the optical train, the last one being the image"""
    name = "paos.h5" if S.symbolic else os.path.join(tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp")), "paos.h5")
    n, m = S.dim("N", lo=3), S.dim("M", lo=3)
    planes = {}
    with S.fn("exorad.output.hdf5:HDF5Output")(name) as out:
        for k in keys:
            p = {"amplitude": S.arr("amp " + k, n, m, nonneg=True), "dx": S.real("dx " + k, lo=0.5e-6, hi=4e-6), "dy": S.real("dy " + k, lo=0.5e-6, hi=4e-6),
                 "extent": S.arr("ext " + k, 4), "fratio": S.real("F " + k, lo=5, hi=40)}
            planes[k] = p
            other = dict(p, dx=1.0, dy=1.0, fratio=1.0, amplitude=p["amplitude"] + 1.0)
            out.store_dictionary({"S02": other, "S09": p}, group_name=k)
    return name, planes


def plane(S, p):
    """what a PAOS surface holds: intensity, sampling and extent in micron"""
    return p["amplitude"] ** 2, p["dx"] * 1e6, p["dy"] * 1e6, p["extent"] * 1e6


@contract("C27", [EX + "paosPSF", EX + "load_paos_psf", EX + "interpolate_paos_psf"], env=CONV, samples=40, bounds="files with 1, 2 or 3 wavelengths")
def paos(S):
    """a PAOS image is the squared amplitude of the last surface, linear in wavelength between (and beyond) the computed wavelengths"""
    u = S.u
    keys = S.choose("wavelengths", WLS)
    name, planes = paos_file(S, keys)
    pix = length(S, S.real("pix", lo=1, hi=12, unit="um"))
    exact = S.choose("wavelength", keys + ["other"])
    if exact != "other": w = float(exact)
    else:
        w = S.real("w", lo=0.3, hi=4)
        for k in keys: S.assume(w != float(k))
    wl = (S.np.ones(1) if S.symbolic and exact == "other" else onp.ones(1)) * w * u.micron
    single = len(keys) == 1 and exact == "other"
    if exact != "other": ima, dx, dy, ext = plane(S, planes[exact])
    elif not single:
        # the two wavelengths that enclose w, or the two nearest ones outside the range
        j = 0
        while j < len(keys) - 2 and not S.decide(w < float(keys[j + 1])): j += 1
        lo, hi = float(keys[j]), float(keys[j + 1])
        t = (w - lo) / (hi - lo)
        ima, dx, dy, ext = [a * (1 - t) + b * t for a, b in zip(plane(S, planes[keys[j]]), plane(S, planes[keys[j + 1]]))]
        S.assume(dx > 0.3); S.assume(dy > 0.3)
    if not single and S.flag("another detector before"): S.fn(EX + "paosPSF")(wl=wl, delta_pix=2 * pix, filename=name)
    o = S.call(S.fn(EX + "paosPSF"), wl=wl, delta_pix=pix, filename=name)
    if single:
        S.ensure(isinstance(o.exc, ValueError), "one wavelength cannot be interpolated"); return
    S.ensure(not o.raised, "the response is found")
    if o.raised: return
    prf, kernel, extent = o.value
    got, kk, mode = S.ghost["conv"]
    S.ensure(prf is S.ghost["out"] and kk is kernel and mode == "same", "convolved with the pixel")
    S.ensure_eq(got, ima, "intensity"); S.ensure_eq(extent, ext * u.um, "extent")
    pixel_response(S, kernel, pix / (dx * u.um), pix / (dy * u.um), "pixel")


@contract("C27", [EX + "paosPSF"], samples=10)
def paos_missing(S):
    S.expect_raise("a PAOS file that does not exist is reported", S.fn(EX + "paosPSF"), wl=onp.ones(1) * S.u.micron, delta_pix=S.real("pix", lo=1, unit="um"), filename="/nonexistent/paos.h5", exc=FileNotFoundError)
    name, planes = paos_file(S, ["1.0"])
    S.expect_raise("a wavelength in another unit is rejected", S.fn(EX + "paosPSF"), wl=onp.ones(1) * S.u.nm, delta_pix=S.real("pix", lo=1, unit="um"), filename=name, exc=AssertionError)
