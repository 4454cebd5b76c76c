"""C25 version check, C26 solid angle of the beam, C28 inputs that cannot be used, C32 building of the channels."""
import base64, contextlib, json as _json, logging, math, os, tempfile
from collections import OrderedDict
import numpy as onp
from ..dsl import contract
from ._common import named

VC = "exorad.utils.version_control:"


# ------------------------------------------------------------------ C25
class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.texts = []

    def emit(self, r): self.texts.append(r.getMessage())


@contextlib.contextmanager
def warnings_of():
    """what the program logs as a warning (or worse) meanwhile"""
    lg, h, was = logging.getLogger("exorad"), Records(), logging.root.manager.disable
    saved, prop = lg.handlers[:], lg.propagate
    lg.handlers[:] = [h]; lg.propagate = False
    logging.disable(logging.NOTSET)
    try: yield h.texts
    finally:
        logging.disable(was)
        lg.handlers[:] = saved; lg.propagate = prop


class Reply:
    def __init__(self, status=200, body=b"", exc=None): self.status_code, self.content, self.exc = status, body, exc
    text = property(lambda s: s.content.decode("utf-8", "replace"))
    ok = property(lambda s: s.status_code < 400)

    def raise_for_status(self):
        import requests
        if self.status_code >= 400: raise requests.HTTPError("%d" % self.status_code)

    def json(self, **k):
        import requests
        try: return _json.loads(self.content)
        except ValueError as e: raise requests.exceptions.JSONDecodeError(str(e), "", 0)


def http_get(S, url, *a, **k):
    S.ghost.setdefault("urls", []).append(url)
    r = S.ghost["reply"]
    if isinstance(r, BaseException): raise r
    return r


class Socket:
    def __init__(self, S): self.S = S
    def connect(self, addr):
        if not self.S.ghost["online"]: raise self.S.ghost["fault"]
    def connect_ex(self, addr): return 0 if self.S.ghost["online"] else 111
    def close(self): pass
    def settimeout(self, t): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


def a_socket(S, *a, **k):
    s = Socket(S)
    if "address" in k or (a and isinstance(a[0], tuple)): s.connect(None)
    return s


NET = {"requests:get": http_get, "socket:socket": a_socket, "socket:create_connection": a_socket, "socket:setdefaulttimeout": lambda S, t: None}


def github(text):
    b = text if isinstance(text, bytes) else text.encode("utf-8")
    e = base64.encodebytes(b).decode("ascii")
    return Reply(200, _json.dumps({"name": "CHANGELOG.md", "encoding": "base64", "content": e}).encode())


NEWEST = "# Changelog\n\n## [Unreleased]\n\n- coming\n\n## [%s]\n\n### Added\n- first\n- second\n\n## [2.0.1]\n- third\n\n## [%s]\n- known thing\n\n## [1.0]\n- old thing\n"


def reply(S, kind, cur):
    import requests
    R = requests
    newer = NEWEST % ("9.9.9", cur)
    return {"timeout": lambda: R.Timeout("t"), "read timeout": lambda: R.ReadTimeout("t"), "connection": lambda: R.ConnectionError("c"), "ssl": lambda: R.exceptions.SSLError("s"),
            "proxy": lambda: R.exceptions.ProxyError("p"), "redirects": lambda: R.TooManyRedirects("r"), "bad chunk": lambda: R.exceptions.ChunkedEncodingError("r"),
            "403": lambda: Reply(403, b'{"message": "API rate limit exceeded"}'), "404": lambda: Reply(404, b'{"message": "Not Found"}'), "500": lambda: Reply(500, b"oops"),
            "page": lambda: Reply(200, b"<html>log in to the hotel network</html>"), "no content": lambda: Reply(200, b'{"message": "moved"}'),
            "not base64": lambda: Reply(200, b'{"content": "a"}'), "not text": lambda: github(b"\xff\xfe## [9.9.9]"), "empty": lambda: github(""),
            "no release": lambda: github("# Changelog\n\n## [Unreleased]\n- x\n"), "same": lambda: github(NEWEST % (cur, "1.9")), "newer": lambda: github(newer),
            "windows lines": lambda: github(newer.replace("\n", "\r\n"))}[kind]()


KINDS = ["offline", "timeout", "read timeout", "connection", "ssl", "proxy", "redirects", "bad chunk", "403", "404", "500", "page", "no content", "not base64", "not text", "empty",
         "no release", "same", "newer", "windows lines"]


@contract("C25", [VC + "VersionControl.__init__", VC + "VersionControl.get_content", VC + "VersionControl._check_internet"], env=NET, samples=120,
          bounds="the listed failures and replies; the texts of the changelog are examples")
def any_reply(S):
    """the program starts whatever the network answers; a newer version is announced and stops it only on request"""
    kind, force = S.choose("reply", KINDS), S.flag("force")
    cur = "2.1.113"
    import socket
    S.ghost["online"] = kind != "offline"
    S.ghost["fault"] = [OSError(101, "unreachable"), TimeoutError("t"), ConnectionRefusedError(), socket.gaierror(-2, "x")][S.choose("fault", [0, 1, 2, 3]) if kind == "offline" else 0]
    S.ghost["reply"] = reply(S, kind, cur) if kind != "offline" else AssertionError("asked while offline")
    S.ghost["urls"] = []
    with warnings_of() as texts:
        o = S.call(S.fn(VC + "VersionControl"), package_url="https://github.com/ExObsSim/ExoRad2-public", current_version=cur, force=force)
    newer = kind in ("newer", "windows lines")
    if newer and force: S.ensure(type(o.exc).__name__ == "VersionError", "an old version is stopped when requested")
    else: S.ensure(not o.raised, "the program starts (%s)" % kind)
    text = "\n".join(texts)
    if newer:
        S.ensure("9.9.9" in text and cur in text, "the newer version is announced with the current one")
        for w in ("first", "second", "third"): S.ensure(w in text, "what is new is shown")
        for w in ("known thing", "old thing", "coming"): S.ensure(w not in text, "only what is new is shown")
    else: S.ensure("NEW CODE" not in text and "9.9.9" not in text, "no version is announced (%s)" % kind)
    if S.ghost["urls"]: S.ensure("ExObsSim/ExoRad2-public" in S.ghost["urls"][0] and S.ghost["urls"][0].endswith("CHANGELOG.md"), "the changelog of the package is read")


@contract("C25", [VC + "VersionControl.get_message", VC + "VersionControl.__init__"], env=NET, samples=300, kind="bounded", bounds="random changelogs of up to 5 releases")
def changelogs(S):
    """the newest release is compared with the current version; releases after it are reported, older ones are not"""
    n = S.choose("releases", [0, 1, 2, 3, 4, 5])
    vs = ["%d.%d.%d" % (3 + n - i, S.choose("minor%d" % i, [0, 4, 12]), S.choose("patch%d" % i, [0, 7, 113])) for i in range(n)]
    where = S.choose("current", [-2, -1, 0, 1, 2, 3, 4])
    cur = vs[where] if 0 <= where < n else "0.0.1"
    if where == -2: cur = "2.1.1"
    if where == -2 and n > 1: vs = vs[:-1] + [cur]        # the newer ones: 3.1.1x, and
    if where == -2 and n > 1: vs[-2] = cur + "0"           # 2.1.10
    mentioned = S.choose("mentioned", [None, 0, 1])      # an item of a release speaks of the current one
    t = "# Changelog\n\nAll changes.\n\n"
    if S.flag("unreleased"): t += "## [Unreleased](https://x.y/z)\n\n- future\n\n"
    for i, v in enumerate(vs):
        t += "## [%s](https://x.y/z) - 2023\n\n" % v
        for k in range(S.choose("items%d" % i, [0, 1, 2])): t += "- item %s%d%s\n" % ("abcde"[i], k, (" (broken since %s)" if i else " (broken since [%s])") % cur if mentioned == i else "")
        t += "\n" if S.flag("blank%d" % i) else ""
    S.ghost.update(online=True, reply=github(t))
    with warnings_of() as texts:
        o = S.call(S.fn(VC + "VersionControl"), package_url="https://github.com/a/b", current_version=cur, force=S.flag("force"))
    newer = n > 0 and vs[0] != cur
    text = "\n".join(texts)
    S.ensure(o.raised == (newer and S.inputs.get("force", False)) or not newer and not o.raised, "stopped only when requested and old")
    S.ensure(bool(texts) == newer, "announced exactly when the newest release is another one")
    if newer:
        S.ensure(vs[0] in text, "the newest release is named")
        known = vs.index(cur) if cur in vs else n
        for i, v in enumerate(vs):
            for k in range(S.inputs.get("items%d" % i, 0) or 0):
                S.ensure(("item %s%d" % ("abcde"[i], k) in text) == (i < known), "items of newer releases, and only those, are shown")


# ------------------------------------------------------------------ C26
EX = "exorad.utils.exolib:"


def omega(S, *a): return S.fn(EX + "OmegaPix")(*a)


@contract("C26", [EX + "OmegaPix"], samples=60)
def closed_form(S):
    """Conway's formula with the half widths of the beam at unit distance, whichever axis is the wider"""
    np = S.np
    fx, fy = S.real("Fx", lo=1, hi=60), S.real("Fy", lo=1, hi=60)
    got = omega(S, fx, fy)
    S.ensure(got.unit == S.u.sr, "steradian")
    a, b = S.ite(fx > fy, 0.5 / fy, 0.5 / fx), S.ite(fx > fy, 0.5 / fx, 0.5 / fy)
    if S.symbolic:
        from ..facades import ellippi
        want = 2 * math.pi - 4 * b / (a * np.sqrt(1 + a * a)) * ellippi(1 - (b / a) ** 2, (a * a - b * b) / (1 + a * a))
        S.ensure_eq(got, want * S.u.sr, "solid angle of an elliptical beam")
    else: S.ensure_eq(float(got.value), numeric(fx, fy), "solid angle of an elliptical beam", rtol=1e-7)
    S.ensure_eq(omega(S, fy, fx), got, "the axes are interchangeable")


def numeric(fx, fy):
    """solid angle of the cone over the ellipse, by direct integration"""
    from scipy.integrate import quad
    a, b = 0.5 / fx, 0.5 / fy

    def f(t):
        r2 = 1 / ((onp.cos(t) / a) ** 2 + (onp.sin(t) / b) ** 2)
        return r2 / (onp.sqrt(1 + r2) * (1 + onp.sqrt(1 + r2)))
    return 4 * quad(f, 0, onp.pi / 2, epsabs=0, epsrel=1e-11)[0]


@contract("C26", [EX + "OmegaPix"], samples=60)
def circular_beam(S):
    """one focal ratio: the cone of half angle arctan(1/2F), 2 pi (1 - cos)"""
    f = S.real("F", lo=1, hi=60)
    got = omega(S, f) if S.flag("default") else omega(S, f, f) if S.flag("given") else omega(S, f, None)
    a = 0.5 / f
    if S.symbolic:
        from ..facades import ellippi
        # Pi(0 | 0) = pi / 2
        p = ellippi(S.np.array(0.0), S.np.array(0.0))
        S.assume(p == math.pi / 2)
    S.ensure_eq(got, 2 * math.pi * (1 - 1 / S.np.sqrt(1 + a * a)) * S.u.sr, "solid angle of a cone", rtol=1e-9)


@contract("C26", [EX + "OmegaPix"], samples=150, kind="bounded", bounds="random focal ratios from 0.6 to 100")
def aperture_limits(S):
    fx, fy, k = S.real("Fx", lo=0.6, hi=100), S.real("Fy", lo=0.6, hi=100), S.real("k", lo=1.01, hi=4)
    o = float(omega(S, fx, fy).value)
    S.ensure(0 < o < 2 * math.pi, "less than the half sphere")
    S.ensure(float(omega(S, k * fx, fy).value) < o and float(omega(S, fx, k * fy).value) < o, "a slower beam subtends less")
    S.ensure(float(omega(S, max(fx, fy)).value) * (1 - 1e-9) <= o <= float(omega(S, min(fx, fy)).value) * (1 + 1e-9), "between the two circular beams")
    S.ensure_eq(o, numeric(fx, fy), "solid angle by direct integration", rtol=1e-7)


# ------------------------------------------------------------------ C32 / C28: channels
IH = "exorad.tasks.instrumentHandler:"
PH = "exorad.models.instruments.photometer:Photometer"
SP = "exorad.models.instruments.spectrometer:Spectrometer"
INS = "exorad.models.instruments.instrument:Instrument"


def built(S, self):
    """what building a channel does here: it records what it was given and fills a table that tells the channels apart"""
    S.ghost.setdefault("built", []).append(self)
    n = S.dim("bins %s" % self.name, lo=1)
    self.table["Wavelength"] = S.arr("wl %s" % self.name, n, unit="um", pos=True)
    self.built_instr["mark"] = S.real("mark %s" % self.name)


BUILD = {PH + ".builder": built, SP + ".builder": built, INS + ".build_optical_path": lambda S, self: None}
CLASSES = ["Photometer", "photometer", "Spectrometer", "SPECTROMETER"]


def payload_of(S, n, classes):
    """a payload with n channels; one alone is stored without its name as a key"""
    chs = OrderedDict()
    for i in range(n):
        nm = ["Phot", "NIRSpec", "AIRS"][i]
        d = OrderedDict(value=nm)
        d["channelClass"] = {"value": classes[i]}
        d["detector"] = {"delta_pix": OrderedDict(value=S.real("pix %d" % i, pos=True, unit="um"), unit="um")}
        if i == 2: d["wl_min"], d["wl_max"] = ({"value": S.real(w + " 2", pos=True, unit="um")} for w in ("wl_min", "wl_max"))
        chs[nm] = d
    common = {"wl_min": {"value": S.real("wl_min", pos=True, unit="um")}, "wl_max": {"value": S.real("wl_max", pos=True, unit="um")}}
    return {"common": common, "channel": dict(chs["Phot"]) if n == 1 else chs}, chs


def check_channels(S, got, payload, chs, classes):
    S.ensure(list(got) == list(chs), "one entry per channel, in the order of the payload")
    S.ensure([c.name for c in S.ghost.get("built", [])] == list(chs), "every channel is built once")
    for i, (nm, d) in enumerate(chs.items()):
        c = got[nm]
        S.ensure(c is S.ghost["built"][i], "%s: the built channel is returned" % nm)
        S.ensure(type(c).__name__.lower() == classes[i].lower(), "%s: kind of channel" % nm)
        S.ensure(c.name == nm and c.payload is payload, "%s: name and payload" % nm)
        S.ensure(c.description is (payload["channel"] if len(chs) == 1 else d), "%s: its own description" % nm)


def a_file(name="out.h5"):
    return os.path.join(tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp")), name)


def check_written(S, got, fn, chs):
    from .output import h5file, same
    load = S.fn("exorad.output.hdf5:load")
    with h5file(S, fn) as f:
        p = f["payload"]
        S.ensure(sorted(p["channels"].keys()) == sorted(chs), "every channel is saved, and nothing else")
        for nm in chs:
            S.ensure_eq(load(p["channels"][nm]["built_instr"])["mark"], got[nm].built_instr["mark"], "%s: what was built is saved" % nm)
            same(S, load(p["channels"][nm]["description"])["detector"]["delta_pix"]["value"], chs[nm]["detector"]["delta_pix"]["value"], "%s: description saved" % nm)
        S.ensure("payload description" in p, "payload saved")


@contract("C32", [IH + "BuildChannels.execute", IH + "BuildInstrument.execute", INS + ".build", INS + ".__init__", INS + ".write"], env=BUILD, samples=60, bounds="1 to 3 channels")
def channels_built(S):
    n = S.choose("channels", [1, 2, 3])
    classes = [S.choose("class%d" % i, CLASSES) for i in range(min(n, 2))] + ["Photometer"] * (n - min(n, 2))
    payload, chs = payload_of(S, n, classes)
    before = S.snapshot(payload)
    write = S.flag("write")
    if write:
        fn = "mem.h5" if S.symbolic else a_file()
        with S.fn("exorad.output.hdf5:HDF5Output")(fn) as out:
            got = S.fn(IH + "BuildChannels")()(payload=payload, write=True, output=out)
    else: got = S.fn(IH + "BuildChannels")()(payload=payload, write=False, output=None)
    check_channels(S, got, payload, chs, classes)
    S.ensure_unchanged(payload, before, "payload")
    if write: check_written(S, got, fn, chs)


@contract("C32", [IH + "PreparePayload.execute", IH + "BuildChannels.execute"], env=dict(BUILD, **{"exorad.tasks.loadOptions:LoadOptions.execute": lambda S, self: options(S, self)}), samples=60, bounds="1 to 3 channels")
def prepared_payload(S):
    n = S.choose("channels", [1, 2, 3])
    classes = ["Photometer", "Spectrometer", "Photometer"][:n]
    payload, chs = payload_of(S, n, classes)
    S.ghost["options"] = payload
    src = S.choose("payload", ["file", "dictionary"])
    out = S.choose("output", ["none", "new", "existing"])
    fn = None if out == "none" else "mem.h5" if S.symbolic else a_file()
    if out == "existing":
        if S.symbolic: fn = a_file()
        with S.fn("exorad.output.hdf5:HDF5Output")(fn) as f: f.store_dictionary({"kept": 7.5}, group_name="earlier")
        if S.symbolic: open(fn, "a").close()
    p, got, wl = S.fn(IH + "PreparePayload")()(payload_file="payload.xml" if src == "file" else payload, output=fn)
    S.ensure(p is payload, "the payload is returned")
    if src == "file": S.ensure(S.ghost["read"] == ["payload.xml"], "the payload file is read")
    else: S.ensure("read" not in S.ghost, "a payload given is used as it is")
    check_channels(S, got, payload, chs, classes)
    S.ensure(len(wl) == 2, "wavelength range")
    S.ensure_eq(wl[0], payload["common"]["wl_min"]["value"], "shortest wavelength"); S.ensure_eq(wl[1], payload["common"]["wl_max"]["value"], "longest wavelength")
    if fn:
        check_written(S, got, fn, chs)
        if out == "existing":
            from .output import h5file
            with h5file(S, fn) as f: S.ensure("earlier" in f, "what the file held is kept")


def options(S, self):
    S.ghost.setdefault("read", []).append(self.get_task_param("filename"))
    self.set_output(S.ghost["options"])


# ------------------------------------------------------------------ C28
@contract("C28", [IH + "BuildInstrument.execute", IH + "BuildChannels.execute"], env=BUILD, samples=40, bounds="the listed names")
def unknown_channel_class(S):
    bad = S.choose("class", ["camera", "", "photo", "photometers", "spectro meter", "instrument"])
    payload, chs = payload_of(S, S.choose("channels", [1, 2]), [bad, "Photometer"])
    before = S.snapshot(payload)
    if S.flag("one instrument"):
        S.expect_raise("an unknown kind of instrument is rejected", S.fn(IH + "BuildInstrument")(), type=bad, name="x", description=chs["Phot"], payload=payload, write=False, output=None, exc=(ValueError, KeyError))
    else:
        S.expect_raise("an unknown kind of channel is rejected", S.fn(IH + "BuildChannels")(), payload=payload, write=False, output=None, exc=(ValueError, KeyError))
    S.ensure("built" not in S.ghost, "it is not built as something else")
    S.ensure_unchanged(payload, before, "payload")


@contract("C28", [IH + "PreparePayload.execute"], env=BUILD, samples=30, bounds="the listed names")
def payload_format(S):
    bad = S.choose("payload", ["payload.txt", "payload", "payload.yaml", "payload.xml.bak", "payload.h5.txt", "", None, 5, 2.5, ["payload.xml"]])
    out = a_file() if S.flag("output") else None
    S.expect_raise("an unsupported payload is rejected", S.fn(IH + "PreparePayload")(), payload_file=bad, output=out, exc=OSError)
    S.ensure("built" not in S.ghost, "nothing is built")
    if out: S.ensure(not os.path.exists(out), "no output is created")


@contract("C28", ["exorad.tasks.targetHandler:LoadTargetList.execute"], samples=20, bounds="the listed names")
def target_list_format(S):
    bad = S.choose("list", ["targets.txt", "targets", "targets.ods", "targets.csv.bak", ".csv", "targets.h5"])
    S.expect_raise("an unsupported target list is rejected", S.fn("exorad.tasks.targetHandler:LoadTargetList")(), target_list=bad, exc=OSError)


E = "exorad.models.optics.opticalElement:OpticalElement"


@contract("C28", [E + ".__init__", E + "._get_transmission", E + "._get_emissivity", "exorad.models.utils:get_wl_col_name"], samples=80)
def optical_element(S):
    """optical elements that do not say which efficiency to use, or whose table lacks a needed column"""
    u = S.u
    n = S.dim("n", lo=2)
    wl = S.arr("wl", n, unit="um", pos=True, increasing=True)
    d = OrderedDict(value="M1", type={"value": "surface"}, temperature={"value": S.real("T", lo=50, hi=300, unit="K")})
    miss = S.choose("problem", ["ambiguous", "no efficiency", "no wavelength", "no emissivity", "another column is configured"])
    if miss == "ambiguous":
        d["transmission"], d["reflectivity"] = {"value": S.real("t", nonneg=True)}, {"value": S.real("r", nonneg=True)}
        d["emissivity"] = {"value": S.real("e", nonneg=True)}
    else:
        m = S.dim("m", lo=2)
        t = S.QTable()
        if miss != "no wavelength": t[S.choose("wavelength column", ["Wavelength", "wavelength"])] = S.arr("x", m, unit="um", pos=True, increasing=True)
        if miss != "no efficiency": t[S.choose("efficiency", ["Transmission", "Reflectivity"])] = S.arr("y", m, nonneg=True)
        if miss == "another column is configured": d["use"] = {"value": S.choose("configured", ["Transmittance", "Throughput"])}
        if miss != "no emissivity": t[S.choose("emissivity", ["Emissivity", "emissivity"])] = S.arr("e", m, nonneg=True)
        d["data"] = t
        if S.flag("temperature only"): d["emissivity"] = {"value": 0.1}
    S.expect_raise("optical element: %s" % miss, S.fn(E), d, wl, exc=KeyError)


@contract("C28", [SP + "._wavelength_table", SP + ".builder"], samples=40, bounds="the listed texts")
def spectrometer_description(S):
    from .optics import channel
    u = S.u
    desc = {"value": "Ch", "wl_min": {"value": 1.0 * u.um}, "wl_max": {"value": 2.0 * u.um},
            "detector": {"delta_pix": {"value": S.real("pix", lo=5, hi=30, unit="um")}}, "targetR": {"value": 30}}
    if S.flag("resolution"):
        desc["targetR"] = S.choose("targetR", [{"value": "high"}, {"value": ""}, {"value": "Native"}, {"unit": "um"}, {}])
        x = S.QTable()
        n = S.dim("n", lo=3)
        x["Wavelength"], x["x"] = S.arr("wl", n, unit="um", lo=0.5, hi=3, increasing=True), S.arr("x", n, unit="um", increasing=True, lo=-3000, hi=3000)
        desc["wlSolution"] = {"data": x}
        c = channel(S, {}, desc, "Spectrometer")
        S.expect_raise("a resolution that is not a number, a table or 'native' is rejected", c.builder, exc=(KeyError, ValueError, TypeError))
    else:
        k = S.choose("missing", ["solution", "data", "column"])
        if k != "solution": desc["wlSolution"] = {"value": "wl.csv"}
        if k == "column":
            x = S.QTable()
            x["Wavelength"] = S.arr("wl", S.dim("n", lo=3), unit="um", increasing=True)
            desc["wlSolution"]["data"] = x
        S.expect_raise("a missing wavelength solution is reported", channel(S, {}, desc, "Spectrometer").builder, exc=KeyError)


class Thing:
    luminosity = "l"; sed = "s"; model = "m"


@contract("C28", ["exorad.models.target:Target.update_target"], samples=30)
def update_with_anything(S):
    """only stars and custom spectra update a target; anything else is refused with a warning"""
    T = S.fn("exorad.models.target:Target")
    t = T()
    t.star = T()
    t.star.luminosity, t.star.sed, t.star.model = S.real("L"), "own spectrum", "own model"
    was = dict(vars(t.star))
    bad = S.choose("object", ["string", "target", "look alike", "none", "number"])
    with warnings_of() as texts:
        o = S.call(t.update_target, {"string": "star", "target": T(), "look alike": Thing(), "none": None, "number": 5}[bad])
    S.ensure(not o.raised, "no failure"); S.ensure(len(texts) > 0, "a warning tells that nothing was done")
    for k in was: S.ensure(vars(t.star).get(k) is was[k], "the target keeps its " + k)
    S.ensure(set(vars(t.star)) == set(was), "nothing is added")


@contract("C28", ["exorad.models.source:Star.__init__"], samples=20, bounds="the listed folders")
def stellar_models(S):
    """a folder without stellar models, or a model in an unknown format, is reported"""
    from .stars import star_pars
    d = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp"))
    for f in S.choose("files", [[], ["readme.txt"], ["lte050-4.5-0.0.fits"]]): open(os.path.join(d, f), "w").close()
    Star = S.fn("exorad.models.source:Star")
    D, T, g, R = S.real("D", pos=True, unit="pc"), S.real("T", lo=3000, hi=7000, unit="K"), S.real("g", lo=3, hi=6), S.real("R", pos=True, unit="R_sun")
    S.expect_raise("no stellar model found", Star, d, D, T, g, 0.0, R, False, 0.5 * S.u.um, 5 * S.u.um, exc=OSError)


@contract("C28", ["exorad.utils.util:parse_range"], samples=300, kind="bounded", bounds="random lists of numbers and ranges")
def selections(S):
    """selection of targets: numbers and inclusive ranges; anything else selects nothing"""
    f = S.fn("exorad.utils.util:parse_range")
    n = S.choose("available", [0, 1, 3, 12])
    S.ensure(f("all", n) == list(range(n)) and f(" all ", n) == list(range(n)), "all"); S.ensure(f("none", n) == [] and f(" none\n", n) == [], "none")
    want, txt = [], []
    for i in range(S.choose("items", [1, 2, 3])):
        a, b = S.choose("a%d" % i, [0, 1, 7, 11]), S.choose("b%d" % i, [0, 1, 5, 11])
        if S.flag("range%d" % i):
            want += list(range(a, a + b + 1)); txt.append(S.choose("separator", ["%d-%d", "%d:%d"]) % (a, a + b))
        else:
            want.append(a); txt.append("%d" % a)
    S.ensure(f(",".join(txt), n) == want, "numbers and ranges")
    bad = S.choose("bad", ["x", "1-x", "1.5", "1-", "1:", "1:x", ""])
    S.ensure(f(",".join(txt + [bad]), n) is None, "a selection that cannot be read selects nothing")
