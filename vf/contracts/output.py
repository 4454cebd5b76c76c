"""C21: what is saved can be read back."""
import os, tempfile
from collections import OrderedDict
import numpy as onp
from ..dsl import contract

H5 = "exorad.output.hdf5:"
UT = "exorad.output.hdf5.util:"


class Obj:
    pass


def scratch_file(S):
    if S.symbolic: return "mem.h5"
    return os.path.join(tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp")), "out.h5")


def h5file(S, name, mode="r"):
    if S.symbolic:
        from .. import h5
        return h5.File(name, mode)
    import h5py
    return h5py.File(name, mode)


def text(x): return x.decode("utf-8") if isinstance(x, bytes) else str(x)


def same(S, got, want, label):
    """`got` was read back where `want` was written"""
    u = S.u
    Signal = S.fn("exorad.models.signal:Signal")
    if isinstance(want, (S.QTable, S.Table)): same_table(S, got, want, label)
    elif isinstance(want, Signal):
        S.ensure_eq(got["wl_grid"]["value"], want.wl_grid, label + ": wavelengths")
        S.ensure_eq(got["data"]["value"], want.data, label + ": data")
    elif isinstance(want, dict):
        for k in want:
            if isinstance(want[k], list) and hasattr(want[k][0], "unit"):        # one entry per element
                for i, q in enumerate(want[k]): same(S, got["%s%d" % (k, i)], q, "%s.%s%d" % (label, k, i))
                continue
            S.ensure(k in got, "%s: %s is read back" % (label, k))
            same(S, got[k], want[k], "%s.%s" % (label, k))
            if isinstance(want[k], (S.QTable, S.Table)):          # and column by column, for programs that do not know tables
                g = got["%s_to_group" % k]
                S.ensure(sorted(g) == sorted(want[k].keys()), "%s.%s: one group for each column" % (label, k))
                for c in want[k].keys():
                    if getattr(want[k][c], "unit", None) is not None: S.ensure_eq(g[c]["value"], want[k][c], "%s.%s: values and unit of column %s" % (label, k, c))
    elif isinstance(want, str): S.ensure(text(got) == want, label + ": text")
    elif (isinstance(want, (list, tuple)) and want or type(want) is onp.ndarray and want.ndim) and isinstance(want[0], str):
        S.ensure([text(x) for x in onp.ravel(got)] == list(want), label + ": list of texts")
    elif isinstance(want, (list, tuple)): S.ensure_eq(got, S.np.array(want), label + ": numbers")
    elif isinstance(want, bool): S.ensure(bool(got) == want, label + ": flag")
    elif hasattr(want, "unit"):
        if isinstance(got, dict): got = got["value"]
        S.ensure_eq(got, want, label)
    else: S.ensure_eq(got, want, label)


def column_values(c):
    return getattr(c, "value", c) if getattr(c, "unit", None) is not None or hasattr(c, "value") else c


def same_table(S, got, want, label):
    S.ensure(list(got.keys()) == list(want.keys()), label + ": columns")
    for k in want.keys():
        w, g = want[k], got[k]
        unit = getattr(w, "unit", None)
        if unit is None:
            if not S.symbolic and getattr(g, "dtype", onp.dtype(float)).kind == "S": g = onp.array([text(x) for x in g])
            S.ensure_eq(g if S.symbolic else onp.asarray(g), w if S.symbolic else onp.asarray(w), "%s: column %s" % (label, k))
            continue
        S.ensure(getattr(g, "unit", None) == unit, "%s: unit of column %s" % (label, k))
        S.ensure_eq(raw(S, g), raw(S, w), "%s: column %s" % (label, k))


def raw(S, c):
    if S.symbolic: return c._raw()
    return onp.asarray(getattr(c, "value", c))


def a_table(S, pre=""):
    n = S.dim(pre + "rows", lo=1)
    t = S.QTable()
    t["Wavelength"] = S.arr(pre + "t_wl", n, unit="um", pos=True)
    t["chName"] = "Phot"
    t["signal"] = S.arr(pre + "t_sig", n, unit="ct/s")
    t["QE"] = S.arr(pre + "t_qe", n)
    t.meta["name"] = "table"
    return t


def store(S, name, f, append=False):
    with S.fn(H5 + "HDF5Output")(name, append=append) as out: f(out)


def read(S, name, path):
    f = h5file(S, name)
    try: return S.fn(H5 + "load")(f[path])
    finally: f.close()


def content(S, kind, pre=""):
    n = S.dim(pre + "n", lo=1)
    if kind == "numbers": return {"a": S.real(pre + "a"), "i": 7, "b": S.flag(pre + "b"), "x": 2.5}
    if kind == "text": return {"s": "photometer", "e": "", "l": ["one", "two", "three"], "t": ("x", "yy")}
    if kind == "quantities": return {"q": S.real(pre + "q", unit="um"), "v": S.arr(pre + "v", n, unit="W/(m2 um)"), "d": S.arr(pre + "d", n) * S.u.dimensionless_unscaled}
    if kind == "arrays": return {"v": S.arr(pre + "w", n), "m": S.arr(pre + "m", n, 3), "l": [1.5, 2.5, 3.5], "t": (1, 2)}
    if kind == "option": return {"D": OrderedDict(value=S.real(pre + "q2", unit="m"), unit="m", comment="diameter"), "R": {"value": 3}}
    if kind == "signal":
        wl = S.arr(pre + "s_wl", n, unit="um", pos=True)
        return {"sed": S.fn("exorad.models.signal:Sed")(wl, S.arr(pre + "s_data", n, unit="W/(m2 um)"))}
    if kind == "whole numbers": return {"ids": [2 ** 53 + 1, 5], "a": onp.int32(5), "b": onp.int64(-7), "c": onp.float64(2.5), "d": 3}
    if kind == "text arrays": return {"names": onp.array(["one", "two", "three"]), "n": 3}
    if kind == "list of quantities": return {"l": [S.real(pre + "l0", unit="um"), S.real(pre + "l1", unit="m")], "n": 3}
    if kind == "table": return {"tab": a_table(S, pre), "other": 1.5}
    if kind == "dotted names": return {"run 2.1": a_table(S, pre), "v1.0": 1.5, "tab": a_table(S, pre + "z"), "q.x": S.real(pre + "q", unit="um"), "the value of x": S.arr(pre + "qv", n, unit="um"), "value x": S.real(pre + "qx", unit="m")}
    if kind == "long texts": return {"l": ["/data/" + "x" * 80, "\u00c5ngstr\u00f6m", "\u00c5" * 60, ""], "s": "y" * 90, "u": "\u03bb", "a": onp.array(["ab" * 40, "c"])}


KINDS = ["numbers", "text", "quantities", "arrays", "option", "signal", "table", "whole numbers", "text arrays", "list of quantities", "dotted names", "long texts"]


@contract("C21", [H5 + "HDF5Output", H5 + "HDF5OutputGroup", H5 + "load", UT + "recursively_save_dict_contents_to_output", UT + "store_thing",
                  UT + "hdf5_group_to_dict", UT + "recursively_read_dict_contents", UT + "load_table"], samples=80, bounds="dictionaries nested up to 3 deep")
def dictionary(S):
    kind = S.choose("content", KINDS)
    d = content(S, kind)
    depth = S.choose("depth", [0, 1, 2])
    for k in range(depth): d = OrderedDict([("level%d" % k, d), ("note", "n%d" % k)])
    before = S.snapshot(d)
    name = scratch_file(S)
    if S.flag("one by one"):
        def put(out):
            g = out.create_group("stuff")
            for k in d: g.store_dictionary({k: d[k]})
    else:
        def put(out): out.store_dictionary(d, group_name="stuff")
    store(S, name, put)
    S.ensure_unchanged(d, before, "the stored dictionary")
    same(S, read(S, name, "stuff"), d, "read back")


@contract("C21", [H5 + "HDF5OutputGroup.write_" + x for x in ("array", "scalar", "string", "string_array", "quantity")], samples=60)
def one_thing(S):
    """each kind of value is written under its name, with what is said about it"""
    n = S.dim("n", lo=1)
    about = {"origin": "sky model", "level": 3} if S.flag("described") else None
    k = S.choose("kind", ["array", "arrays", "scalar", "string", "string_array", "quantity"])
    v = {"array": lambda: S.arr("a", n), "arrays": lambda: [S.arr("a", n), S.arr("b", n)], "scalar": lambda: S.real("x"), "string": lambda: "a text", "string_array": lambda: ["one", "two"],
         "quantity": lambda: S.arr("q", n, unit="W/(m2 um)")}[k]()
    name = scratch_file(S)

    def put(out):
        g = out.create_group("stuff")
        if k == "quantity": g.write_quantity("thing", v)
        elif about is None: getattr(g, "write_" + k.replace("arrays", "array"))("thing", v)
        else: getattr(g, "write_" + k.replace("arrays", "array"))("thing", v, about)
    store(S, name, put)
    f = h5file(S, name)
    try:
        for i, w in enumerate(v) if k == "arrays" else [("", v)]:
            d = f["stuff"]["thing%s" % i]
            if k == "quantity":
                S.ensure_eq(d["value"][()] * S.u.Unit(text(d["unit"][()])), w, "value and unit"); continue
            if k == "string_array": S.ensure([text(x) for x in onp.ravel(d[()])] == w, "texts")
            elif k == "string": S.ensure(text(d[()]) == w, "text")
            else: S.ensure_eq(d[()], w, "value")
            S.ensure({a: (int(b) if a == "level" else text(b)) for a, b in dict(d.attrs).items()} == (about or {}), "what is said about it")
    finally: f.close()


@contract("C21", [H5 + "HDF5Output", UT + "store_thing"], samples=40)
def unsupported_content(S):
    """what cannot be stored is reported, not dropped"""
    bad = S.choose("content", [None, object(), {"a": None}, 1 + 2j, b"bytes", {1, 2}])
    name = scratch_file(S)
    o = S.call(store, S, name, lambda out: out.store_dictionary({"good": 1.0, "bad": bad}, group_name="stuff"))
    S.ensure(isinstance(o.exc, ValueError), "an object that cannot be stored is reported")


@contract("C21", [H5 + "HDF5Output"], samples=60)
def several_groups(S):
    """groups and files are opened and reopened without losing what they hold"""
    name = scratch_file(S)
    a, b, c = content(S, S.choose("first", ["numbers", "quantities"]), "A "), content(S, S.choose("second", ["option", "table"]), "B "), {"z": 4.5}
    store(S, name, lambda out: out.create_group("top").store_dictionary(a, group_name="one"))
    append = S.flag("append")
    store(S, name, lambda out: out.create_group("top").store_dictionary(b, group_name="two"), append=append)
    store(S, name, lambda out: out.create_group("top").store_dictionary({"w": 5.5}, group_name="two"), append=True)
    store(S, name, lambda out: out.create_group("other").store_dictionary(c, group_name="three"), append=True)
    top = read(S, name, "top")
    if append: same(S, top["one"], a, "first group")
    else: S.ensure("one" not in top, "a new file replaces the old one")
    same(S, top["two"], dict(b, w=5.5), "second group")
    same(S, read(S, name, "other")["three"], c, "third group")
    S.ensure("program_version" in read(S, name, "info")["ExoRad"], "the file says what wrote it")


@contract("C21", ["exorad.models.target:Target.write", "exorad.models.target:Target.to_dict", "exorad.utils.util:to_dict", H5 + "load"], samples=60, bounds="1 or 2 targets")
def targets(S):
    name = scratch_file(S)
    ts = []
    for i in range(S.choose("targets", [1, 2])):
        t = S.fn("exorad.models.target:Target")()
        t.name, t.id, t.star = "HD %d" % i, i, S.fn("exorad.models.target:Target")()
        t.star.name, t.star.D, t.star.Teff, t.star.magk = "star %d" % i, S.real("D%d" % i, pos=True, unit="pc"), S.real("T%d" % i, pos=True, unit="K"), S.real("K%d" % i)
        t.star.calc_logg = t.calc_logg
        pre = "%d " % i
        n = S.dim(pre + "n", lo=1)
        wl = S.arr(pre + "wl", n, unit="um", pos=True)
        t.star.sed = S.fn("exorad.models.signal:Sed")(wl, S.arr(pre + "sed", n, unit="W/(m2 um)"))
        t.foreground = OrderedDict(zodi=S.fn("exorad.models.signal:Radiance")(wl, S.arr(pre + "zodi", n, unit="W/(m2 um sr)")))
        t.table = a_table(S, pre)
        ts.append(t)
    for t in ts: store(S, name, t.write, append=True)
    for t in ts:
        g = read(S, name, "targets")[t.name]
        S.ensure_eq(g["id"], t.id, "identifier")
        same(S, g["star"], {"D": t.star.D, "Teff": t.star.Teff, "magk": t.star.magk}, "star of " + t.name)
        same(S, g["star"]["sed"], t.star.sed, "spectrum of " + t.name)
        same(S, g["foreground"]["zodi"], t.foreground["zodi"], "foreground of " + t.name)
        tab = g["table"]
        same_table(S, tab["table"] if isinstance(tab, dict) else tab, t.table, "table of " + t.name)
        S.ensure(not isinstance(t.table, dict) and t.star.D.unit == S.u.pc, "the target is left as it was")


# ------------------------------------------------------------------ channels
def same_columns(S, got, want, label):
    S.ensure(sorted(got.keys()) == sorted(want.keys()), label + ": columns")
    for k in want.keys():
        if k == "chName": 
            if not S.symbolic: S.ensure([text(x) for x in got[k]] == [text(x) for x in want[k]], label + ": chName")
            continue
        S.ensure_eq(got[k], want[k], "%s: column %s" % (label, k))


@contract("C21", ["exorad.models.instruments.instrument:Instrument.write", "exorad.models.instruments.instrument:Instrument.load",
                  "exorad.tasks.instrumentHandler:LoadPayload.execute", H5 + "HDF5OutputGroup.write_table"], samples=40, bounds="1 or 2 channels")
def built_channels(S):
    """channels written to a file are loaded with the same table, description and built data, and cannot be built again"""
    name = scratch_file(S)
    payload = {"common": {"D": OrderedDict(value=S.real("D", unit="m", pos=True), unit="m")}, "channel": {}}
    chs = OrderedDict()
    for i in range(S.choose("channels", [1, 2])):
        kind = S.choose("class %d" % i, ["Photometer", "spectrometer"])
        desc = OrderedDict(value="ch%d" % i, channelClass={"value": kind}, pixel=OrderedDict(value=S.real("pix%d" % i, unit="um"), unit="um"))
        cls = S.fn("exorad.models.instruments:" + kind.capitalize())
        c = cls("ch%d" % i, desc, payload)
        c.table = a_table(S, "%d " % i)
        c.built_instr = {"AreaScale": S.real("area%d" % i), "solution": {"wl": a_table(S, "built %d " % i)["Wavelength"]}, "window": S.arr("win%d" % i, S.dim("W%d" % i), pos=True)}
        chs["ch%d" % i] = (kind, c, cls)

    def put(out):
        g = out.create_group("payload")
        g.store_dictionary(payload, group_name="payload description")
        g = g.create_group("channels")
        for k, c, _ in chs.values(): c.write(g)
    store(S, name, put)
    f = h5file(S, name)
    try: got_payload, got = S.fn("exorad.tasks.instrumentHandler:LoadPayload")()(input=f)
    finally: f.close()
    same(S, got_payload, {"common": payload["common"]}, "payload")
    S.ensure(list(got) == list(chs), "every channel")
    for nm, (kind, c, cls) in chs.items():
        g = got[nm]
        S.ensure(type(g) is cls, "kind of channel"); S.ensure(g.name == nm, "name of the channel")
        same_columns(S, g.table, c.table, "table of " + nm)
        same(S, g.built_instr, c.built_instr, "built data of " + nm)
        same(S, g.description, {k: c.description[k] for k in ("value", "channelClass", "pixel")}, "description of " + nm)
        S.expect_raise("a loaded channel is not built again", g.build, exc=ValueError)


@contract("C21", ["exorad.tasks.instrumentHandler:PreparePayload.execute", "exorad.tasks.targetHandler:ObserveTarget.execute"], samples=1, kind="bounded",
          bounds="the example payload")
def resumed_observation(S):
    """a payload saved by an earlier run gives the same observation"""
    import copy
    repo = os.environ.get("VERIF_REPO", "/repo")
    T = S.mod("exorad.tasks")
    S.fn("exorad.log:setLogLevel")(50)
    pl = T.LoadOptions()(filename=os.path.join(repo, "examples", "payload_example.xml"), config_path=repo)
    pl["common"]["sourceSpectrum"] = {"value": "planck"}
    name = scratch_file(S)
    p, c, rng = T.PreparePayload()(payload_file=pl, output=name)
    import shutil
    shutil.copy(name, name[:-3] + ".hdf5")
    o = S.call(T.PreparePayload(), payload_file=name[:-3] + ".hdf5", output=None)
    S.ensure(not o.raised, "the saved payload is loaded from a file named .hdf5")
    o = S.call(T.PreparePayload(), payload_file=name, output=None)
    S.ensure(not o.raised, "the saved payload is loaded")
    p2, c2, rng2 = o.value
    S.ensure_eq(rng2[0], rng[0], "wavelength range"); S.ensure_eq(rng2[1], rng[1], "wavelength range")
    S.ensure(list(c2) == list(c), "channels")
    for k in c: same_columns(S, c2[k].table, c[k].table, "table of " + k)
    tl = T.LoadTargetList()(target_list=os.path.join(repo, "examples", "test_target.csv"))
    a, b = copy.deepcopy(tl.target[0]), copy.deepcopy(tl.target[0])
    T.ObserveTarget()(target=a, payload=p, channels=c, wl_range=rng)
    o = S.call(T.ObserveTarget(), target=b, payload=p2, channels=c2, wl_range=rng2)
    S.ensure(not o.raised, "a target is observed with the loaded channels")
    same_columns(S, b.table, a.table, "observation")
