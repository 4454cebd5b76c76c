"""C22: option files.  The reader of the XML text itself (ElementTree) is the library's; what the loader makes of the tree is specified."""
import os, pickle, tempfile
import xml.etree.ElementTree as ET
from collections import OrderedDict
import numpy as onp
from ..dsl import contract

LO = "exorad.tasks.loadOptions:LoadOptions"
CFG = "__ConfigPath__"


class Q:
    """expected quantity"""
    def __init__(self, value, unit): self.value, self.unit = value, unit


def scratch():
    return tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp"))


def parse_stub(S, source, *a, **k):
    if not os.path.exists(source): raise FileNotFoundError(2, "No such file or directory", source)
    return ET.ElementTree(S.ghost["root"])


def _no(S, *a, **k):
    from ..ctx import unsupported
    unsupported("another way to read the XML text")


TREE = {"xml.etree.ElementTree:parse": parse_stub, "xml.etree.ElementTree:fromstring": _no, "xml.etree.ElementTree:iterparse": _no,
        "xml.etree.ElementTree:XML": _no}


def node(tag, text=None, *children, **attrib):
    e = ET.Element(tag, attrib)
    e.text = text
    for c in children: e.append(c)
    return e


def load(S, root, name="options.xml", loader=None, **k):
    """the options read from the given tree"""
    d = S.ghost.get("dir") or scratch()
    S.ghost["dir"] = d
    fn = os.path.join(d, name)
    if S.symbolic:
        S.ghost["root"] = root
        open(fn, "w").close()
    else: ET.ElementTree(root).write(fn)
    return S.call((loader or S.fn(LO)()), filename=fn, **k)


def agrees(S, got, want, label):
    if isinstance(want, Q):
        S.ensure(hasattr(got, "unit") and got.unit == S.u.Unit(want.unit), label + ": unit")
        S.ensure_eq(got, want.value * S.u.Unit(want.unit), label)
    elif isinstance(want, dict):
        S.ensure(isinstance(got, dict) and not isinstance(got, OrderedDict) or type(got) is type(want), label + ": kind of dictionary")
        S.ensure(list(map(plain, got)) == list(map(plain, want)) if isinstance(want, OrderedDict) else sorted(map(str, got)) == sorted(map(str, want)),
                 "%s: entries" % label)
        for a, b in zip(list(got) if isinstance(want, OrderedDict) else want, want): agrees(S, got[a], want[b], "%s.%s" % (label, b))
    elif isinstance(want, (str, bool)): S.ensure(type(got) is type(want) and got == want, label)
    else:
        S.ensure(not isinstance(got, (str, bool)), label + ": is a number")
        S.ensure_eq(got, want, label)


def plain(k): return str(k)


# ------------------------------------------------------------------ values
TEXTS = [("Phot", "Phot"), ("True", True), ("False", False), ("true", "true"), (" \n  AIRS CH0\n  ", "AIRS CH0"), ("__ConfigPath__/data/f.csv", "/cfg/data/f.csv"),
         ("a__ConfigPath__b__ConfigPath__", "a/cfgb/cfg"), (".", "."), ("1e3", 1000.0), ("007", 7), ("-4", -4), (".5", 0.5), ("3.", 3.0), ("1.2.3", "1.2.3"), ("5 m", "5 m"), ("2024_01", "2024_01"), ("1_2.5", "1_2.5"), ("nan_2", "nan_2")]
UNITS = [None, "um", "ct/s", "dimensionless", "", "W/(m2 um sr)"]


@contract("C22", [LO + ".execute"], stubs=TREE, samples=120, bounds="files of up to 4 entries; every number, the listed texts")
def values(S):
    """the value of an entry: integer, number, quantity, flag or text"""
    kind = S.choose("value", ["number", "integer", "text"])
    attrib, unit = {}, None
    if kind == "text": text, want = S.choose("text", TEXTS)
    else:
        text, want = S.numeral("x", integer=kind == "integer", lo=-1000, hi=1000)
        if S.flag("spaces") and not S.symbolic: text = "\n    %s \n" % text
    if not isinstance(want, (str, bool)):
        unit = S.choose("unit", UNITS)
        if unit is not None:
            attrib["unit"] = unit
            want = Q(want, "" if unit == "dimensionless" else unit)
    tag = S.choose("tag", ["qe", "working_R"])
    if tag == "qe": attrib["comment"] = "a note"
    root = node("root", None, node("ConfigPath", "/cfg"), node(tag, text, **attrib), node("other", "12"), node("empty", "  \n" if kind == "text" else None))
    if S.flag("the file was another one before"): load(S, node("root", None, node("ConfigPath", "/cfg"), node("other", "7")))
    o = load(S, root)
    S.ensure(not o.raised, "options are read")
    got = o.value
    S.ensure(sorted(got) == sorted(["ConfigPath", tag, "other", "empty"]), "the entries of the file")
    agrees(S, got[tag], dict(attrib, value=want), tag)
    agrees(S, got["other"], {"value": 12}, "other entry")
    agrees(S, got["empty"], {}, "entry without text")
    if tag == "working_R":
        w = S.fn("exorad.utils.passVal:PassVal").working_R
        agrees(S, w, want, "working resolving power")


@contract("C22", [LO + ".execute"], stubs=TREE, samples=80, bounds="three levels, up to two channels")
def nested(S):
    """entries keep their own children, attributes and value"""
    t1, a = S.numeral("a"); t2, b = S.numeral("b"); t3, c = S.numeral("c", integer=True)

    def ch(name, inner):
        return node("channel", name, node("type", "Photometer", note="x"), node("detector", None, node("pixel", t1, unit="um"), node("well", inner)))
    two = S.flag("two channels")
    root = node("root", "some text", node("common", "all", node("wl_min", t2, unit="um")), *([ch("A", t3)] + ([ch("B", t2)] if two else [])), name="ignored")
    if S.flag("read and changed before"):
        o = load(S, root)
        S.ensure(not o.raised, "options are read")
        o.value["common"]["value"], o.value["channel"]["detector" if not two else "A"] = "changed", None
        del o.value["common"]["wl_min"]
    o = load(S, root)
    S.ensure(not o.raised, "options are read")

    def wch(name, inner): return {"value": name, "type": {"value": "Photometer", "note": "x"}, "detector": {"pixel": {"value": Q(a, "um"), "unit": "um"}, "well": {"value": inner}}}
    want = {"common": {"value": "all", "wl_min": {"value": Q(b, "um"), "unit": "um"}}, "channel": wch("A", c)}
    if two: want["channel"] = OrderedDict([("A", wch("A", c)), ("B", wch("B", b))])
    agrees(S, o.value, want, "options")


ELEMENTS = [("M1", "M1"), ("lens", "lens"), ("3", 3), ("2.5", 2.5), ("__ConfigPath__/noise.csv", "/cfg/noise.csv")]


@contract("C22", [LO + ".execute"], stubs=TREE, samples=80, bounds="up to 4 entries of the same name")
def repeated(S):
    """repeated entries are all kept, in the order of the file, under their value"""
    k = S.choose("entries", [1, 2, 3, 4])
    first = S.choose("first", [0, 1, 2])
    same = S.flag("the same value")
    entries = [ELEMENTS[first if same else (first + i) % len(ELEMENTS)] for i in range(k)]
    unit = S.choose("unit", [None, "ppm"])
    children = [node("ConfigPath", "/cfg")]
    between = S.flag("between")
    for i, (t, v) in enumerate(entries):
        e = node("opticalElement", t, node("position", str(i)))
        if unit is not None and not isinstance(v, str): e.set("comment", unit)
        children.append(e)
        if between: children.append(node("sep%d" % i, "x"))
    o = load(S, node("root", None, *children))
    S.ensure(not o.raised, "options are read")
    got = o.value["opticalElement"]

    def want(i):
        w = {"value": entries[i][1], "position": {"value": i}}
        if unit is not None and not isinstance(entries[i][1], str): w["comment"] = unit
        return w
    if k == 1: agrees(S, got, want(0), "single entry")
    elif not same: agrees(S, got, OrderedDict((entries[i][1], want(i)) for i in range(k)), "repeated entries")
    else:
        S.ensure(isinstance(got, OrderedDict) and len(got) == k, "every entry is kept when values repeat")
        for i, e in enumerate(list(got.values())[:k]): agrees(S, e, want(i), "repeated entry")


@contract("C22", [LO + ".execute"], stubs=TREE, samples=40)
def config_path(S):
    """__ConfigPath__ stands for the path given on the call, else for the one of the file"""
    given = S.choose("on the call", [None, "/run"])
    infile = S.flag("in the file")
    if not infile and given is None: return
    children = ([node("ConfigPath", "/file")] if infile else [node("first", "x")]) + [node("a", "__ConfigPath__/x"), node("b", None, node("c", "y/__ConfigPath__"))]
    o = load(S, node("root", None, *children), **({} if given is None else {"config_path": given}))
    S.ensure(not o.raised, "options are read")
    p = given or "/file"
    agrees(S, o.value["a"], {"value": p + "/x"}, "path"); agrees(S, o.value["b"], {"c": {"value": "y/" + p}}, "path of a nested entry")


# ------------------------------------------------------------------ data
def read_stub(S, name, *a, **k):
    """stand-in for astropy's reader"""
    if not os.path.exists(name): raise FileNotFoundError(name)
    fmt = k.get("format")
    text = open(name).read()
    if fmt == "ecsv" and not text.startswith("# %ECSV"):
        from astropy.io.ascii.core import InconsistentTableError
        raise InconsistentTableError("ECSV header line")
    S.ghost.setdefault("tables", []).append((name, fmt))
    return S.ghost.setdefault("table", S.QTable())


ECSV = "# %ECSV 0.9\n# ---\n# datatype:\n# - {name: Wavelength, unit: um, datatype: float64}\n# - {name: Transmission, datatype: float64}\nWavelength Transmission\n1.0 0.5\n2.0 0.25\n"
CSV = "Wavelength,Transmission\n1.0,0.5\n2.0,0.25\n"


@contract("C22", [LO + ".execute"], stubs=dict(TREE, **{"astropy.io.ascii:read": read_stub}), samples=60)
def data_files(S):
    """the table named by an entry is read and stored beside it; what cannot be read is an error"""
    d = S.ghost["dir"] = scratch()
    kind = S.choose("file", ["ecsv", "csv", "missing", "unsupported type"])
    if kind != "missing":
        with open(os.path.join(d, "tab.ecsv"), "w") as f: f.write(CSV if kind == "csv" else ECSV)
    via = S.flag("through ConfigPath")
    children = [node("datafile", (CFG if via else d) + "/tab.ecsv")]
    if kind == "unsupported type": children.append(node("datatype", "netcdf"))
    elif S.flag("type given"): children.append(node("datatype", "ecsv"))
    deep = S.flag("nested")
    root = node("root", None, node("ConfigPath", d), *([node("qe", "QE", *children)] if deep else children))
    o = load(S, root)
    if kind in ("missing", "unsupported type"):
        S.ensure(isinstance(o.exc, OSError), "data that cannot be read is an error"); return
    S.ensure(not o.raised, "options are read")
    got = o.value["qe"] if deep else o.value
    if S.symbolic:
        S.ensure(got["data"] is S.ghost["table"], "the table that was read"); S.ensure(S.ghost["tables"] == [(os.path.join(d, "tab.ecsv"), kind)], "the named file in its format")
    else:
        S.ensure(got["data"].colnames == ["Wavelength", "Transmission"] and list(got["data"]["Transmission"]) == [0.5, 0.25], "the table that was read")
        if kind == "ecsv": S.ensure(got["data"]["Wavelength"].unit == S.u.um, "unit of the column")
    agrees(S, got["datafile"], {"value": os.path.join(d, "tab.ecsv")}, "name of the file")


@contract("C22", [LO + ".execute"], stubs=TREE, samples=40)
def data_dictionaries(S):
    """a dictionary stored in a file is attached as data, or replaces the options"""
    d = S.ghost["dir"] = scratch()
    kind = S.choose("file", ["pickle", "h5", "missing.pickle", "txt"])
    content = {"a": {"x": 2.5}, "b": {"value": 3}}
    fn = "stuff." + kind.split(".")[-1]
    if kind == "pickle":
        with open(os.path.join(d, fn), "wb") as f: pickle.dump(content, f)
    if kind == "h5":
        with S.fn("exorad.output.hdf5:HDF5Output")(os.path.join(d, fn)) as out: out.store_dictionary(content)
    tag = S.choose("entry", ["datadict", "config_dict"])
    root = node("root", None, node("ConfigPath", d), node("part", "P", node(tag, CFG + "/" + fn), node("other", "x")))
    o = load(S, root)
    if kind in ("missing.pickle", "txt"):
        S.ensure(isinstance(o.exc, OSError), "a dictionary that cannot be read is an error"); return
    S.ensure(not o.raised, "options are read")
    got = o.value["part"] if tag == "config_dict" else o.value["part"]["data"]
    S.ensure_eq(got["a"]["x"], 2.5, "stored value"); S.ensure_eq(got["b"]["value"], 3, "nested stored value")
    if tag == "config_dict":
        S.ensure(got["config_dict"] == os.path.join(d, fn), "the file it came from")
        S.ensure("other" not in got, "the stored dictionary replaces the entries")
    else: agrees(S, o.value["part"]["other"], {"value": "x"}, "other entry")


@contract("C22", [LO + ".execute"], stubs=TREE, samples=30)
def bad_files(S):
    kind = S.choose("file", ["format", "missing"])
    if kind == "format":
        o = load(S, node("root", None, node("a", "1")), name=S.choose("name", ["options.txt", "options.xml.bak", "options"]))
    else: o = S.call(S.fn(LO)(), filename=os.path.join(scratch(), "none.xml"))
    S.ensure(isinstance(o.exc, OSError), "a file that is missing or not XML is rejected")


# ------------------------------------------------------------------ channels of a kind
@contract("C22", ["exorad.tasks.instrumentHandler:GetChannelList.execute"], samples=60, bounds="1 to 3 channels")
def channel_list(S):
    """exactly the channels of the requested kind, in the order of the file, whatever the case"""
    k = S.choose("channels", [1, 2, 3])
    kinds = [S.choose("kind %d" % i, ["Photometer", "photometer", "Spectrometer"]) for i in range(k)]
    chs = OrderedDict(("ch%d" % i, {"value": "ch%d" % i, "channelClass": {"value": kinds[i]}}) for i in range(k))
    opt = {"common": {}, "channel": chs if k > 1 else chs["ch0"]}
    before = S.snapshot(opt)
    want = S.choose("wanted", ["Photometer", "spectrometer", "SPECTROMETER", "camera"])
    got = S.fn("exorad.tasks.instrumentHandler:GetChannelList")()(options=opt, channel_type=want)
    S.ensure(list(got) == ["ch%d" % i for i in range(k) if kinds[i].lower() == want.lower()], "the channels of the kind")
    S.ensure_unchanged(opt, before, "the options")
