"""C34: plots show the computed tables without changing them; C19: the command line"""
import functools
import os
from collections import OrderedDict

import numpy as onp

from ..dsl import contract
from ._common import REBIN, defined, rebinned, sampled_around

PT = "exorad.utils.plotter:"
TH = "exorad.tasks.targetHandler:"


class Nothing:
    """whatever is done to the look of a figure"""
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Nothing()

    def __call__(self, *a, **k): return Nothing()


class Axes(Nothing):
    """stand-in for the axes of a figure: keeps the curves drawn"""
    def __init__(self): self.lines, self.spans, self.ticks = [], [], []

    def set_xticks(self, ticks, *a, **k): self.ticks = list(ticks)

    def plot(self, x, y, *a, **k):
        self.lines.append((x.copy(), y.copy(), k.get("label")))
        return [Nothing()]

    def axvspan(self, lo, hi, **k):
        self.spans.append((lo, hi))
        return Nothing()


class Figure(Nothing):
    def __init__(self, axes): self.axes = axes


def subplots(S, rows=1, cols=1, *a, **k):
    n = rows * cols
    axes = [Axes() for _ in range(n)]
    return Figure(axes), (axes[0] if n == 1 else axes)


DRAW = {"matplotlib.pyplot:subplots": subplots}
for _n in ("tight_layout", "subplots_adjust", "close", "show"): DRAW["matplotlib.pyplot:" + _n] = lambda S, *a, **k: None


def axes(S, rows=1):
    if S.symbolic: return subplots(S, rows)[1]
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt.subplots(rows, 1)[1]


def curves(S, ax):
    """the curves of the axes: wavelengths, values, name"""
    if S.symbolic: return ax.lines
    return [(onp.asarray(l.get_xdata()), onp.asarray(l.get_ydata()), l.get_label()) for l in ax.get_lines()]


def bands(S, ax):
    if S.symbolic: return ax.spans
    out = []
    for p in ax.patches:
        x = p.get_path().transformed(p.get_patch_transform()).vertices[:, 0]
        out.append((x.min(), x.max()))
    return out


def val(q): return q.value if hasattr(q, "value") else q


def drawn(S, ax, want, label):
    """exactly these curves are in the axes, under these names, in any order"""
    got = curves(S, ax)
    S.ensure(sorted(str(c[2]) for c in got) == sorted(want), "%s: one curve for each" % label)
    for x, y, nm in got:
        S.ensure_eq(val(x), val(want[nm][0]), "%s: wavelengths of %s" % (label, nm))
        S.ensure_eq(val(y), val(want[nm][1]), "%s: values of %s" % (label, nm))


def a_table(S, n, name="HD 1"):
    u = S.u
    t = S.QTable()
    t["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    t["QE"] = S.arr("qe", n, lo=0, hi=1)
    for c in S.choose("signals", [["star_signal_inAperture"], ["instrument_signal", "star_signal_inAperture"], ["zodi_signal", "star_signal_inAperture", "M1 signal"]]):
        t[c] = S.arr("s_" + c, n, unit="ct/s", pos=True, lo=1, hi=2)
        t[c.replace("signal", "MaxSignal") + "_inPixel"] = S.arr("m_" + c, n, unit="ct/s", pos=True, lo=1, hi=2)
    rel, ab = S.choose("noises", [([], []), (["jitter_noise"], ["read_noise"]), (["custom", "floor_noise"], ["zodi_signal_noise", "dark_noise"])])
    for c in ab: t[c] = S.arr("a_" + c, n, unit="ct hr(1/2) / s", nonneg=True)
    for c in rel: t[c] = S.arr("r_" + c, n, unit="hr(1/2)", nonneg=True)
    t["total_noise"] = S.arr("tot", n, unit="hr(1/2)", nonneg=True)
    t.meta["name"] = name
    return t, rel, ab


def signal_curves(t):
    return {c: (t["Wavelength"], t[c]) for c in t.keys() if "signal" in c and "noise" not in c}


def noise_curves(t, rel, ab):
    w = {c: (t["Wavelength"], t[c]) for c in rel + ["total_noise"]}
    for c in ab: w[c] = (t["Wavelength"], val(t[c]) / val(t["star_signal_inAperture"]))
    return w


NOBANDS = {PT + "Plotter.plot_bands": lambda S, self, ax, *a, **k: ax}


@contract("C34", [PT + "Plotter.plot_signal", PT + "Plotter.plot_noise", PT + "Plotter.plot_table"], env=NOBANDS, stubs=DRAW, samples=20,
          bounds="1 to 3 signals, 1 to 5 noises; any number of bins")
def signals_and_noises(S):
    """signals as they are, noises relative to the signal of the star"""
    t, rel, ab = a_table(S, S.dim("n", lo=1))
    before = S.snapshot(t)
    p = S.fn(PT + "Plotter")(input_table=t)
    how = S.choose("figure", ["table", "signal", "noise"])
    if how == "table":
        fig, (a1, a2) = p.plot_table()
        S.ensure(p.fig is fig, "the figure can be saved")
        drawn(S, a1, signal_curves(t), "signals"); drawn(S, a2, noise_curves(t, rel, ab), "noises")
    else:
        ax = axes(S)
        r = (p.plot_signal if how == "signal" else p.plot_noise)(ax)
        S.ensure(r is ax, "the axes are returned")
        drawn(S, ax, signal_curves(t) if how == "signal" else noise_curves(t, rel, ab), how)
    S.ensure_unchanged(t, before, "the table")


@contract("C34", [PT + "Plotter.plot_bands"], stubs=DRAW, samples=30, bounds="1 to 3 channels of 1 or 2 bins, in any order")
def channel_bands(S):
    """every channel is marked from its lowest to its highest bin edge"""
    rows = S.choose("rows", [["A"], ["A", "A"], ["A", "B"], ["B", "A", "B"], ["C", "AB", "A", "C"]])
    t = S.QTable()
    t["chName"] = rows
    n = len(rows)
    lo = [S.real("lo%d" % i, lo=0.5, hi=5, unit="um") for i in range(n)]
    hi = [x + S.real("w%d" % i, lo=0.1, hi=1, unit="um") for i, x in enumerate(lo)]
    t["LeftBinEdge"], t["RightBinEdge"] = S.u.Quantity(lo), S.u.Quantity(hi)
    before = S.snapshot(t)
    ax = axes(S)
    edges = S.flag("edges")
    S.fn(PT + "Plotter")(input_table=t).plot_bands(ax, channel_edges=edges)
    got = bands(S, ax)
    S.ensure(len(got) == len(set(rows)), "one band for each channel")
    want = []
    for c in sorted(set(rows)):
        a, b = None, None
        for i in range(n):
            if rows[i] != c: continue
            a = lo[i].value if a is None else S.np.minimum(a, lo[i].value)
            b = hi[i].value if b is None else S.np.maximum(b, hi[i].value)
        want.append((a, b))
    # in whatever order: sums of any function of the edges agree
    for f, nm in ((lambda a, b: a, "lower"), (lambda a, b: b, "upper"), (lambda a, b: a * b, "paired")):
        S.ensure_eq(sum(f(a, b) for a, b in got), sum(f(a, b) for a, b in want), "bands of the channels: %s edges" % nm)
    if edges:
        ticks = ax.ticks if S.symbolic else list(ax.get_xticks())
        S.ensure_le(sum(a for a, b in want), sum(val(x) for x in ticks), "the lower edges of the bands are marked on the axis")
        top = functools.reduce(S.np.maximum, [b for a, b in want])
        if len(want) == 1: S.ensure_eq(functools.reduce(S.np.maximum, [val(x) for x in ticks]), top, "the upper edge of the band is marked on the axis")
    S.ensure_unchanged(t, before, "the table")


class Built:
    pass


@contract("C34", [PT + "Plotter.plot_efficiency", "exorad.models.signal:Signal.spectral_rebin"], env=NOBANDS, stubs=dict(DRAW, **REBIN), samples=20, bounds="1 or 2 channels; any samplings")
def efficiencies(S):
    """transmission, quantum efficiency and their product for every channel"""
    u = S.u
    chs, want = OrderedDict(), []
    for i in range(S.choose("channels", [1, 2])):
        c = Built()
        n, m = S.dim("n%d" % i, lo=2), S.dim("m%d" % i, lo=2)
        wt = S.arr("wt%d" % i, n, unit="um", pos=True, increasing=True, lo=0.5, hi=8)
        wq = sampled_around(S, "wq%d" % i, m, wt)
        tr, qe = S.arr("tr%d" % i, n, lo=0, hi=1), S.arr("qe%d" % i, wq.size, lo=0, hi=1)
        c.built_instr = {k + "_data": {"wl_grid": {"value": w.value, "unit": "um"}, "data": {"value": d, "unit": ""}} for k, w, d in (("transmission", wt, tr), ("qe", wq, qe))}
        c.table = S.QTable()
        chs["ch%d" % i] = c
        want += [(wt, tr), (wq, qe), (wt, tr * defined(S, rebinned(S, wt, wq, qe if S.symbolic else qe * u.Unit("")) * u.Unit("")))]
    before = S.snapshot([c.built_instr for c in chs.values()])
    p = S.fn(PT + "Plotter")(input_table=S.QTable(), channels=chs)
    fig = p.plot_efficiency()
    S.ensure(p.fig_efficiency is fig, "the figure can be saved")
    got = curves(S, fig.axes[0])
    S.ensure(len(got) == len(want), "three curves for each channel")
    for (x, y, _), (wx, wy) in zip(got, want):
        S.ensure_eq(val(x), val(wx), "wavelengths of the curve")
        S.ensure_eq(val(y), val(wy), "values of the curve")
    S.ensure_unchanged([c.built_instr for c in chs.values()], before, "the channels")


@contract("C34", [PT + "Plotter.save_fig"], samples=10, bounds="both figures, drawn or not")
def saved_figures(S):
    p = S.fn(PT + "Plotter")(input_table=S.QTable())
    done = []

    class Fig:
        def __init__(self, nm): self.nm = nm
        def savefig(self, name, *a, **k): done.append((self.nm, str(name)))
    have = S.choose("drawn", [(), ("table",), ("efficiency",), ("table", "efficiency")])
    if "table" in have: p.fig = Fig("table")
    if "efficiency" in have: p.fig_efficiency = Fig("efficiency")
    eff = S.flag("efficiency")
    o = S.call(p.save_fig, "/x/a figure.png", **({"efficiency": True} if eff else {}))
    S.ensure(not o.raised, "a figure that was not drawn is reported, not fatal")
    w = "efficiency" if eff else "table"
    S.ensure(done == ([(w, "/x/a figure.png")] if w in have else []), "the requested figure is saved under the given name")


# ------------------------------------------------------------------ plots of a run
def observe_or_fail(S, self):
    """stand-in for one observation: it succeeds or fails"""
    t = self.get_task_param("target")
    if t.name in S.ghost["bad"]: raise S.ghost["bad"][t.name]
    t.table = S.ghost["tables"][t.name].copy()
    self.set_output(t)


def remember_table(S, self, *a, **k):
    S.ghost.setdefault("drawn", []).append(self.inputTable)
    self.fig = ("figure of", self.inputTable)
    return self.fig, (None, None)


def remember_file(S, self, name, efficiency=False):
    S.ghost.setdefault("saved", []).append((str(name), self.fig_efficiency if efficiency else self.fig))


def remember_efficiency(S, self, *a, **k):
    S.ghost.setdefault("drawn", []).append((self.inputTable, self.channels))
    self.fig_efficiency = ("efficiency of", self.channels)
    return self.fig_efficiency


RECORD = dict(DRAW, **{PT + "Plotter.plot_table": remember_table, PT + "Plotter.save_fig": remember_file, PT + "Plotter.plot_efficiency": remember_efficiency})
OBS = {TH + "ObserveTarget.execute": observe_or_fail}


def scratch():
    import tempfile
    return tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp"))


def small_table(S, name):
    t = S.QTable()
    n = S.dim("n", lo=1)
    t["chName"] = ["A"] * n if not S.symbolic else S.strs("ch", n, ["A"])
    t["Wavelength"] = S.arr("wl", n, unit="um", pos=True)
    t["LeftBinEdge"], t["RightBinEdge"] = t["Wavelength"] * 0.9, t["Wavelength"] * 1.1
    t["star_signal_inAperture"] = S.arr("sig " + name, n, unit="ct/s", pos=True)
    t["total_noise"] = S.arr("noise " + name, n, unit="hr(1/2)", pos=True)
    t.meta["name"] = name
    return t


@contract("C34", [TH + "pipeline_to_dict", TH + "ObserveTargetlist.execute"], env=OBS, stubs=RECORD, samples=12, bounds="0 to 2 targets, every subset failing")
def plotted_run(S):
    """asking for plots does not change which targets are observed or their results; every observed target has its figure"""
    ts, S.ghost["bad"], S.ghost["tables"] = [], {}, {}
    for i in range(S.choose("targets", [0, 1, 2])):
        t = S.fn("exorad.models.target:Target")()
        t.name = ["HD 1", "K2-18 b"][i]
        S.ghost["tables"][t.name] = small_table(S, t.name)
        if S.flag("target %d fails" % i): S.ghost["bad"][t.name] = ValueError("x")
        ts.append(t)
    d = scratch() if S.flag("output directory") else None
    before = {k: S.snapshot(v) for k, v in S.ghost["tables"].items()}
    res = S.fn(TH + "ObserveTargetlist")()(targets=ts, payload={}, channels={}, wl_range=(0.5 * S.u.um, 9 * S.u.um), plot=True, out_dir=d, n_thread=1)
    good = [t.name for t in ts if t.name not in S.ghost["bad"]]
    S.ensure(list(res) == good, "exactly the targets that could be observed")
    if list(res) != good: return
    for nm in good: S.ensure_unchanged(res[nm].table, before[nm], "the table of " + nm)
    want = [os.path.join(d, nm + ".png") for nm in good] if d else []
    if not S.symbolic:
        S.ensure(sorted(os.path.join(d, f) for f in os.listdir(d)) == sorted(want) if d else True, "one figure for each observed target"); return
    S.ensure([s[0] for s in S.ghost.get("saved", [])] == want, "one figure for each observed target")
    for (_, fig), nm in zip(S.ghost.get("saved", []), good):
        S.ensure_unchanged(fig[1], before[nm], "drawn from the table of " + nm)


@contract("C34", ["exorad.exorad:efficiency_plot", "exorad.tasks.instrumentHandler:MergeChannelsOutput.execute"], stubs=RECORD, samples=8, bounds="1 or 2 channels")
def efficiency_figure(S):
    chs = OrderedDict()
    u = S.u
    for i in range(S.choose("channels", [1, 2])):
        c = Built()
        n = S.dim("n%d" % i, lo=2)
        c.table = S.QTable()
        c.table["chName"] = ["A%d" % i] * n if not S.symbolic else S.strs("ch%d" % i, n, ["A", "B"])
        c.table["Wavelength"] = S.arr("wl%d" % i, n, unit="um", pos=True)
        c.table["LeftBinEdge"], c.table["RightBinEdge"] = c.table["Wavelength"] * 0.9, c.table["Wavelength"] * 1.1
        w = S.arr("w%d" % i, n, pos=True, increasing=True)
        c.built_instr = {k + "_data": {"wl_grid": {"value": w, "unit": "um"}, "data": {"value": S.arr(k + str(i), n, lo=0, hi=1), "unit": ""}} for k in ("transmission", "qe")}
        chs["A%d" % i] = c
    before = S.snapshot([(c.table, c.built_instr) for c in chs.values()])
    d = scratch() if S.flag("output directory") else None
    o = S.call(S.fn("exorad.exorad:efficiency_plot"), channels=chs, output_dir=d)
    S.ensure(not o.raised, "the efficiency is drawn")
    S.ensure_unchanged([(c.table, c.built_instr) for c in chs.values()], before, "the channels")
    if not S.symbolic:
        S.ensure(not d or os.listdir(d) == ["efficiency.png"], "the figure of the efficiency is saved"); return
    S.ensure([s[0] for s in S.ghost.get("saved", [])] == ([os.path.join(d, "efficiency.png")] if d else []), "the figure of the efficiency is saved")
    S.ensure(len(S.ghost["drawn"]) == 1 and list(S.ghost["drawn"][0][1]) == list(chs), "every channel is drawn")


# ------------------------------------------------------------------ plots of a saved output
@contract("C34", [PT + "main", "exorad.utils.util:parse_range"], stubs=RECORD, env={"sys:exit": lambda S, *a: (_ for _ in ()).throw(SystemExit(*a))}, samples=12,
          bounds="outputs of 3 targets; the listed selections", kind="bounded")
def plots_of_an_output(S):
    """exactly the selected targets of an output are drawn, each in its own file"""
    import sys
    names = ["HD 1", "K2-18", "K2-18 B"]
    number, name, want = S.choose("selection", [(None, None, [0, 1, 2]), ("all", None, [0, 1, 2]), ("0", None, [0]), ("1-2", None, [1, 2]), ("0:1", None, [0, 1]), ("1:1,0", None, [0, 1]), ("0,2", None, [0, 2]),
                                                (None, "K2-18", [1]), (None, "another", []), ("1", "K2-18", None)])
    d = scratch()
    src, out = os.path.join(d, "o.h5"), os.path.join(d, "figures" if S.flag("new directory") else "")
    from exorad.output.hdf5 import HDF5Output
    from exorad.models.target import Target
    with HDF5Output(src) as h:
        for nm in names:
            t = Target()
            t.name, t.table = nm, small_table(S, nm)
            t.table.meta.clear()
            t.table.meta["name"] = nm
            t.write(h)
    with open(src, "rb") as f: before = f.read()
    argv, sys.argv = sys.argv, ["exorad-plot", "-i", src, "-o", out] + (["-n", number] if number else []) + (["-t", name] if name else [])
    try: o = S.call(S.fn(PT + "main"))
    finally: sys.argv = argv
    if want is None:
        S.ensure(isinstance(o.exc, ValueError), "a number and a name together are rejected"); return
    S.ensure(not o.raised, "the figures are produced")
    S.ensure(sorted(f for f in os.listdir(out) if f.endswith(".png")) == sorted(names[i] + ".png" for i in want), "exactly the selected targets are drawn")
    with open(src, "rb") as f: S.ensure(f.read() == before, "the output is left alone")


# ------------------------------------------------------------------ the command line
def record_run(S, *a, **k):
    import inspect
    S.ghost.setdefault("runs", []).append((a, k))


@contract("C19", ["exorad.exorad:main"], env={"exorad.exorad:standard_pipeline": record_run}, samples=80, bounds="every combination of the options, in either spelling")
def command_line(S):
    """every option of the command reaches the run"""
    import sys
    long = S.flag("long names")
    opts = [("-p", "--payload", "pay load.xml"), ("-t", "--targetList", "list.csv")]
    want = dict(options="pay load.xml", target_list="list.csv", output=None, plot=False, full_contrib=False, debug=False, n_thread=1, log=False)
    if S.flag("output"): opts.append(("-o", "--output", "x/out.h5")); want["output"] = "x/out.h5"
    if S.flag("threads"): opts.append(("-n", "--nThreads", "3")); want["n_thread"] = 3
    for s, l, k in (("-P", "--plot", "plot"), ("-c", "--full_contrib", "full_contrib"), ("-d", "--debug", "debug"), ("-l", "--log", "log")):
        if S.flag(k): opts.append((s, l, None)); want[k] = True
    missing = S.choose("missing", [None, 0, 1]) if len(opts) < 4 else None
    if missing is not None: del opts[missing]
    argv, sys.argv = sys.argv, ["exorad"] + [w for o in opts for w in ((o[1] if long else o[0]),) + ((o[2],) if o[2] else ())]
    err, sys.stderr = sys.stderr, open(os.devnull, "w")
    try: o = S.call(S.fn("exorad.exorad:main"))
    except SystemExit as e:
        o = None
    finally:
        sys.stderr.close()
        sys.argv, sys.stderr = argv, err
    runs = S.ghost.get("runs", [])
    if missing is not None:
        S.ensure(not runs, "nothing runs without a payload and a list of targets"); return
    S.ensure(len(runs) == 1, "one run")
    a, k = runs[0]
    got = dict(zip(["options", "target_list", "output", "plot", "full_contrib", "n_thread", "debug", "log"], a), **k)
    for nm, v in want.items():
        S.ensure((nm in got or v in (None, False, 1)) and got.get(nm, v) == v, "option %s" % nm)
