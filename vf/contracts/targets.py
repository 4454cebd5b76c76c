"""C23: target lists.  The text and spreadsheet readers are the libraries'; what becomes of the rows is specified."""
import os, tempfile
import numpy as onp
from ..dsl import contract

TL = "exorad.models.targetlist:"
LOAD = "exorad.tasks.targetHandler:LoadTargetList"


class Row(list):
    def __init__(self, cells, names):
        super().__init__(cells); self.names = names

    def __getitem__(self, k): return list.__getitem__(self, self.names.index(k)) if isinstance(k, str) else list.__getitem__(self, k)
    @property
    def colnames(self): return list(self.names)
    def keys(self): return list(self.names)
    def values(self): return list(self)
    def as_void(self): return tuple(self)


class Col(list):
    def tolist(self): return list(self)
    @property
    def value(self): return self


class Cells:
    """stand-in for an astropy table in the symbolic runs: named columns of cells, rows are lists of cells"""
    def __init__(self, names, cols):
        self.names, self.cols = list(names), [Col(c) for c in cols]
        self.meta = {}

    def keys(self): return list(self.names)
    @property
    def colnames(self): return list(self.names)
    def __len__(self): return len(self.cols[0]) if self.cols else 0
    def __bool__(self): return len(self) > 0
    def __iter__(self): return iter([self[i] for i in range(len(self))])

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.names: raise KeyError(k)
            return self.cols[self.names.index(k)]
        if isinstance(k, (list, tuple)): return Cells(k, [self[c] for c in k])
        return Row([c[int(k)] for c in self.cols], self.names)


# ------------------------------------------------------------------ csv
STAR = [("name", None), ("M", "M_sun"), ("Teff", "K"), ("R", "R_sun"), ("D", "pc"), ("magk", None), ("ra", "deg")]
PLANET = [("name", None), ("M", "M_earth"), ("P", "day")]
NAMES = ["myTest", "HD 219", "K2-3"]


def cells(S, what, key, unit, rows):
    if key == "name": return ["%s%s" % (NAMES[i], " b" if what == "planet" else "") for i in range(rows)]
    return [S.real("%s %s %d" % (what, key, i), lo=0.01, hi=9000) for i in range(rows)]


def layout(S):
    order = S.choose("columns", ["documented", "shuffled", "extra"])
    star = STAR if order == "documented" else [STAR[i] for i in (3, 0, 6, 4, 1, 2, 5)]
    planets = S.flag("planets")
    cols = [("star", k, un) for k, un in star]
    if planets:
        if order == "shuffled": cols = [("planet", k, un) for k, un in PLANET] + cols
        else: cols = cols[:4] + [("planet", k, un) for k, un in PLANET] + cols[4:]
    return order, planets, cols


def file_of(S, names, cols, suffix=".csv"):
    """a csv file that holds the columns; what the reader gives back for it"""
    d = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH", "/tmp"))
    fn = os.path.join(d, "list" + suffix)
    with open(fn, "w") as f:
        if not S.symbolic:
            f.write(",".join(names) + "\n")
            for r in zip(*cols): f.write(",".join('"%s"' % x if isinstance(x, str) else repr(x) for x in r) + "\n")
    S.ghost["table"] = lambda: Cells(names, [[onp.str_(x) if isinstance(x, str) else x for x in c] for c in cols])
    S.ghost["file"] = fn
    return fn


def reader(S, name, *a, **k):
    if name != S.ghost["file"]: raise FileNotFoundError(name)
    return S.ghost["table"]()


CSV = {"astropy.io.ascii:read": reader}


def check(S, got, what, spec):
    """attributes of a star or planet are the cells of the row in the units of the header"""
    for k, v, un in spec:
        S.ensure(hasattr(got, k), "%s %s is there" % (what, k))
        g = getattr(got, k)
        if isinstance(v, str): S.ensure(isinstance(g, str) and g == v and type(g) is not onp.str_, "%s %s" % (what, k))
        elif un is None:
            S.ensure(not hasattr(g, "unit") or g.unit == S.u.dimensionless_unscaled or g.unit is None, "%s %s has no unit" % (what, k))
            S.ensure_eq(g, v, "%s %s" % (what, k))
        else:
            S.ensure(getattr(g, "unit", None) == S.u.Unit(un), "unit of %s %s" % (what, k)); S.ensure_eq(g, v * S.u.Unit(un), "%s %s" % (what, k))


def check_list(S, tt, rows, planets, star, planet):
    """star, planet: lists of (key, cells, unit)"""
    S.ensure(len(tt.target) == rows, "one target per row")
    for i, t in enumerate(tt.target):
        S.ensure(t.id == i, "targets are numbered in the order of the rows")
        check(S, t.star, "star", [(k, c[i], un) for k, c, un in star])
        if planets: check(S, t.planet, "planet", [(k, c[i], un) for k, c, un in planet])
        nm = [c for k, c, un in (planet if planets else star) if k == "name"][0][i]
        S.ensure(t.name == nm, "name of the target")


@contract("C23", [LOAD + ".execute", TL + "CSVTargetList", TL + "BaseTargetList.create_target_list"], stubs=CSV, samples=60, bounds="1 to 3 targets")
def csv_list(S):
    order, planets, cols = layout(S)
    rows = S.choose("rows", [1, 2, 3])
    data = [(w, k, cells(S, w, k, un, rows), un) for w, k, un in cols]
    names = ["%s %s%s" % (w, k, " [%s]" % un if un else "") for w, k, c, un in data]
    columns = [c for w, k, c, un in data]
    if order == "extra": names, columns = names + ["comment"], columns + [["n%d" % i for i in range(rows)]]
    tt = S.fn(LOAD)()(target_list=file_of(S, names, columns))
    check_list(S, tt, rows, planets, [x[1:] for x in data if x[0] == "star"], [x[1:] for x in data if x[0] == "planet"])


MSTAR = [("Star Name", "name", None, None), ("Star Mass", "M", "Ms", "M_sun"), ("Star Radius", "R", "Rs", "R_sun"), ("Star Temperature", "Teff", "K", "K"),
         ("Star Distance", "D", "pc", "pc"), ("Star Magnitude K", "magnitude k", None, None)]
MPLANET = [("Planet Name", "name", None, None), ("Planet Mass", "M", "Me", "M_earth"), ("Planet Radius", "R", "Rj", "R_jupiter"), ("Planet Period", "P", "days", "day"),
           ("Planet Semi-major Axis", "a", "m", "m"), ("Planet Transit Duration", "T14", "s", "s"), ("Planet Molecular Weight", "mmw", None, None)]
MSTAR2 = [("Star Name", "name", None, None), ("Star Mass", "M", "kg", "kg"), ("Star Radius", "R", "R_sun", "R_sun"), ("Star Temperature", "Teff", "K", "K"), ("Star Age", "age", "Gyr", "Gyr"),
          ("Star Distance", "D", "lyr", "lyr"), ("Star Magnitude K", "magnitude k", None, None)]
MPLANET2 = [("Planet Name", "name", None, None), ("Planet Mass", "M", "Mj", "M_jupiter"), ("Planet Radius", "R", "Re", "R_earth"), ("Planet Period", "P", "h", "h"), ("Planet Impact Parameter", "b", None, None),
            ("Planet Heat Redistribution Factor", "Gamma", None, None), ("Planet Temperature", "Teff", "K", "K"), ("Planet Albedo", "albedo", None, None)]


@contract("C23", [LOAD + ".execute", TL + "CSVTargetListMRS", TL + "BaseTargetList.create_target_list"], stubs=CSV, samples=60, bounds="1 or 2 targets")
def mrs_list(S):
    """mission reference samples: long column names, error columns, abbreviated units"""
    rows = S.choose("rows", [1, 2])
    planets = S.flag("planets")
    errors = S.flag("error columns")
    names, columns, star, planet = [], [], [], []
    second = S.flag("other units and columns")
    for w, spec, out in (("star", MSTAR2 if second else MSTAR, star), ("planet", MPLANET2 if second else MPLANET, planet)):
        if w == "planet" and not planets: continue
        for head, key, un, unit in spec:
            c = cells(S, w, key, unit, rows)
            names.append(head + (" [%s]" % un if un else "")); columns.append(c); out.append((key, c, unit))
            if errors and un:
                names.append("%s Error [%s]" % (head, un)); columns.append([0.5] * rows)
    tt = S.fn(LOAD)()(target_list=file_of(S, names, columns))
    check_list(S, tt, rows, planets, star, planet)


@contract("C23", [LOAD + ".execute", TL + "CSVTargetListMRS"], stubs=CSV, samples=20)
def decimal_commas(S):
    """numbers written with a decimal comma are numbers; names keep theirs"""
    names, columns = ["Star Name", "Star Mass [Ms]", "Star Distance [pc]", "Star Magnitude K"], [["A, 1", "B"], ["1,5", "2,25"], [10.5, 20.5], ["7,5", "8"]]
    if S.flag("planets"): names, columns = names + ["Planet Name", "Planet Mass [Me]", "Planet Eccentricity"], columns + [["A b", "B b"], ["0,5", "1"], ["0,25", "0,75"]]
    tt = S.fn(LOAD)()(target_list=file_of(S, names, columns))
    check_list(S, tt, 2, len(names) > 4, [("name", columns[0], None), ("M", [1.5, 2.25], "M_sun"), ("D", columns[2], "pc"), ("magnitude k", [7.5, 8.0], None)],
               [("name", ["A b", "B b"], None), ("M", [0.5, 1.0], "M_earth"), ("eccentricity", [0.25, 0.75], None)])


# ------------------------------------------------------------------ tables
@contract("C23", [LOAD + ".execute", TL + "QTableTargetList", TL + "BaseTargetList.create_target_list"], samples=60, bounds="1 to 3 targets")
def table_list(S):
    """a table of quantities is a target list; numbers without units are rejected"""
    order, planets, cols = layout(S)
    rows = S.choose("rows", [1, 2, 3])
    data = [(w, k, cells(S, w, k, un, rows), un) for w, k, un in cols]
    bad = S.flag("a number has no unit")
    names, columns = [], []
    for w, k, c, un in data:
        names.append("%s %s" % (w, k))
        if k == "name": columns.append([onp.str_(x) for x in c] if S.symbolic else c)
        elif bad and k == "D": columns.append(c)
        elif S.symbolic: columns.append([x * (S.u.Unit(un) if un else S.u.dimensionless_unscaled) for x in c])
        else: columns.append(onp.array(c) * (S.u.Unit(un) if un else S.u.dimensionless_unscaled))
    if S.symbolic: t = Cells(names, columns)
    else: t = S.QTable(columns, names=names)
    before = S.snapshot(t)
    o = S.call(S.fn(LOAD)(), target_list=t)
    if bad:
        S.ensure(isinstance(o.exc, TypeError), "numbers without units are rejected"); return
    S.ensure(not o.raised, "the list is loaded")
    check_list(S, o.value, rows, planets, [x[1:] for x in data if x[0] == "star"], [x[1:] for x in data if x[0] == "planet"])
    S.ensure_unchanged(t, before, "the table")


# ------------------------------------------------------------------ spreadsheets
class ColValues(list):
    def __init__(self, v, sym):
        super().__init__(v); self.sym = sym

    def __getitem__(self, k): return ColValues(list.__getitem__(self, k), self.sym) if isinstance(k, slice) else list.__getitem__(self, k)

    def __mul__(self, o):
        if self.sym and not isinstance(o, int): return Col([x * o for x in self])
        return list.__mul__(self, o) if isinstance(o, int) else NotImplemented


class Sheet:
    def __init__(self, grid, sym): self.grid, self.sym = grid, sym
    def row_values(self, r, *a): return list(self.grid[r])
    def col_values(self, c, start=0): return ColValues([r[c] for r in self.grid][start:], self.sym)
    def cell_value(self, rowx, colx): return self.grid[rowx][colx]
    @property
    def nrows(self): return len(self.grid)


class Book:
    def __init__(self, sheet): self.sheet = sheet
    def sheet_by_name(self, nm):
        if nm != "Sheet1": raise KeyError(nm)
        return self.sheet


def open_book(S, name, *a, **k):
    if name != "list.xlsx": raise FileNotFoundError(name)
    return Book(Sheet(S.ghost["grid"], S.symbolic))


XS = [("Star", "", None), ("M", "[M_sun]", "M_sun"), ("Teff", "K", "K"), ("R", "[R_sun]", "R_sun"), ("D", "[pc]", "pc"), ("magk", "", None)]
XP = [("Planet", "", None), ("M", "[M_earth]", "M_earth"), ("R", "[R_earth]", "R_earth"), ("P", "[day]", "day"), ("a", "[AU]", "AU"), ("i", "[deg]", "deg"), ("e", "", None),
      ("T14", "[h]", "h"), ("albedo", "", None), ("mmw", "[]", None), ("x", "[not a unit]", None)]


@contract("C23", [LOAD + ".execute", TL + "XLXSTargetList", TL + "BaseTargetList.create_target_list"], env={"xlrd:open_workbook": open_book}, samples=40, bounds="1 or 2 targets")
def spreadsheet_list(S):
    rows = S.choose("rows", [1, 2])
    grid = [[""] * 21 for _ in range(4 + rows)]

    def put(c0, spec, what):
        out = []
        for j, (k, head, un) in enumerate(spec):
            grid[2][c0 + j], grid[3][c0 + j] = k, head
            key = "name" if j == 0 else k
            c = cells(S, what, key, un, rows)
            for i in range(rows): grid[4 + i][c0 + j] = c[i]
            out.append((key, c, un))
        return out
    star, planet = put(1, XS, "star"), put(8, XP, "planet")
    obs = [S.real("n %d" % i, lo=1, hi=50) for i in range(rows)]
    for i in range(rows): grid[4 + i][20] = obs[i]
    S.ghost["grid"] = grid
    tt = S.fn(LOAD)()(target_list="list.xlsx")
    check_list(S, tt, rows, True, star, planet + [("Nobs", obs, None)])


@contract("C23", [TL + "OldExcelTargetList"], env={"xlrd:open_workbook": open_book}, samples=40, bounds="1 to 3 targets")
def old_spreadsheet(S):
    """the first format of the spreadsheets: stars only; searched as the others"""
    rows = S.choose("rows", [1, 3])
    grid = [[""] * 21 for _ in range(4 + rows)]
    want = []
    for j, (k, head, un) in enumerate([("Star", "", None), ("M", "[M_sun]", "M_sun"), ("Teff", "K", "K"), ("R", "[R_sun]", "R_sun"), ("x", "[not a unit]", None), ("magk", "", None)]):
        grid[2][1 + j], grid[3][1 + j] = k, head
        c = cells(S, "star", "name" if j == 0 else k, un, rows) if j else ["HD 20%d (A)" % i for i in range(rows)]
        for i in range(rows): grid[4 + i][1 + j] = c[i]
        want.append(("name" if j == 0 else k, c, un))
    S.ghost["grid"] = grid
    f = S.fn(TL + "OldExcelTargetList")
    S.ensure(isinstance(S.call(f, "list.xls").exc, OSError), "other formats are rejected")
    tl = f("list.xlsx")
    S.ensure(len(tl.target) == rows, "one target per row")
    for i, t in enumerate(tl.target):
        for k, c, un in want: S.ensure_eq(getattr(t.star, k), c[i] * S.u.Unit(un) if un else c[i], "star %s" % k)
    planets = S.flag("planets")
    if planets:
        for i, t in enumerate(tl.target):
            t.planet = S.fn("exorad.models.target:Target")()
            t.planet.name = "Osiris-%d b" % i
    for s, found in [("hd20", range(rows)), ("HD-200", [0]), ("(a", range(rows)), ("0(a", [0]), ("202", [2] if rows > 2 else []), ("osiris", range(rows) if planets else []), ("0 b", [0] if planets else []), ("none", [])]:
        S.ensure([t.star.name for t in tl.searchTarget(s)] == [tl.target[i].star.name for i in found], "targets found by " + s)


# ------------------------------------------------------------------ formats and search
@contract("C23", [LOAD + ".execute"], samples=20)
def other_formats(S):
    name = S.choose("file", ["list.abc", "list.xml", "list", "list.csv.bak"])
    S.ensure(isinstance(S.call(S.fn(LOAD)(), target_list=name).exc, OSError), "other formats are rejected")


@contract("C23", [TL + "BaseTargetList.searchTarget"], stubs=CSV, samples=40, bounds="5 targets, the listed searches")
def search(S):
    """the targets whose star or planet has the searched name, whatever the case, blanks and dashes"""
    planets = S.flag("planets")
    names, columns = ["star name", "star D [pc]"], [["HD 209458", "K2-3", "GJ 1214", "BD+20 594", "A (B)."], [1.5, 2.5, 3.5, 4.5, 5.5]]
    if planets: names, columns = names + ["planet name"], columns + [["Osiris", "K2-3 c", "GJ 1214 b", "BD+20 594 b", "Ab"]]
    tt = S.fn(LOAD)()(target_list=file_of(S, names, columns))
    text, want = S.choose("search", [("hd209458", [0]), ("K2 3", [1]), ("gj-1214", [2]), ("1214b", [2] if planets else []), ("osiris", [0] if planets else []), ("wasp", []), ("2", [0, 1, 2, 3]),
                                      ("BD+20", [3]), ("a (b)", [4]), ("b).", [4]), ("d.", []), ("*", [])])
    got = tt.searchTarget(text)
    S.ensure([t.id for t in got] == want, "targets found")
