"""In-memory stand-in for h5py (and for the table serialisation of astropy) used in symbolic runs.

Assumed semantics: groups and datasets hold what was written under their name, a name can be used once per group, iteration is in
alphabetical order, text comes back as bytes, arrays of text cannot be written, and what is read is a copy.  Table serialisation:
represent_mixins_as_columns drops the unit of quantities to the column's unit attribute, as_array() keeps the values only, and the
yaml header carries name, unit and kind of each column and the metadata of the table.
"""
import copy, types
import numpy as np
import astropy.units as au
from .sym import Sym, coerce, any_sym, unsupported
from .ctx import CUR
from . import facades as F


def _store(x):
    if isinstance(x, Sym):
        if x.kind == "s": 
            if x.ndim and not getattr(x, "bytestring", False): raise TypeError("No conversion path for dtype('<U')")
        r = x._raw()
        return Sym(r.box.f, r._shape, None, r.kind)
    if isinstance(x, (str, F.SymStr)): return str(x).encode("utf-8")
    if isinstance(x, bytes): return x
    if isinstance(x, Struct): return x
    if isinstance(x, (bool, np.bool_)): return np.bool_(x)
    if isinstance(x, int): return np.int64(x)
    if isinstance(x, float): return np.float64(x)
    if isinstance(x, F.SymSeq): return coerce(x)
    if isinstance(x, (list, tuple)) and any_sym(*x): return coerce(list(x))
    a = np.array(x)
    if a.dtype.kind in "UO":
        if a.dtype.kind == "O" and a.size and all(isinstance(v, (bytes,)) for v in a.ravel()): return a.copy()
        raise TypeError("No conversion path for dtype(%r)" % a.dtype.str)
    return a.copy()


class Dataset:
    def __init__(self, v): self._v, self.attrs = v, {}

    def __getitem__(self, k):
        if k == () or k is Ellipsis or k == slice(None):
            v = self._v
            return v.copy() if isinstance(v, (Sym, np.ndarray)) and not np.isscalar(v) else v
        return self._v[k]

    def __iter__(self): return iter(self._v)
    def __len__(self): return len(self._v)
    shape = property(lambda s: np.shape(s._v) if not isinstance(s._v, Sym) else s._v.shape)
    dtype = property(lambda s: s._v.dtype)


class Group:
    def __init__(self, path="/"): self._d, self.attrs, self.name = {}, {}, path

    def _leaf(self, name):
        name = str(name)
        parts = [p for p in name.split("/") if p]
        if not parts: raise ValueError("Unable to create group (no name)")
        g = self
        for p in parts[:-1]:
            if p not in g._d: g._d[p] = Group(p)
            g = g._d[p]
            if not isinstance(g, Group): raise ValueError("Unable to create (component not a group)")
        if parts[-1] in g._d: raise ValueError("Unable to create (name already exists)")
        return g, parts[-1]

    def create_group(self, name, **k):
        g, n = self._leaf(name)
        r = g._d[n] = Group(n)
        return r

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        v = _store(data)
        if isinstance(dtype, str) and dtype.startswith("S") and isinstance(v, np.ndarray): v = v.astype(dtype).reshape(shape)
        elif shape is not None and isinstance(v, np.ndarray): v = v.reshape(shape)
        g, n = self._leaf(name)
        r = g._d[n] = Dataset(v)
        return r

    def __setitem__(self, k, v): self.create_dataset(k, data=v)

    def __getitem__(self, k):
        g = self
        for p in [p for p in str(k).split("/") if p]:
            if not isinstance(g, Group) or p not in g._d: raise KeyError("Unable to open object %r" % (k,))
            g = g._d[p]
        return g

    def get(self, k, d=None): return self[k] if k in self else d

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError: return False

    def __delitem__(self, k): del self._d[str(k)]
    def keys(self): return sorted(self._d)
    def values(self): return [self._d[k] for k in self.keys()]
    def items(self): return [(k, self._d[k]) for k in self.keys()]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self._d)
    def __bool__(self): return True


class File(Group):
    def __init__(self, name, mode="r", **k):
        Group.__init__(self)
        files = CUR[0].__dict__.setdefault("h5files", {})
        name = str(name)
        if mode in ("r", "r+") and name not in files: raise FileNotFoundError(name)
        if mode in ("w-", "x") and name in files: raise FileExistsError(name)
        if mode == "w" or name not in files: files[name] = (self._d, self.attrs)
        self._d, self.attrs = files[name]
        self.filename, self.mode = name, mode

    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


H5PY = F.mod("h5py", File=File, Group=Group, Dataset=Dataset, version=F.mod("h5py.version", hdf5_version="1", version="3"))


# ------------------------------------------------------------------ tables
class Struct:
    """structured array of a table: names and bare values"""
    _vf_symbolic = True
    def __init__(self, cols): self.cols = cols
    dtype = property(lambda s: types.SimpleNamespace(names=tuple(s.cols)))
    def __getitem__(self, k):
        if k == (): return self
        return self.cols[k].copy()
    def copy(self): return Struct({k: v.copy() for k, v in self.cols.items()})


class Info:
    def __init__(self, c):
        self.c = c
        self.dtype = types.SimpleNamespace(kind=("S" if getattr(c, "bytestring", False) else "U") if c.kind == "s" else c.kind)
    name = property(lambda s: None)


class Encoded(F.SymPlainTable):
    """plain table with unit attributes on its columns"""

    def __init__(self, data=None, **k):
        F.SymPlainTable.__init__(self, None)
        self.units = {}
        if isinstance(data, Struct):
            for n, v in data.cols.items(): self._put(n, v.copy())
        elif isinstance(data, F.SymTable):
            for n, v in data._cols.items():
                self._put(n, v.copy(), v._unit)
            self.meta.update(data.meta)
        elif data is not None: unsupported("table constructor")

    def _put(self, n, v, unit=None):
        c = Col(v.box.f, v._shape, None, v.kind, column=True)
        c._name, c._u, c.bytestring = n, unit, getattr(v, "bytestring", False)
        self._cols[n] = c
        self._nrows = v._shape[0]

    def copy(self, copy_data=True):
        t = Encoded(None)
        for n, c in self._cols.items():
            t._put(n, c.copy(), c._u)
            t._cols[n].bytestring = c.bytestring
        t.meta.update(self.meta)
        return t

    def convert_unicode_to_bytestring(self):
        for c in self._cols.values():
            if c.kind == "s": c.bytestring = True

    def as_array(self): return Struct({n: c.copy() for n, c in self._cols.items()})


class Col(Sym):
    _u = _name = None
    bytestring = False
    unit = property(lambda s: s._u, lambda s, v: setattr(s, "_u", None if v is None else au.Unit(v)))
    name = property(lambda s: s._name)
    info = property(lambda s: Info(s))

    def copy(self, order=None):
        r = Col(self.box.f, self._shape, None, self.kind, column=True)
        r._u, r._name, r.bytestring = self._u, self._name, self.bytestring
        return r

    def __deepcopy__(self, memo): return self.copy()


def represent_mixins_as_columns(tbl, exclude_classes=()):
    if not isinstance(tbl, F.SymTable): unsupported("table serialisation")
    if isinstance(tbl, Encoded): return tbl
    t = Encoded(tbl)
    q = [n for n, c in tbl._cols.items() if c._unit is not None]
    if q: t.meta["__serialized_columns__"] = {n: {"unit": tbl._cols[n]._unit} for n in q}
    return t


def construct_mixins(tbl):
    ser = tbl.meta.get("__serialized_columns__")
    if not ser: return tbl
    t = F.SymTable()
    for n, c in tbl._cols.items(): t[n] = c * ser[n]["unit"] if n in ser else c
    t.meta.update({k: v for k, v in tbl.meta.items() if k != "__serialized_columns__"})
    return t


class Header(str):
    """one line of a yaml header; the facade keeps the content aside"""
    book = {}


def get_yaml_from_table(t):
    h = {"datatype": [], "meta": copy.deepcopy(dict(t.meta))}
    for n, c in t._cols.items():
        d = {"name": n, "datatype": c.kind}
        if c._u is not None: d["unit"] = c._u.to_string()
        h["datatype"].append(d)
    if not h["meta"]: del h["meta"]
    key = "vf-table-header-%d" % len(Header.book)
    Header.book[key] = h
    return ["%YAML", key]


def get_header_from_yaml(lines):
    for l in lines:
        if str(l) in Header.book: return copy.deepcopy(Header.book[str(l)])
    raise ValueError("no header")


SERIALIZE = F.mod("astropy.table.serialize", represent_mixins_as_columns=represent_mixins_as_columns, _construct_mixins_from_columns=construct_mixins)
META = F.mod("astropy.table.meta", get_yaml_from_table=get_yaml_from_table, get_header_from_yaml=get_header_from_yaml)


def read_table_hdf5(group, path=None, character_as_bytes=True):
    """a table written as a structured array with its header next to it"""
    if path not in group: raise OSError("Path %s does not exist" % path)
    t = Encoded(group[path][()])
    h = get_header_from_yaml([x.decode() for x in group[path + ".__table_column_meta__"][()]])
    for c in h["datatype"]:
        if "unit" in c: t._cols[c["name"]].unit = c["unit"]
    t.meta.update(h.get("meta", {}))
    return construct_mixins(t)


def has_info_class(c, k): return False


def install():
    F.TABLE.serialize, F.TABLE.meta = SERIALIZE, META
    return {"h5py": H5PY, "astropy.io.misc.hdf5": F.mod("astropy.io.misc.hdf5", read_table_hdf5=read_table_hdf5), "astropy.table.serialize": SERIALIZE, "astropy.table.meta": META,
            "astropy.table.table": F.mod("astropy.table.table", has_info_class=has_info_class)}
