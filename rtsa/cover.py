"""Must-coverage of null masks.

cov(t) for a boolean mask term t is the set of atoms A with
"A true at a cell  =>  t true at that cell".  Atoms are the masks of input
rasters (named by the raster term).  TOP stands for "every atom" (the value
cannot reach the result / is all True).
"""
from .values import NONE, V, children, const, cval, ext, is_const, is_ext, mk, \
    show

TOP = "TOP"

# library methods/functions that keep a mask's truth per cell
KEEP_METHODS = {
    "copy", "chunk", "rename", "transpose", "isel", "sel", "astype",
    "assign_coords", "drop_vars", "reset_coords", "squeeze", "expand_dims",
    "write_crs", "write_nodata", "write_transform", "set_spatial_dims",
    "rechunk", "compute", "load", "persist", "reindex", "broadcast_like",
    "sortby", "to_numpy", "assign_attrs", "reshape", "ravel", "view",
    "clip_box", "set_crs", "set_nodata", "pad", "drop", "repeat", "swap_dims",
    "unify_chunks", "any", "max", "rename_vars", "set_index", "to_dask_array",
    "flatten", "clip", "isel", "set_close", "pad_box", "to_dask_dataframe",
    "to_frame", "to_series",
}
# methods of data arrays and the rio/odc accessors that keep attributes
NSET_KEEP = {
    "copy", "chunk", "rename", "transpose", "isel", "sel", "astype",
    "assign_coords", "drop_vars", "reset_coords", "squeeze", "expand_dims",
    "write_crs", "write_transform", "set_spatial_dims", "compute", "load",
    "persist", "reindex", "broadcast_like", "sortby", "set_crs", "clip_box",
    "pad_box", "swap_dims", "rename_vars", "unify_chunks", "assign_attrs",
    "where", "fillna", "pad", "interp",
}
KEEP_FUNCS = {
    "dask.array.asarray", "numpy.asarray", "dask.array.from_array",
    "dask.array.broadcast_to", "numpy.broadcast_to", "xarray.DataArray",
    "dask.array.expand_dims", "numpy.expand_dims", "numpy.atleast_3d",
    "dask.array.squeeze", "numpy.squeeze", "dask.array.rechunk",
    "numpy.array", "dask.array.pad", "numpy.pad", "dask.array.repeat",
    "numpy.asanyarray", "numpy.ascontiguousarray", "xarray.Dataset",
    "dask.array.atleast_3d", "numpy.repeat", "dask.array.from_delayed",
}
OR_FUNCS = {"dask.array.logical_or", "numpy.logical_or", "operator.or_",
            "numpy.bitwise_or", "dask.array.bitwise_or", "numpy.maximum",
            "dask.array.maximum"}
AND_FUNCS = {"dask.array.logical_and", "numpy.logical_and", "operator.and_",
             "numpy.bitwise_and", "dask.array.bitwise_and"}
WHERE_FUNCS = {"xarray.where", "dask.array.where", "numpy.where"}


def union(a, b):
    if a is TOP or b is TOP:
        return TOP
    return a | b


def inter(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


NOT_FUNCS = {"numpy.logical_not", "dask.array.logical_not", "numpy.invert",
             "dask.array.invert", "operator.invert", "operator.inv"}
ISNAN = {"numpy.isnan", "dask.array.isnan", "dask.array.isnull",
         "pandas.isnull", "pandas.isna", "xarray.ufuncs.isnan"}
EQ_FUNCS = {"numpy.equal", "dask.array.equal", "operator.eq"}
ONES = {"xarray.ones_like", "dask.array.ones_like", "numpy.ones_like",
        "numpy.ones", "dask.array.ones"}
ZEROS = {"xarray.zeros_like", "dask.array.zeros_like", "numpy.zeros_like",
         "numpy.zeros", "dask.array.zeros"}
FULL = {"xarray.full_like", "dask.array.full_like", "numpy.full_like",
        "numpy.full", "dask.array.full"}
PLAIN_ATTRS = {"crs", "nodata", "dtype", "shape", "chunks", "dims", "sizes",
               "ndim", "size", "resolution", "null_value", "_masked",
               "affine", "geobox", "encoded_nodata", "transform", "nbands"}
NAN = ext("numpy.nan")
OWN = ext("$own null")      # the null value an array itself records
CASTS = {"astype", "item", "type"}


def strip_cast(v):
    """The number behind dtype casts of a scalar."""
    while True:
        if v.op == "const" and cval(v) != cval(v):
            return NAN
        if v.op == "call":
            f, args = v.args[0], v.args[1]
            if f.op == "attr" and f.args[1] == "type" and args:
                v = args[0]
                continue
            if f.op == "attr" and f.args[1] in ("astype", "item"):
                v = f.args[0]
                continue
            if f.op == "call" and f.args[0].op == "ext" and \
                    f.args[0].args[0] == "numpy.dtype" and args:
                v = args[0]
                continue
            if f.op == "ext" and f.args[0] in ("numpy.array", "numpy.asarray",
                                               "float", "int") and args:
                v = args[0]
                continue
        return v


def isnan_of(v):
    """D when v is isnan(D)."""
    if v.op == "call" and v.args[0].op == "ext" and \
            v.args[0].args[0] in ISNAN | {"math.isnan"} and v.args[1]:
        return v.args[1][0]
    if v.op == "call" and v.args[0].op == "attr" and \
            v.args[0].args[1] == "isnull":
        return v.args[0].args[0]
    return None


def none_test(c, y):
    """True/False when c (or not c) says that y is None, else None."""
    pol = True
    while c.op == "not":
        c, pol = c.args[0], not pol
    if c.op == "cmp" and c.args[0] == "is" and NONE in c.args[1:]:
        x = c.args[1] if c.args[2] is NONE else c.args[2]
        if strip_cast(x) is y:
            return pol
    return None


def strip_keep(v):
    while True:
        if v.op == "call" and v.args[0].op == "attr" and \
                v.args[0].args[1] in KEEP_METHODS:
            v = v.args[0].args[0]
        elif v.op == "attr" and v.args[1] in ("rio", "data"):
            v = v.args[0]
        else:
            return v


def rejected_none(events):
    """Values for which None raises an error somewhere in the events."""
    out = set()
    for e in events:
        if e.kind != "raise" or not e.cond:
            continue
        c, pol = e.cond[-1]
        while c.op == "not":
            c, pol = c.args[0], not pol
        if pol and c.op == "cmp" and c.args[0] == "is" and \
                NONE in c.args[1:]:
            out.add(strip_cast(c.args[1] if c.args[2] is NONE else c.args[2]))
    return out


class Cover:
    def __init__(self, ip, extra=None, callback=None):
        self.ip = ip
        self.memos = [{}]         # one more per loop being solved
        self.busy = {}
        self.alias = None         # null value known to be NaN here
        self.alias_memos = {}
        self.extra = extra        # hook: term -> set of atoms or None
        self.callback = callback  # hook: values a chunk function writes
        self.vmemos = [{}]
        self._deps = {}
        self.guess = False        # an unknown construct was met
        self.strict = False       # library calls without a rule change values
        self._nset = {}
        self.nan_vac = False      # a NaN null value needs no replacement
        self.not_none = set()     # values a validation rejects None for
        self.assume = {}          # option parameter -> its value here

    # raster that a dataset/mask term belongs to
    def owner(self, ds):
        """Input raster whose dataset the term ds is, or None."""
        while True:
            if ds.op == "attr" and ds.args[1] == "_ds":
                return self.raster_atom(ds.args[0])
            if ds.op == "snap":
                if any(p[0] in ("mask", "data") for p, _ in ds.args[1]):
                    return None
                ds = ds.args[0]
                continue
            return None

    def raster_atom(self, r):
        if r.op == "param" or r.op in ("elem", "sub", "valof", "dget"):
            return r
        if r.op == "loop_iter":
            return r
        if r.op == "call":
            return r
        return r if self.ip.kind(r) == "Raster" and r.op != "phi" else None

    # -- conditions under which a raster has no nulls ------------------------
    def vac(self, c, pol):
        """Atoms whose mask is all False when c evaluates to pol."""
        op, a = c.op, c.args
        if c in self.assume:
            return _ALL if bool(self.assume[c]) != pol else frozenset()
        if self.nan_vac and op == "call":
            nv = isnan_of(c)
            if nv is not None:
                s = self.nodata_of(strip_cast(nv)) if pol else None
                return s or frozenset()
        if op == "cmp" and a[1] in self.assume and is_const(a[2]):
            v = self.assume[a[1]]
            r = {"is": v is cval(a[2]), "==": v == cval(a[2]),
                 "!=": v != cval(a[2])}.get(a[0], pol)
            return _ALL if r != pol else frozenset()
        if op == "call" and is_ext(a[0], "bool") and a[1] and \
                a[1][0] in self.assume:
            return self.vac(a[1][0], pol)
        if op == "not":
            return self.vac(a[0], not pol)
        if op == "and":
            out = None
            for x in a:
                s = self.vac(x, pol)
                if pol:
                    out = s if out is None else out | s
                else:
                    out = s if out is None else out & s
            return out or frozenset()
        if op == "bin" and a[0] in ("|", "&"):
            op, a = ("or" if a[0] == "|" else "and"), a[1:]
            if op == "and":
                x, y = self.vac(a[0], pol), self.vac(a[1], pol)
                return x | y if pol else x & y
        if op == "or":
            out = None
            for x in a:
                s = self.vac(x, pol)
                if pol:
                    out = s if out is None else out & s
                else:
                    out = s if out is None else out | s
            return out or frozenset()
        if op == "phi":
            x, y, z = a
            # true when (x and y) or (not x and z)
            return (self.vac(x, True) | self.vac(y, pol)) & \
                (self.vac(x, False) | self.vac(z, pol))
        if op == "cmp" and a[0] == "is" and pol:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if is_const(y) and cval(y) is None:
                    return self.vac_none(x)
        if op == "mu" and not pol:
            # a flag that is only ever raised: false means it never was
            if self.only_raised(c):
                return self.vac(self.ip.mu_init[c], False)
        if op in ("const", ):
            # impossible branch
            if bool(cval(c)) != pol:
                return _ALL
        if op == "call" and c.args[0].op == "attr" and \
                c.args[0].args[1] == "any" and not pol:
            s = self.cov_set_any(c.args[0].args[0])
            if s:
                return s
        if op in ("exists",) and not pol:
            out = frozenset()
            for x in a[0]:
                out |= self.vac(x, False)
            return out
        if op == "attr" and a[1] == "_masked" and not pol:
            r = self.raster_atom(a[0])
            if r is not None:
                return frozenset([r])
        return frozenset()

    def only_raised(self, mu):
        b = self.ip.mu_back.get(mu)
        if b is None or mu not in self.ip.mu_init:
            return False
        stack = [b]
        while stack:
            x = stack.pop()
            if x.op == "phi":
                stack += x.args[1:]
            elif x.op == "or":
                if mu not in x.args:
                    return False
            elif not (x is mu or is_const(x) and cval(x) is True):
                return False
        return True

    def vac_none(self, x):
        """Atoms whose mask is all False when x is None."""
        if x.op == "phi":
            c, y, z = x.args
            return (self.vac(c, True) | (
                _ALL if none_test(c, y) is False else self.vac_none(y))) & (
                self.vac(c, False) | (
                    _ALL if none_test(c, z) is True else self.vac_none(z)))
        if is_const(x):
            return frozenset() if cval(x) is None else _ALL
        if x.op == "ext":
            return _ALL
        if x in self.assume:
            return frozenset() if self.assume[x] is None else _ALL
        if x in self.not_none:
            return _ALL
        if x.op == "call" and x.args[0].op == "attr" and \
                x.args[0].args[1] == "get":
            self.guess = True      # recorded in attributes of a file
            return _ALL
        r = self.nodata_of(x)
        if r is not None:
            return r
        k = self.ip.kind(x)
        if k is not None and k != "NoneType":
            return _ALL
        if x.op == "attr" and x.args[1] == "nodata" and \
                self.ip.kind(x.args[0]) == "rio":
            return self.nset(x.args[0])
        if x.op == "attr" and x.args[1] == "nodata" and \
                x.args[0].op == "phi":
            return self.nset(x.args[0])
        if x.op == "sub" and x.args[0].op == "dictval" and \
                not x.args[0].args[1]:
            out = _ALL
            for _, v in x.args[0].args[0]:
                out = out & self.vac_none(v)
            return out
        if x.op == "call" and self.ip.call_nonnull(x):
            return _ALL
        return frozenset()

    # -- is a null value recorded -----------------------------------------------
    def nset(self, t):
        """Rasters a for which "a has a null value => a null value is recorded
        on the data array (or accessor) t"."""
        memo = self._nset
        r = memo.get(t)
        if r is None:
            memo[t] = frozenset()
            r = memo[t] = self._nset1(t)
        return r

    def _nset1(self, t):
        op, a = t.op, t.args
        if op == "phi":
            return (self.vac(a[0], True) | self.nset(a[1])) & \
                (self.vac(a[0], False) | self.nset(a[2]))
        if op == "attr":
            if a[1] in ("rio", "odc", "xdata"):
                return self.nset(a[0])
            if a[1] == "raster":
                o = self.owner(a[0])
                if o is not None:
                    return frozenset([o])
                return self.nset_ds(a[0])
        if op == "sub" and is_const(a[1]) and cval(a[1]) == "raster":
            o = self.owner(a[0])
            return frozenset([o]) if o is not None else self.nset_ds(a[0])
        if op in ("snap", "store"):
            return self.nset(a[0])
        if op == "call":
            f, args, kw = a[0], a[1], dict(a[2])
            if f.op == "attr":
                b, m = f.args
                if m in ("write_nodata", "set_nodata") and (args or kw):
                    return self.vac_none(args[0] if args else
                                         next(iter(kw.values())))
                if m in NSET_KEEP:
                    return self.nset(b)
                if m in ("reduce", "mean", "sum", "any", "all", "isnull",
                         "notnull", "map_blocks"):
                    return frozenset()
            elif f.op == "ext":
                n = f.args[0]
                if n == "xarray.where" and "keep_attrs" not in kw:
                    return frozenset()
                if n == "xarray.DataArray" and "attrs" not in kw and args \
                        and self.ip.kind(args[0]) in ("dask", "numpy"):
                    return frozenset()
                if n in ("xarray.zeros_like", "xarray.full_like",
                         "xarray.ones_like") and args:
                    return self.nset(args[0])
                if n == "xarray.concat" and args:
                    return self.nset_concat(args[0], self.nset)
        return self.unknown_nset(t)

    def nset_concat(self, l, f):
        # attributes come from the first array
        if l.op == "listval":
            items = tuple(l.args[1]) + tuple(l.args[2])
            if len(l.args[1]) and items:
                s = f(items[0])
            elif len(items) == 1:
                s = f(items[0])
            else:
                return self.unknown_nset(l)
            return frozenset(x for x in s if x.op != "elem") \
                if s is not _ALL else s
        return self.unknown_nset(l)

    def unknown_nset(self, t):
        self.guess = True
        return self.deps(t, data=True)

    def nset_ds(self, ds):
        op, a = ds.op, ds.args
        if op == "phi":
            return (self.vac(a[0], True) | self.nset_ds(a[1])) & \
                (self.vac(a[0], False) | self.nset_ds(a[2]))
        if op == "attr" and a[1] == "_ds":
            o = self.owner(ds)
            return frozenset([o]) if o is not None else frozenset()
        if op == "attr" and a[1] in ("rio", "odc"):
            return self.nset_ds(a[0])
        if op == "store":
            if is_const(a[1]) and cval(a[1]) == "raster":
                return self.nset(a[2])
            return self.nset_ds(a[0])
        if op == "snap":
            for p, v in reversed(a[1]):
                if p == ("raster",):
                    return self.nset(v)
            return self.nset_ds(a[0])
        if op == "call":
            f, args = a[0], a[1]
            if f.op == "attr":
                b, m = f.args
                if b.op == "attr" and b.args[1] in ("rio", "odc"):
                    b = b.args[0]
                if m in KEEP_METHODS or m in ("to_dataset", "interp"):
                    return self.nset_ds(b)
            elif is_ext(f, "xarray.Dataset") and args and \
                    args[0].op == "dictval":
                for k, v in args[0].args[0]:
                    if k == "raster" or (isinstance(k, V) and is_const(k)
                                         and cval(k) == "raster"):
                        return self.nset(v)
            elif is_ext(f, "xarray.concat") and args:
                return self.nset_concat(args[0], self.nset_ds)
        return self.unknown_nset(ds)

    def cov_set_any(self, m):
        """mask.any() false -> every atom it covers is all False"""
        s = self.cov(m)
        return s if s is not TOP else frozenset()

    def nodata_of(self, x):
        """x is the nodata value of an input raster -> {raster}."""
        if x.op == "phi":
            a = self.nodata_of(x.args[1])
            b = self.nodata_of(x.args[2])
            if a is None or b is None:
                return None
            # each branch names its own raster(s)
            return a & b if a & b else None
        if x.op == "attr" and x.args[1] in ("nodata", "null_value",
                                            "encoded_nodata"):
            b = x.args[0]
            if x.args[1] == "null_value":
                r = self.raster_atom(b)
                return frozenset([r]) if r is not None else None
            if self.ip.kind(b) == "rio":
                o = self.base_owner(b)
                return frozenset([o]) if o is not None else None
        return None

    def base_owner(self, ds, d=0):
        """Owner, looking through copies and other keep-methods."""
        while d < 200:
            d += 1
            o = self.owner(ds)
            if o is not None:
                return o
            if ds.op == "phi":
                o = self.base_owner(ds.args[1], d)
                return o if o is not None and \
                    o is self.base_owner(ds.args[2], d) else None
            if ds.op == "attr" and ds.args[1] in ("rio", "odc", "raster"):
                ds = ds.args[0]
                continue
            if ds.op == "call" and ds.args[0].op == "attr":
                f = ds.args[0]
                if f.args[1] in KEEP_METHODS and f.args[1] != "write_nodata":
                    ds = f.args[0]
                    continue
            if ds.op in ("store", "snap"):
                ds = ds.args[0]
                continue
            return None
        return None

    # -- coverage -------------------------------------------------------------
    def cov(self, t):
        for m in self.memos:
            if t in m:
                return m[t]
        if t in self.busy:
            return self.busy[t]
        r = self._cov(t)
        self.memos[-1][t] = r
        return r

    def with_nan(self, nv, t):
        """Coverage of t where nv is known to be NaN."""
        saved = self.memos, self.vmemos, self.alias
        if self.busy:
            self.memos, self.vmemos = [{}], [{}]
        else:
            self.memos, self.vmemos = self.alias_memos.setdefault(
                nv, ([{}], [{}]))
        self.alias = nv
        try:
            return self.cov(t)
        finally:
            self.memos, self.vmemos, self.alias = saved

    def unknown(self, t):
        """An operation without a rule: assumed to keep every mask it is
        computed from, so that only understood losses are reported."""
        self.guess = True
        return self.deps(t)

    def deps(self, t, data=False):
        """Input rasters whose mask (or data) t is computed from."""
        r = self._deps.get((t, data))
        if r is not None:
            return r
        out = set()
        seen = set()
        stack = [t]
        ip = self.ip
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "attr":
                b, n = x.args
                if n in PLAIN_ATTRS:
                    continue
                o = self.owner(x)
                if o is not None:
                    out.add(o)
                    continue
                o = self.owner(b)
                if o is not None:
                    if data and n == "raster" or \
                            n not in ("raster", "x", "y", "band", "coords",
                                 "attrs", "data_vars"):
                        out.add(o)
                    continue
            if x.op == "sub" and is_const(x.args[1]) and \
                    cval(x.args[1]) in ("mask", "raster"):
                o = self.owner(x.args[0])
                if o is not None:
                    if data or cval(x.args[1]) == "mask":
                        out.add(o)
                    continue
            if x.op == "mu":
                for d in (ip.mu_init, ip.mu_back):
                    if x in d:
                        stack.append(d[x])
            stack.extend(children(x))
        r = self._deps[t, data] = frozenset(out)
        return r

    def _cov(self, t):
        if self.extra is not None:
            s = self.extra(self, t)
            if s is not None:
                return s
        op, a = t.op, t.args
        if op == "const":
            return TOP if cval(t) is True else frozenset()
        if op == "attr":
            if a[1] == "mask":
                o = self.owner(a[0])
                if o is not None:
                    return frozenset([o])
                return self.cov_ds(a[0])
            if a[1] in ("data", "values", "T", "rio", "odc"):
                return self.cov(a[0])
            return frozenset()
        if op == "sub":
            if is_const(a[1]) and cval(a[1]) == "mask":
                o = self.owner(a[0])
                if o is not None:
                    return frozenset([o])
                return self.cov_ds(a[0])
            return self.cov(a[0])
        if op == "phi":
            # if isnan(nv): isnan(data) else: data == nv
            nv = isnan_of(a[0])
            if nv is not None:
                x = self.with_nan(nv, a[1])
            else:
                x = self.cov(a[1])
            x = union(x, self.vac_(a[0], True))
            y = union(self.cov(a[2]), self.vac_(a[0], False))
            return inter(x, y)
        if op == "bin":
            if a[0] in ("|", "+"):
                return union(self.cov(a[1]), self.cov(a[2]))
            if a[0] in ("&", "*"):
                return inter(self.cov(a[1]), self.cov(a[2]))
            if a[0] == "==":
                return self.cov_eq(a[1], a[2])
            return self.unknown(t)
        if op == "un":
            if a[0] in ("~", "not", "-"):
                return self.ncov(a[1])
            return self.cov(a[1])
        if op == "not":
            return self.ncov(a[0])
        if op == "cmp":
            if a[0] == "==":
                return self.cov_eq(a[1], a[2])
            if a[0] in ("!=", "is", "in", "<", ">", "<=", ">="):
                return frozenset()
            return self.unknown(t)
        if op == "or":
            out = frozenset()
            for x in a:
                out = union(out, self.cov(x))
            return out
        if op == "and":
            out = TOP
            for x in a:
                out = inter(out, self.cov(x))
            return out
        if op == "snap":
            for p, v in reversed(a[1]):
                if p == ("data",):
                    return self.cov(v)
            return self.cov(a[0])
        if op == "store":
            if is_const(a[1]) and isinstance(cval(a[1]), str):
                return self.cov(a[0])
            # x[i] = v
            if is_const(a[2]) and cval(a[2]) is True:
                return union(self.cov(a[0]), self.cov(a[1]))
            return inter(self.cov(a[0]), self.cov(a[2]))
        if op == "mu":
            return self.cov_mu(t)
        if op == "listval":
            out = TOP
            for x in tuple(a[1]) + tuple(a[2]):
                out = inter(out, self.cov(x))
            return out if out is not TOP else frozenset()
        if op == "opt":
            return self.cov(a[1])
        if op == "call":
            f, args, kw = a[0], a[1], dict(a[2])
            if f.op == "attr":
                b, m = f.args
                if b.op == "attr" and b.args[1] in ("rio", "odc"):
                    b = b.args[0]
                if m in ("reduce",) and args and is_ext(
                        args[0], "numpy.any", "numpy.all"):
                    return self.cov(b)
                if m == "coarsen":
                    return self.cov(b)
                if m in ("all", "min"):
                    return self.cov(b)
                if m in ("any", "max"):
                    return self.cov(b)
                if m in KEEP_METHODS:
                    return self.cov(b)
                if m == "fillna" and args:
                    return self.cov(b)
                if m == "isnull":
                    return self.valcov(b, NAN)
                if m == "notnull":
                    return frozenset()
                if m == "where" and args:
                    other = args[1] if len(args) > 1 else kw.get("other")
                    if other is not None:
                        return self.cov_where(args[0], b, other)
                    return frozenset()
                return self.unknown(t)
            if f.op == "ext":
                n = f.args[0]
                if n in KEEP_FUNCS and args:
                    return self.cov(args[0])
                if n in OR_FUNCS and len(args) > 1:
                    return union(self.cov(args[0]), self.cov(args[1]))
                if n in AND_FUNCS and len(args) > 1:
                    return inter(self.cov(args[0]), self.cov(args[1]))
                if n in NOT_FUNCS and args:
                    return self.ncov(args[0])
                if n in WHERE_FUNCS and len(args) == 3:
                    return self.cov_where(*args)
                if n in ISNAN and args:
                    return self.valcov(args[0], NAN)
                if n in EQ_FUNCS and len(args) > 1:
                    return self.cov_eq(args[0], args[1])
                if n in ONES:
                    return TOP
                if n in ZEROS:
                    return frozenset()
                if n in FULL:
                    v = args[1] if len(args) > 1 else kw.get("fill_value")
                    if v is not None and is_const(v):
                        return TOP if cval(v) else frozenset()
                    return self.cov(v) if v is not None else frozenset()
                if n in ("xarray.concat", "dask.array.concatenate",
                         "dask.array.stack", "numpy.concatenate",
                         "numpy.stack") and args:
                    return self.cov(args[0])
            return self.unknown(t)
        if op in ("elem", "loop_iter", "tuple"):
            return self.unknown(t)
        return frozenset()

    def cov_where(self, c, x, y):
        cx, cy = self.cov(x), self.cov(y)
        if cx is TOP:
            return union(self.cov(c), cy)
        if cy is TOP:
            return union(self.ncov(c), cx)
        return inter(union(cx, self.ncov(c)), union(cy, self.cov(c)))

    def ncov(self, t):
        """Atoms whose cells make t False."""
        op, a = t.op, t.args
        if op == "const":
            return TOP if not cval(t) else frozenset()
        if op == "un" and a[0] in ("~", "not"):
            return self.cov(a[1])
        if op == "not":
            return self.cov(a[0])
        if op == "snap":
            return self.ncov(a[0])
        if op == "phi":
            x = union(self.ncov(a[1]), self.vac_(a[0], True))
            y = union(self.ncov(a[2]), self.vac_(a[0], False))
            return inter(x, y)
        if op == "bin" and a[0] == "|":
            return inter(self.ncov(a[1]), self.ncov(a[2]))
        if op == "bin" and a[0] in ("&", "*"):
            return union(self.ncov(a[1]), self.ncov(a[2]))
        if op in ("cmp", "bin") and a[0] == "!=":
            return self.cov_eq(a[1], a[2])
        if op == "attr" and a[1] in ("data", "values"):
            return self.ncov(a[0])
        if op == "call":
            f, args = a[0], a[1]
            if f.op == "attr":
                b, m = f.args
                if m in KEEP_METHODS:
                    return self.ncov(b)
                if m == "notnull":
                    return self.valcov(b, NAN)
            elif f.op == "ext":
                n = f.args[0]
                if n in NOT_FUNCS and args:
                    return self.cov(args[0])
                if n in KEEP_FUNCS and args:
                    return self.ncov(args[0])
                if n in OR_FUNCS and len(args) > 1:
                    return inter(self.ncov(args[0]), self.ncov(args[1]))
                if n in AND_FUNCS and len(args) > 1:
                    return union(self.ncov(args[0]), self.ncov(args[1]))
                if n in WHERE_FUNCS and len(args) == 3:
                    c, x, y = args
                    nx, ny = self.ncov(x), self.ncov(y)
                    if nx is TOP:
                        return union(self.cov(c), ny)
                    if ny is TOP:
                        return union(self.ncov(c), nx)
                    return inter(union(nx, self.ncov(c)),
                                 union(ny, self.cov(c)))
                if n in ZEROS:
                    return TOP
        return frozenset()

    # -- values at null cells ---------------------------------------------------
    def cov_eq(self, x, y):
        return union(self.valcov(x, y), self.valcov(y, x))

    def same(self, a, b, d=0):
        """Equal null values (a branch that is None cannot be compared)."""
        a, b = strip_cast(a), strip_cast(b)
        if a is b or d and b is NONE:
            return True
        if d > 12:
            return False
        for x, y in ((a, b), (b, a)):
            if x.op == "phi":
                c, p, q = x.args
                pol = none_test(c, y)
                if pol is None and y.op == "phi" and \
                        c is self.ip.compare("is", y, NONE, self.ip.base):
                    pol = True
                if pol is not None:       # y is not None here
                    return self.same(q if pol else p, y, d + 1)
                if p is NONE or q is NONE:
                    return self.same(q if p is NONE else p, y, d + 1)
        if a.op == "phi" and b.op == "phi" and a.args[0] is b.args[0]:
            return self.same(a.args[1], b.args[1], d + 1) and \
                self.same(a.args[2], b.args[2], d + 1)
        if a.op == "phi":
            return self.same(a.args[1], b, d + 1) and \
                self.same(a.args[2], b, d + 1)
        return False

    def valcov(self, t, nv):
        """Atoms at whose null cells the pixel values t equal nv."""
        for m in self.vmemos:
            if (t, nv) in m:
                return m[(t, nv)]
        self.vmemos[-1][(t, nv)] = frozenset()
        r = self._valcov(t, nv)
        if nv is NAN and self.alias is not None and self.alias is not NAN:
            r = union(r, self.valcov(t, self.alias))
        self.vmemos[-1][(t, nv)] = r
        return r

    def _valcov(self, t, nv):
        op, a = t.op, t.args
        if op == "bin" and a[0] in ("+", "-") and is_const(a[2]) and \
                isinstance(nv, V) and is_const(nv):
            x, y = cval(nv), cval(a[2])
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return self.valcov(a[1], const(
                    x - y if a[0] == "+" else x + y))
        if op in ("const",) or op == "call" and self.ip.kind(t) in (
                "int", "float"):
            return TOP if self.same(t, nv) else frozenset()
        if t is nv:
            return TOP
        if op == "snap":
            for p, v in reversed(a[1]):
                if p == ("data",):
                    return self.valcov(v, nv)
            return self.valcov(a[0], nv)
        if op == "attr" and a[1] in ("data", "values", "rio"):
            return self.valcov(a[0], nv)
        if op == "attr" and a[1] in ("raster", "_ds") or op == "sub" and \
                is_const(a[1]) and cval(a[1]) == "raster":
            o = self.owner(t if op == "attr" and a[1] == "_ds" else a[0])
            if o is not None:
                return frozenset([o]) if nv is OWN or \
                    self.is_nodata(nv, o) else frozenset()
            if op == "sub" and self.ip.kind(a[0]) not in ("Dataset",):
                return self.valcov(a[0], nv)    # column of a table
            return frozenset()
        if op == "phi":
            x = union(self.valcov(a[1], nv), self.vac_(a[0], True))
            y = union(self.valcov(a[2], nv), self.vac_(a[0], False))
            return inter(x, y)
        if op == "store":
            if is_const(a[1]) and isinstance(cval(a[1]), str):
                return self.valcov(a[0], nv)
            if self.same(a[2], nv):
                return union(self.valcov(a[0], nv), self.cov(a[1]))
            return self.unvalue(t)
        if op == "call":
            f, args, kw = a[0], a[1], dict(a[2])
            if f.op == "attr":
                b, m = f.args
                if b.op == "attr" and b.args[1] in ("rio", "odc"):
                    b = b.args[0]
                if m == "where" and args:
                    other = args[1] if len(args) > 1 else kw.get("other", NAN)
                    return self.val_where(args[0], b, other, nv)
                if m == "fillna" and args:
                    return self.valcov(b, NAN) if self.same(args[0], nv) \
                        else frozenset()
                if m in KEEP_METHODS:
                    return self.valcov(b, nv)
                if m == "reproject" and "dst_nodata" in kw:
                    # source nodata stays nodata
                    return self.valcov(b, OWN) if nv is OWN or self.same(
                        kw["dst_nodata"], nv) else frozenset()
                if m == "map_overlap" and args and \
                        split_partial(args[0])[0].op == "func":
                    return frozenset()    # a window's value, not the cell's
                if m == "type" and len(args) == 1:
                    return TOP if self.same(t, nv) else frozenset()
                return self.unvalue(t)
            if f.op == "ext":
                n = f.args[0]
                if n in WHERE_FUNCS and len(args) == 3:
                    return self.val_where(args[0], args[1], args[2], nv)
                if n in KEEP_FUNCS and args:
                    return self.valcov(args[0], nv)
                if n in FULL:
                    v = args[1] if len(args) > 1 else kw.get("fill_value")
                    return TOP if v is not None and self.same(v, nv) \
                        else frozenset()
                if n.startswith("dask_image.ndfilters."):
                    return frozenset()
                if n in ("xarray.concat", "dask.array.concatenate",
                         "dask.array.stack", "numpy.concatenate",
                         "numpy.stack") and args and \
                        args[0].op == "listval":
                    out = TOP
                    for x in tuple(args[0].args[1]) + tuple(args[0].args[2]):
                        out = inter(out, self.valcov(
                            x.args[1] if x.op == "opt" else x, nv))
                    return out if out is not TOP else frozenset()
                if n in ("dask.array.map_blocks", "dask.array.map_overlap") \
                        and args and self.callback is not None:
                    r = self.callback(self, t, nv)
                    if r is not None:
                        return r
                    if n == "dask.array.map_overlap" and \
                            split_partial(args[0])[0].op == "func":
                        return frozenset()
            return self.unvalue(t)
        if op == "sub":
            return self.valcov(a[0], nv)
        if op in ("mu", "elem", "loop_iter"):
            return self.unvalue(t)
        return frozenset()

    def unvalue(self, t):
        if self.strict:
            return frozenset()
        return self.unknown(t)

    def val_where(self, c, x, y, nv):
        vx, vy = self.valcov(x, nv), self.valcov(y, nv)
        if self.same(x, nv):
            return union(self.cov(c), vy)
        if self.same(y, nv):
            return union(self.ncov(c), vx)
        return inter(union(vx, self.ncov(c)), union(vy, self.cov(c)))

    def is_nodata(self, nv, o):
        s = self.nodata_of(strip_cast(nv))
        return s is not None and o in s

    def vac_(self, c, pol):
        s = self.vac(c, pol)
        return TOP if s is _ALL else frozenset(s)

    def cov_ds(self, ds):
        """Coverage of the mask variable of a dataset term."""
        ip = self.ip
        op, a = ds.op, ds.args
        if op == "phi":
            x = union(self.cov_ds(a[1]), self.vac_(a[0], True))
            y = union(self.cov_ds(a[2]), self.vac_(a[0], False))
            return inter(x, y)
        if op == "attr" and a[1] == "_ds":
            o = self.owner(ds)
            return frozenset([o]) if o is not None else frozenset()
        if op == "attr" and a[1] in ("rio", "odc"):
            return self.cov_ds(a[0])
        if op == "store":
            if is_const(a[1]) and cval(a[1]) == "mask":
                return self.cov(a[2])
            return self.cov_ds(a[0])
        if op == "snap":
            for p, v in reversed(a[1]):
                if p in (("mask",), ("mask", "data")):
                    return self.cov(v)
            return self.cov_ds(a[0])
        if op == "call":
            f, args = a[0], a[1]
            if f.op == "attr":
                b, m = f.args
                if b.op == "attr" and b.args[1] in ("rio", "odc"):
                    b = b.args[0]
                if m in KEEP_METHODS or m in ("to_dataset", "interp"):
                    return self.cov_ds(b)
                return self.unknown(ds)
            if is_ext(f, "xarray.Dataset") and args:
                d = args[0]
                if d.op == "dictval":
                    for k, v in d.args[0]:
                        if k == "mask" or (isinstance(k, V) and is_const(k)
                                           and cval(k) == "mask"):
                            return self.cov(v)
            if is_ext(f, "xarray.concat") and args:
                l = args[0]
                if l.op == "listval":
                    out = TOP
                    for x in tuple(l.args[1]) + tuple(l.args[2]):
                        out = inter(out, self.cov_ds(
                            x.args[1] if x.op == "opt" else x))
                    return out if out is not TOP else frozenset()
        return self.unknown(ds)

    def cov_mu(self, t):
        ip = self.ip
        init = ip.mu_init.get(t)
        back = ip.mu_back.get(t)
        ci = self.cov(init) if init is not None else frozenset()
        if back is None:
            return ci
        # greatest fixpoint for what init already covers; atoms of the loop's
        # element count when the loop keeps what it has covered before
        self.busy[t] = frozenset(ci if ci is not TOP else ()) | {t}
        self.memos.append({})
        self.vmemos.append({})
        cb = self.cov(back)
        self.memos.pop()
        self.vmemos.pop()
        del self.busy[t]
        if cb is TOP:
            return ci
        keep = t in cb
        out = inter(ci, cb)
        out = frozenset(out) if out is not TOP else frozenset()
        if keep:
            out |= {x for x in cb if x is not t and x.op in (
                "elem", "loop_iter", "valof")}
        return out


class _All(frozenset):
    """Every atom (an impossible branch)."""

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __and__(self, o):
        return o

    __rand__ = __and__

    def __bool__(self):
        return True

    def __contains__(self, x):
        return True


_ALL = _All()


class FakeEvent:
    kind = "callback"

    def __init__(self, call):
        self.data = (call,)


def split_partial(f):
    """(function, positional, keywords) behind partials and bound methods."""
    pa, pk = (), ()
    while f.op in ("partial", "bound"):
        if f.op == "bound":
            pa = (f.args[1],) + pa
        else:
            pa = tuple(f.args[1]) + pa
            pk = tuple(f.args[2]) + pk
        f = f.args[0]
    return f, pa, pk


class Kernels:
    """Values that chunk functions write at masked cells."""

    def __init__(self, A):
        self.A = A
        self.cache = {}

    def run(self, t):
        r = self.cache.get(t)
        if r is None:
            f, pa, pk = split_partial(t.args[1][0])
            if f.op != "func" or f.pay is None:
                r = (None,) * 3
            else:
                ip = self.A.ip
                n0 = len(ip.events)
                v, evs, st, blocks, first = self.A.run_callback(
                    f, pa, pk, FakeEvent(t), ip.new_state())
                del ip.events[n0:]
                r = (v, evs, (f, pa, blocks))
            self.cache[t] = r
        return r

    def __call__(self, C, t, nv):
        v, evs, info = self.run(t)
        if v is None:
            return None
        f, pa, blocks = info
        if not (v.op == "call" and v.args[0].op == "ext" and
                v.args[0].args[0].startswith("numpy.")):
            return None
        n = v.args[0].args[0]
        filled = False
        if n in FULL:
            x = v.args[1][1] if len(v.args[1]) > 1 else \
                dict(v.args[2]).get("fill_value")
            filled = x is not None and C.same(x, nv)
        elif n not in ("numpy.empty", "numpy.empty_like", "numpy.zeros",
                       "numpy.zeros_like", "numpy.ones", "numpy.ones_like"):
            return None
        stores = [e for e in evs if e.kind == "setitem" and e.target is v]
        if not stores:
            return None
        names = [a.arg for a in f.pay.node.args.posonlyargs +
                 f.pay.node.args.args][len(pa):]
        out = frozenset()
        for name, arg in zip(names, t.args[1][1:]):
            p = blocks.get(name)
            if p is None:
                continue
            ok, wrote = True, filled
            used = False
            for e in stores:
                conds = [(c, pol) for c, pol in e.cond
                         if c.op == "sub" and c.args[0] is p]
                used = used or bool(conds)
                if any(not pol for _, pol in conds):
                    continue
                if not C.same(e.data[1], nv):
                    ok = False
                elif conds:
                    wrote = True
            if ok and wrote and used:
                s = C.cov(arg)
                out = union(out, s)
        return out


SHAPE_ATTRS = {"dtype", "shape", "ndim", "size", "chunks", "dims", "coords",
               "attrs", "x", "y", "band", "nbands", "npartitions", "name",
               "chunksize", "numblocks", "geobox", "crs", "nodata", "encoding",
               "sizes", "indexes", "itemsize", "nbytes", "blocks"}
BOOL_FUNCS = {"isnan", "isfinite", "isinf", "isnull", "notnull", "logical_and",
              "logical_or", "logical_not", "zeros_like", "ones_like",
              "full_like", "empty_like", "isinstance", "len", "hasattr",
              "is_dask_collection", "isclose", "allclose", "can_cast",
              "result_type", "transform", "bounds", "resolution", "spatial_dims"}


class Raw:
    """raw(t): rasters whose stored null value may still sit at their null
    cells in the pixel array t."""

    def __init__(self, C):
        self.C = C
        self.ip = C.ip
        self.memo = {}
        self.env = None         # decided branch conditions (path-sensitive)
        self.steps = 0

    def raw(self, t):
        k = (t, self.env)
        r = self.memo.get(k)
        if r is None:
            if self.env is not None:
                self.steps += 1
                if self.steps > 60000 or not self.raw_any(t):
                    return self.raw_any(t)
            self.memo[k] = frozenset()
            r = self.memo[k] = self._raw(t)
        return r

    def raw_any(self, t):
        env, self.env = self.env, None
        try:
            return self.raw(t)
        finally:
            self.env = env

    def raw_paths(self, t, cond=()):
        """As raw, but a branch is followed only where its condition agrees
        with the conditions already decided on the path."""
        if not self.raw(t):
            return frozenset()
        out = frozenset()
        self.steps = 0
        for env in self.extend(frozenset(), [(c, p) for c, p in cond]):
            self.env = env
            try:
                out |= self.minus(self.raw(t), self.env_vac(env))
            finally:
                self.env = None
        return out

    def env_vac(self, env):
        s = frozenset()
        for c, p in env:
            v = self.C.vac_(c, p)
            if v is TOP:
                return TOP
            s |= v
        return s

    def extend(self, env, facts):
        """The ways the facts [(cond, pol)] can hold next to env."""
        envs = [env]
        for c, p in facts:
            nxt = []
            for e in envs:
                nxt.extend(self.ext1(e, c, p, 0))
            envs = list(dict.fromkeys(nxt))
            if len(envs) > 64:
                return [env]
        return envs

    def ext1(self, env, c, p, depth):
        if depth > 12:
            return [env]
        if c.op == "un" and c.args[0] == "not":
            return self.ext1(env, c.args[1], not p, depth + 1)
        if is_const(c):
            v = cval(c)
            if isinstance(v, (bool, int, float, str, type(None))):
                return [env] if bool(v) == p else []
            return [env]
        if c.op == "phi":
            out = []
            for e in self.ext1(env, c.args[0], True, depth + 1):
                out.extend(self.ext1(e, c.args[1], p, depth + 1))
            for e in self.ext1(env, c.args[0], False, depth + 1):
                out.extend(self.ext1(e, c.args[2], p, depth + 1))
            return list(dict.fromkeys(out))[:64]
        if c.op in ("and", "or"):
            xs = list(c.args)
            if (c.op == "and") == p:
                envs = [env]
                for x in xs:
                    envs = [e2 for e in envs
                            for e2 in self.ext1(e, x, p, depth + 1)]
                return list(dict.fromkeys(envs))[:64]
            out = []
            for x in xs:
                out.extend(self.ext1(env, x, p, depth + 1))
            return list(dict.fromkeys(out))[:64]
        if (c, not p) in env:
            return []
        return [env | {(c, p)}]

    def burned(self, c, x, neg=False):
        """The rasters whose own null value x is put (back) in by c."""
        n, todo, seen = frozenset(), [strip_cast(x)], 0
        while todo and seen < 60:
            seen += 1
            y = todo.pop()
            if y.op == "phi":
                todo += y.args[1:]
                continue
            z = self.C.nodata_of(strip_cast(y))
            if z and z is not TOP:
                n |= z
        if not n:
            return n
        m = (self.C.ncov if neg else self.C.cov)(c)
        return n if m is TOP else frozenset(y for y in n if y in m)

    def without(self, t, m):
        """raw(t) where the cells at which m is true are given up."""
        if t.op == "store" and m.op == "store" and t.args[1] is m.args[1]:
            # both filled at the same places
            return self.without(t.args[0], m.args[0]) | \
                self.without(t.args[2], m.args[2])
        if t.op == "sub" and m.op == "sub" and t.args[1] is m.args[1]:
            return self.without(t.args[0], m.args[0])
        if t.op == "attr" and m.op == "attr" and t.args[1] == m.args[1] and \
                t.args[1] in ("vindex", "blocks"):
            return self.without(t.args[0], m.args[0])
        return self.minus(self.raw(t), self.C.cov(m))

    def found_by_value(self, c, data):
        """c is a mask made by comparing data itself with a value."""
        if c.op == "phi":
            return any(self.found_by_value(x, data) for x in c.args[1:])
        if c.op == "bin" and c.args[0] == "|":
            return any(self.found_by_value(x, data) for x in c.args[1:])
        if c.op in ("bin", "cmp") and c.args[0] == "==":
            return data in c.args[1:]
        if c.op == "call" and c.args[1] and c.args[0].op == "ext":
            return c.args[0].args[0].endswith("isnan") and c.args[1][0] is data
        return False

    def minus(self, s, cov):
        if cov is TOP:
            return frozenset()
        return frozenset(x for x in s if x not in cov)

    def _raw(self, t):
        C, ip = self.C, self.ip
        op, a = t.op, t.args
        raw, minus = self.raw, self.minus
        if op in ("const", "param", "ext", "func", "cls", "cmp", "isinst",
                  "exists", "dictval"):
            return frozenset()
        if op == "phi" and self.env is not None:
            out = frozenset()
            env0 = self.env
            for b, p in ((a[1], True), (a[2], False)):
                for env in self.extend(env0, [(a[0], p)]):
                    self.env = env
                    try:
                        out |= minus(raw(b), self.env_vac(env - env0))
                    finally:
                        self.env = env0
            return out
        if op == "phi":
            x = minus(raw(a[1]), C.vac_(a[0], True))
            y = minus(raw(a[2]), C.vac_(a[0], False))
            return x | y
        if op == "attr":
            if a[1] in SHAPE_ATTRS or a[1] == "mask":
                return frozenset()
            if a[1] == "raster":
                o = C.owner(a[0])
                if o is not None:
                    return frozenset([o])
            if a[1] == "_ds":
                o = C.owner(t)
                return frozenset([o]) if o is not None else frozenset()
            return raw(a[0])
        if op == "sub":
            if is_const(a[1]) and cval(a[1]) in ("mask",):
                return frozenset()
            if is_const(a[1]) or a[1].op == "tuple":
                return raw(a[0])
            return minus(raw(a[0]), C.ncov(a[1]))
        if op == "snap":
            out = None
            for p, v in reversed(a[1]):
                if p in (("data",), ("raster",), ("raster", "data")):
                    return raw(v)
            return raw(a[0])
        if op == "store":
            if is_const(a[1]) and isinstance(cval(a[1]), str):
                return raw(a[2]) if cval(a[1]) == "raster" else raw(a[0])
            return self.without(a[0], a[1]) | raw(a[2]) | \
                self.burned(a[1], a[2])
        if op == "mu":
            out = frozenset()
            for d in (ip.mu_init, ip.mu_back):
                if t in d:
                    out |= raw(d[t])
            return out
        if op == "un" and a[0] in ("not", "~"):
            return raw(a[1]) if a[0] == "~" else frozenset()
        if op == "bin":
            if a[0] in ("==", "!=", "<", ">", "<=", ">="):
                return frozenset()
            return raw(a[1]) | raw(a[2])
        if op == "call":
            f, args, kw = a[0], a[1], dict(a[2])
            if f.op == "attr":
                b, m = f.args
                if m == "where" and args:
                    other = args[1] if len(args) > 1 else kw.get("other")
                    s = minus(raw(b), C.ncov(args[0]))
                    if other is not None:
                        s |= minus(raw(other), C.cov(args[0]))
                        s |= self.burned(args[0], other, True)
                    return s
                if m == "mask" and args:
                    s = self.without(b, args[0])
                    return s | raw(args[1]) if len(args) > 1 else s
                if m in BOOL_FUNCS:
                    return frozenset()
                if m == "replace" and len(args) == 2:
                    s = C.nodata_of(strip_cast(args[0]))
                    return minus(raw(b), s) | raw(args[1]) if s else raw(b)
                if m in ("map_blocks", "map_overlap", "reduce"):
                    return frozenset()
                if m == "reproject":
                    return frozenset()
                out = raw(b)
                for x in args:
                    out |= raw(x)
                return out
            if f.op == "ext":
                n = f.args[0]
                if n == "dask.array.isnan":
                    return frozenset()
                if n in WHERE_FUNCS and len(args) == 3:
                    s = minus(raw(args[1]), C.ncov(args[0])) | \
                        self.without(args[2], args[0]) | \
                        self.burned(args[0], args[1])
                    if s and self.found_by_value(args[0], args[2]):
                        # rasters of a list, brought to a common null value
                        # beforehand
                        s = frozenset(x for x in s if x.op != "elem")
                    return s
                if n.rsplit(".", 1)[-1] in BOOL_FUNCS:
                    return frozenset()
                if n == "xarray.Dataset" and args and \
                        args[0].op == "dictval":
                    for k, v in args[0].args[0]:
                        if isinstance(k, V) and is_const(k) and \
                                cval(k) == "raster":
                            return raw(v)
                    return frozenset()
                if n.rsplit(".", 1)[-1] in ("map_blocks", "map_overlap",
                                            "reduction"):
                    return frozenset()
                out = frozenset()
                for x in args:
                    out |= raw(x)
                return out
            return frozenset()
        if op in ("tuple",):
            out = frozenset()
            for x in a:
                out |= raw(x)
            return out
        if op == "listval":
            out = frozenset()
            for x in tuple(a[1]) + tuple(a[2]):
                out |= raw(x)
            return out
        if op in ("elem", "loop_iter", "opt", "star"):
            return raw(a[0] if op != "opt" else a[1])
        return frozenset()


class Burn:
    """burn(D): atoms at whose null cells the array D equals the null value D
    itself records."""

    def __init__(self, C):
        self.C = C
        self.ip = C.ip
        self.memo = {}
        self.guess = 0

    def burn(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = TOP
            r = self.memo[t] = self._burn(t)
        return r

    def nodata(self, t, d=0):
        """Term of the null value an array records, if it can be read off."""
        while d < 60:
            d += 1
            op, a = t.op, t.args
            if op == "call" and a[0].op == "attr":
                m = a[0].args[1]
                if m in ("write_nodata", "set_nodata") and a[1]:
                    return a[1][0]
                if m not in NSET_KEEP and m not in KEEP_METHODS:
                    return None
                t = a[0].args[0]
            elif op == "attr" and a[1] in ("rio", "odc"):
                t = a[0]
            elif op == "attr" and a[1] == "raster":
                x = self.C.ds_raster(a[0]) if hasattr(self.C, "ds_raster") \
                    else None
                if x is None:
                    return None
                t = x
            elif op in ("store", "snap"):
                t = a[0]
            else:
                return None
        return None

    def recorded(self, t):
        """The engine's term for the null value t records."""
        ip = self.ip
        b = t.args[0] if t.op == "attr" and t.args[1] in ("rio", "odc") else t
        return ip.getattr(ip.getattr(b, "rio", ip.base), "nodata", ip.base)

    def stored(self, v, base):
        """burn() of `base` after `base.data = v`."""
        C = self.C
        if v.op == "phi":
            return inter(union(self.stored(v.args[1], base),
                               C.vac_(v.args[0], True)),
                         union(self.stored(v.args[2], base),
                               C.vac_(v.args[0], False)))
        if v.op == "attr" and v.args[1] == "data" and C.same(
                v.args[0], base):
            return self.burn(base)
        nvs = [x for x in (self.nodata(base), self.recorded(base))
               if x is not None]
        if v.op == "call" and v.args[0].op == "ext" and \
                v.args[0].args[0] in WHERE_FUNCS and len(v.args[1]) == 3:
            c, x, y = v.args[1]
            if x.op == "phi" and "dtype" in show(x.args[0], 4):
                # boolean rasters keep a boolean null value
                x = x.args[1 if any(self.alike(x.args[1], n)
                                    for n in nvs) else 2]
            if self.recorded_arm(x, nvs):
                return union(C.cov(c), self.stored(y, base))
        s = C.valcov(v, OWN)
        for nv in nvs:
            s = union(s, C.valcov(v, nv))
        return s

    def alike(self, x, y):
        """The same null value."""
        if self.C.same(x, y):
            return True
        p, q = (self.C.nodata_of(strip_cast(z)) for z in (x, y))
        return bool(p) and p == q

    def recorded_arm(self, x, nvs):
        """x is one of the null values nvs, or chosen between them by a test
        for a missing null value (whose outcome also chose the array)."""
        if any(self.alike(x, n) for n in nvs):
            return True
        return x.op == "phi" and (
            self.recorded_arm(x.args[1], nvs) or
            self.recorded_arm(x.args[2], nvs)) and \
            "nodata is None" in show(x.args[0], 6)

    def _burn(self, t):
        C = self.C
        op, a = t.op, t.args
        if op == "phi":
            return inter(union(self.burn(a[1]), C.vac_(a[0], True)),
                         union(self.burn(a[2]), C.vac_(a[0], False)))
        if op in ("const", "ext"):
            return TOP
        if op == "attr":
            if a[1] in ("rio", "odc"):
                return self.burn(a[0])
            if a[1] in ("raster", "_ds"):
                o = C.base_owner(t if a[1] == "_ds" else a[0])
                if o is not None:
                    return frozenset([o])
                return self.burn(a[0])
        if op == "sub":
            if is_const(a[1]) and cval(a[1]) == "raster":
                o = C.base_owner(a[0])
                if o is not None:
                    return frozenset([o])
            return self.burn(a[0])
        if op == "snap":
            for p, v in reversed(a[1]):
                if p in (("data",), ("raster", "data")):
                    return self.stored(v, a[0])
                if p == ("raster",):
                    return self.burn(v)
            return self.burn(a[0])
        if op == "store":
            if is_const(a[1]) and cval(a[1]) == "raster":
                return self.burn(a[2])
            if is_const(a[1]) and isinstance(cval(a[1]), str):
                return self.burn(a[0])
        if op == "mu":
            out = TOP
            for d in (self.ip.mu_init, self.ip.mu_back):
                if t in d:
                    out = inter(out, self.burn(d[t]))
            return out
        if op == "elem":
            return self.burn(a[0])
        if op == "listval":
            out = TOP
            for x in tuple(a[1]) + tuple(a[2]):
                out = inter(out, self.burn(x))
            return out
        if op == "call":
            f, args, kw = a[0], a[1], dict(a[2])
            if f.op == "ext":
                n = f.args[0]
                if n == "xarray.Dataset" and args and \
                        args[0].op == "dictval":
                    for k, v in args[0].args[0]:
                        if isinstance(k, V) and is_const(k) and \
                                cval(k) == "raster":
                            return self.burn(v)
                if n == "xarray.concat" and args:
                    return self.burn(args[0])
            if f.op == "attr":
                b, m = f.args
                if m in ("write_nodata", "set_nodata") and args:
                    nv = args[0]
                    if nv is NONE:
                        return TOP
                    s = C.valcov(b, nv)
                    if C.same(nv, self.recorded(b)):
                        s = union(s, self.burn(b))
                    return s
                if m in KEEP_METHODS or m in NSET_KEEP:
                    return self.burn(b)
        self.stuck = t
        return C.valcov(t, OWN)
