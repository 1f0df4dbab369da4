"""Storage aliasing of value terms: which parameters own the storage that a
term denotes."""
from .values import V, is_const, cval, is_ext

# library functions that may return (a view of) their first argument
SHARE_FUNCS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d",
    "numpy.ravel", "numpy.squeeze", "numpy.reshape", "numpy.transpose",
    "numpy.broadcast_to", "numpy.expand_dims", "numpy.swapaxes",
    "numpy.moveaxis", "numpy.flip", "numpy.flipud", "numpy.fliplr",
    "numpy.rot90", "numpy.require", "numpy.real", "numpy.imag",
    "dask.array.asarray", "dask.array.asanyarray",
    "operator.itemgetter", "numpy.diagonal", "numpy.array_split",
    "numpy.split", "numpy.nditer", "numpy.broadcast_arrays",
    "numpy.lib.stride_tricks.as_strided",
    "numpy.lib.stride_tricks.sliding_window_view",
}
SHARE_METHODS = {
    "ravel", "reshape", "view", "squeeze", "transpose", "swapaxes",
    "rename", "isel", "sel", "assign_coords", "expand_dims", "drop_vars",
    "set_index", "reset_coords", "to_numpy", "to_dataset", "to_array",
    "write_crs", "write_nodata", "write_transform", "set_spatial_dims",
    "set_nodata", "set_crs", "__array__", "diagonal", "stack", "unstack",
    "assign_attrs", "swap_dims", "drop", "flatten_", "get_index",
    "rename_vars", "rename_dims", "pipe",
}
# methods that hand out an element/handle of the receiver itself
IDENT_METHODS = {"get", "setdefault", "pop", "values", "items", "__getitem__"}
# attributes that are immutable or built anew on access
FRESH_ATTRS = {
    "dtype", "shape", "ndim", "size", "crs", "dims", "chunks", "columns",
    "name", "nbytes", "itemsize", "npartitions", "affine", "geobox",
}


def roots(ip, v, share, memo=None):
    """Set of root terms (params, ext globals, captured objects) whose
    storage v denotes.  share=False: only object identity;
    share=True: also buffers handed on by views and shallow copies."""
    memo = {} if memo is None else memo
    r = memo.get(v)
    if r is not None:
        return r
    memo[v] = frozenset()
    memo[v] = r = frozenset(_roots(ip, v, share, memo))
    return r


def _roots(ip, v, share, memo):
    op, a = v.op, v.args

    def rec(x):
        return roots(ip, x, share, memo)

    if op == "param":
        return {v}
    if op == "attr":
        if a[1] in FRESH_ATTRS:
            return set()
        return rec(a[0])
    if op in ("sub", "snap", "store", "elem", "opt", "valof", "star",
              "starargs", "dget"):
        x = a[1] if op == "opt" else a[0]
        if op == "sub" and _fancy(ip, a[1]):
            return set()
        out = set(rec(x))
        if op == "dget" and len(a) > 2:
            out |= rec(a[2])
        return out
    if op == "phi":
        return rec(a[1]) | rec(a[2])
    if op == "mu":
        out = set()
        for d in (ip.mu_init, ip.mu_back):
            if v in d:
                out |= rec(d[v])
        return out
    if op == "call":
        f, args = a[0], a[1]
        kw = dict(a[2])
        if share and f.op == "ext" and f.args[0] in SHARE_FUNCS and args:
            return rec(args[0])
        if f.op == "ext" and f.args[0] in ("getattr", "iter", "next",
                                           "reversed") and args:
            return rec(args[0])
        if share and f.op == "ext" and f.args[0] == "numpy.array" and \
                "copy" in kw and is_const(kw["copy"]) and \
                not cval(kw["copy"]) and args:
            return rec(args[0])
        if f.op == "attr":
            b, m = f.args
            k = ip.kind(b)
            if m in IDENT_METHODS and k not in ("DataArray", "dask", "str"):
                return rec(b)
            if m in ("ravel", "reshape") and _strided(b):
                return set()
            if share and m in SHARE_METHODS and k not in (
                    "GeoDataFrame", "GeoSeries", "daskdf", "daskgs", "str"):
                if b.op == "attr" and b.args[1] in ("rio", "odc", "loc",
                                                    "iloc"):
                    b = b.args[0]
                return rec(b)
            if m in ("copy", "astype") and share:
                d = kw.get("deep", kw.get("copy"))
                if d is not None and is_const(d) and not cval(d):
                    return rec(b)
            if m == "copy" and not share:
                return set()
        return set()
    if op == "un" or op == "bin":
        return set()
    return set()


def _strided(b):
    """x[:, i, j]: not contiguous, so ravel() has to copy."""
    if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in (
            "numpy.atleast_1d", "numpy.asarray") and b.args[1]:
        return _strided(b.args[1][0])
    if b.op == "phi":
        return _strided(b.args[1]) and _strided(b.args[2])
    if b.op != "sub" or b.args[1].op != "tuple":
        return False
    seen = False
    for x in b.args[1].args:
        if x.op == "slice":
            seen = True
        elif seen:
            return True
    return False


def _fancy(ip, i):
    """Index that selects by mask or list: the selection is a copy."""
    if i.op in ("cmp", "not", "and", "or", "exists", "listval"):
        return True
    if i.op == "obj" and i.pay.kind == "list":
        return True
    if i.op == "un" and i.args[0] == "~":
        return True
    if i.op == "bin" and i.args[0] in ("&", "|", "^"):
        return True
    if i.op == "call" and i.args[0].op == "ext" and i.args[0].args[0] in (
            "numpy.isnan", "numpy.isfinite", "numpy.isin", "numpy.argsort",
            "numpy.logical_or", "numpy.logical_and", "numpy.logical_not",
            "numpy.where", "numpy.nonzero", "numpy.flatnonzero"):
        return True
    if i.op == "call" and i.args[0].op == "attr" and i.args[0].args[1] in (
            "isna", "isnull", "notna", "notnull", "isin", "argsort"):
        return True
    if i.op == "phi":
        return _fancy(ip, i.args[1]) and _fancy(ip, i.args[2])
    return False


IMMUTABLE_KINDS = {"str", "int", "float", "bool", "scalar", "tuple", "dask",
                   "NoneType", "dtype", "func", "range", "CRS", "Affine"}


def mutated_roots(ip, ev, st_kind=None):
    """Roots an effect event writes into."""
    t = ev.target
    if not isinstance(t, V):
        return frozenset()
    k = ip.kind(t)
    if ev.kind == "setattr":
        if t.op == "cls":
            return frozenset()
        return roots(ip, t, False)
    if ev.kind in ("mutcall",):
        if k in ("DataArray", "dask", "str"):
            return frozenset()
        return roots(ip, t, ev.data[0] in (
            "fill", "sort", "partition", "put", "itemset", "out=",
            "resize", "setflags"))
    if ev.kind == "delitem":
        return roots(ip, t, False)
    if ev.kind == "setitem":
        i = ev.data[0]
        label = is_const(i) and isinstance(cval(i), str)
        return roots(ip, t, not label)
    if ev.kind == "aug":
        if k in IMMUTABLE_KINDS:
            return frozenset()
        return roots(ip, t, True)
    return frozenset()
