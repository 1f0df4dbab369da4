"""Which input rasters' georeference a result carries.

Geo(C, what).has(t), what in {"crs", "x", "y"}: the rasters a such that the
xarray object t carries a's CRS, or coordinates along that axis taken from a
(possibly a part of them), on every path, given that a has a CRS.
"""
from .cover import _ALL, none_test
from .values import NONE, V, cval, is_const, is_ext, mk

XR_NEW = {"xarray.zeros_like", "xarray.ones_like", "xarray.full_like",
          "xarray.apply_ufunc", "xarray.where", "xarray.concat",
          "xarray.merge", "xarray.broadcast"}
# numpy/dask functions that keep coordinate values
SAME = {"numpy.asarray", "numpy.array", "dask.array.from_array",
        "numpy.ravel", "numpy.ascontiguousarray", "numpy.atleast_1d",
        "dask.array.asarray", "numpy.squeeze", "numpy.copy"}
SAME_M = {"to_numpy", "copy", "ravel", "compute", "reshape", "astype",
          "rechunk", "flatten", "item", "squeeze", "tolist", "isel", "sel"}
# accessor methods that return an object on another grid
REGRID = {"reproject", "reproject_match", "interp", "interp_like", "pad_box",
          "reindex"}


# functions whose results carry neither CRS nor coordinates
NOTHING = ("dask.", "dask_image.", "math.", "odc.geo.xr.spatial_dims", "len",
           "range")


def const_str(x):
    return cval(x) if isinstance(x, V) and is_const(x) and \
        isinstance(cval(x), str) else x if isinstance(x, str) else None


class Geo:
    def __init__(self, C, what):
        self.C = C
        self.ip = C.ip
        self.what = what
        self.memo = {}
        self.vmemo = {}
        self.guess = None

    def unknown(self, t):
        if self.ip.kind(t) in (None, "DataArray", "Dataset", "rio"):
            self.guess = t
        return frozenset(self.C.deps(t))

    # -- conditions ---------------------------------------------------------
    def vac(self, c, pol):
        """Rasters without a CRS when c evaluates to pol (_ALL: impossible)."""
        C = self.C
        op, a = c.op, c.args
        if c in C.assume:
            return _ALL if bool(C.assume[c]) != pol else frozenset()
        if op == "not":
            return self.vac(a[0], not pol)
        if op in ("and", "or"):
            out = None
            for x in a:
                s = self.vac(x, pol)
                if out is None:
                    out = s
                else:
                    out = out | s if (op == "and") == pol else out & s
            return out or frozenset()
        if op == "phi":
            x, y, z = a
            return (self.vac(x, True) | self.vac(y, pol)) & \
                (self.vac(x, False) | self.vac(z, pol))
        if is_const(c):
            return _ALL if bool(cval(c)) != pol else frozenset()
        if op == "cmp" and a[0] in ("is", "==") and a[2] is NONE and \
                self.what == "crs":
            if pol:
                return self.val_none(a[1])
            if a[1] is NONE:
                return _ALL
        if op == "call" and is_ext(a[0], "bool") and a[1]:
            return self.vac(a[1][0], pol)
        if op == "attr" and a[1] == "crs" and not pol and \
                self.what == "crs":
            return self.val(c)
        return frozenset()

    def val_none(self, v):
        """Rasters without a CRS if the CRS value v is None."""
        if v.op == "phi":
            c, x, y = v.args
            return (self.vac(c, True) | self.val_none(x)) & \
                (self.vac(c, False) | self.val_none(y))
        if v is NONE:
            return frozenset()
        if is_const(v):
            return _ALL
        r = self.val(v)
        return r

    # -- values (a CRS, coordinate values) ----------------------------------
    def val(self, v):
        r = self.vmemo.get(v)
        if r is None:
            self.vmemo[v] = frozenset()
            r = self.vmemo[v] = self._val(v)
        return r

    def _val(self, v):
        op, a = v.op, v.args
        w = self.what
        if op == "phi":
            return (self.vac(a[0], True) | self.val(a[1])) & \
                (self.vac(a[0], False) | self.val(a[2]))
        if op in ("const", "ext"):
            return frozenset()
        if op == "attr":
            if a[1] == w:
                return self.has(a[0])
            if a[1] in ("nodata", "dtype", "shape", "ndim", "dims", "name",
                        "encoding", "size", "chunks"):
                return frozenset()
            if w == "crs" and a[1] in ("crs",):
                return self.has(a[0])
            if w != "crs" and a[1] in ("x", "y", "band"):
                return frozenset()        # the other axis
            if a[1] in ("data", "values", "geobox", "coordinates"):
                return self.val(a[0])
            if a[1] in ("affine", "resolution") and w != "crs":
                return self.has(a[0])
            return self.unknown(v)
        if op == "sub":
            k = const_str(a[1])
            if k is not None and w != "crs":
                return self.has(a[0]) if k == w else frozenset()
            return self.val(a[0])
        if op == "call":
            f, args = a[0], a[1]
            if f.op == "attr" and f.args[1] in SAME_M:
                return self.val(f.args[0])
            if f.op == "ext" and f.args[0] in SAME and args:
                return self.val(args[0])
            if f.op == "ext" and f.args[0].startswith(NOTHING):
                return frozenset()
            if f.op == "ext" and f.args[0].endswith("GeoBox"):
                kw = dict(v.args[2])
                i, k = (2, "crs") if w == "crs" else (1, "affine")
                x = args[i] if len(args) > i else kw.get(k)
                return frozenset() if x is None else self.val(x)
            if f.op == "attr" and f.args[1] == "transform" and w != "crs":
                return self.has(f.args[0])
            if f.op == "attr" and f.args[1] in ("values", "items", "keys"):
                return self.val(f.args[0])
            return self.unknown(v)
        if op == "or":
            out = frozenset()
            for x in a:
                out = out | self.val(x)
            return out
        if op == "elem":
            return self.val(a[0])
        if op in ("listval", "dictval", "tuple"):
            return self.unknown(v)
        return self.unknown(v)

    # -- xarray objects -------------------------------------------------------
    def has(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = self._has(t)
        return r

    def _has(self, t):
        C = self.C
        op, a = t.op, t.args
        w = self.what
        if op == "phi":
            return (self.vac(a[0], True) | self.has(a[1])) & \
                (self.vac(a[0], False) | self.has(a[2]))
        if op in ("param", "elem", "loop_iter", "dget", "valof") and \
                self.ip.kind(t) == "Raster":
            return frozenset([t])
        if op in ("const", "ext"):
            return frozenset()
        if op == "attr":
            if a[1] == "_ds":
                o = C.owner(t)
                if o is not None:
                    return frozenset([o])
            if a[1] in ("rio", "odc", "raster", "mask", "xdata", "xmask",
                        "coords", "T", "x", "y", "band", "bandwise"):
                return self.has(a[0])
            if a[1] in ("nodata", "dtype", "shape", "attrs", "dims"):
                return frozenset()
            return self.unknown(t)
        if op == "sub":
            k = const_str(a[1])
            if k in ("raster", "mask") or k is None:
                return self.has(a[0])
            return self.has(a[0])
        if op == "store":
            k = const_str(a[1])
            if k == w and w != "crs":
                return self.val(a[2])
            s = self.has(a[0])
            if k in ("raster", "mask"):
                s = s | self.has(a[2])
            return s
        if op == "snap":
            s = self.has(a[0])
            for p, v in a[1]:
                if p in ((w,), ("coords", w)):
                    s = self.val(v)
                elif p in (("raster",), ("mask",)):
                    s = s | self.has(v)
            return s
        if op == "bin":
            return self.has(a[1]) | self.has(a[2])
        if op == "cmp":
            return self.has(a[1]) | self.has(a[2])
        if op in ("un",):
            return self.has(a[1])
        if op in ("not", "elem", "opt"):
            return self.has(a[-1])
        if op == "mu":
            out = None
            for d in (self.ip.mu_init, self.ip.mu_back):
                if t in d:
                    s = self.has(d[t]) if d is self.ip.mu_init else \
                        self.has(d[t]) | self.has(self.ip.mu_init[t])
                    out = s if out is None else out & s
            return out if out is not None else self.unknown(t)
        if op == "listval":
            out = frozenset()
            for x in tuple(a[1]) + tuple(a[2]):
                out = out | self.has(x)
            return out
        if op == "tuple":
            out = frozenset()
            for x in a:
                out = out | self.has(x)
            return out
        if op == "call":
            return self._call(t, a[0], a[1], dict(a[2]))
        if op in ("param", "obj", "dictval", "func", "cls", "mod"):
            return frozenset()
        return self.unknown(t)

    def _call(self, t, f, args, kw):
        w = self.what
        if f.op == "attr":
            b, m = f.args
            if m == "write_crs":
                if w != "crs":
                    return self.has(b)
                v = args[0] if args else kw.get("input_crs")
                return self.val(v) if v is not None else self.has(b)
            if m in REGRID:
                return self.unknown(t)
            if m == "assign_coords":
                c = dict(kw)
                if args and args[0].op == "dictval":
                    for k, v in args[0].args[0]:
                        if const_str(k) is not None:
                            c[const_str(k)] = v
                if w in c and w != "crs":
                    return self.val(c[w])
                return self.has(b)
            if m in ("drop_vars", "drop", "reset_coords") and w == "crs" \
                    and args and "spatial_ref" in str(
                        const_str(args[0])):
                return frozenset()
            s = self.has(b)
            for x in args:
                if x.op not in ("const", "func", "ext"):
                    k = self.ip.kind(x)
                    if k in ("DataArray", "Dataset"):
                        s = s | self.has(x)
            return s
        if f.op == "ext":
            n = f.args[0]
            if n == "xarray.DataArray":
                c = args[1] if len(args) > 1 else kw.get("coords")
                d = args[2] if len(args) > 2 else kw.get("dims")
                if c is None or c is NONE:
                    return self.has(args[0]) if args else frozenset()
                return self.coords(c, d)
            if n == "xarray.Dataset":
                out = frozenset()
                if args and args[0].op == "dictval":
                    for k, v in args[0].args[0]:
                        out = out | self.has(v)
                c = args[1] if len(args) > 1 else kw.get("coords")
                if c is not None:
                    out = out | self.coords(c, None)
                return out
            if n in XR_NEW:
                out = frozenset()
                for x in tuple(args) + tuple(kw.values()):
                    if isinstance(x, V) and x.op not in ("func", "const"):
                        out = out | self.has(x)
                return out
            if n.startswith(NOTHING):
                return frozenset()      # plain values
            if n.startswith("numpy."):
                out = frozenset()       # ufuncs keep xarray objects
                for x in args:
                    if self.ip.kind(x) in ("DataArray", "Dataset"):
                        out = out | self.has(x)
                return out
        return self.unknown(t)

    def coords(self, c, dims):
        w = self.what
        if c.op == "phi":
            return (self.vac(c.args[0], True) | self.coords(c.args[1], dims)
                    ) & (self.vac(c.args[0], False) |
                         self.coords(c.args[2], dims))
        if c.op == "dictval":
            if w == "crs":
                return frozenset()
            for k, v in c.args[0]:
                if const_str(k) == w:
                    return self.val(v)
            return frozenset() if not c.args[1] else self.unknown(c)
        if c.op in ("tuple", "listval"):
            if w == "crs":
                return frozenset()
            names = None
            if dims is not None and dims.op in ("tuple", "listval"):
                names = dims.args if dims.op == "tuple" else dims.args[1]
            items = c.args if c.op == "tuple" else c.args[1]
            if names is None or len(names) != len(items):
                return self.unknown(c)
            for k, v in zip(names, items):
                if const_str(k) == w:
                    return self.val(v)
            return frozenset()
        return self.has(c)
