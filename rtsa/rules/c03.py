"""C03: building a raster result does not compute pixels.

Dependence analysis.  From every public entry point that is not an explicit
"give me the values / write the file" operation, no construct that forces a
lazy pixel array (compute/load/persist/values/..., conversion to a NumPy array
or Python scalar, truth value) may be reached with a value that depends on
raster pixels.  Coordinates, shapes, dtypes and CRS are eager and do not count.
"""
from ..analysis import Analysis, callee_name, stack_str, where
from ..values import cval, is_const, is_ext, show, children

# operations whose documented purpose is to compute now
EAGER = {
    "raster.Raster.load", "raster.Raster.eval", "raster.Raster.to_numpy",
    "raster.Raster.values", "raster.Raster.save", "raster.Raster.save_chunks",
    "raster.Raster.plot", "raster.Raster.explore", "raster.Raster.__array__",
    "io.write_raster", "io.chunks_to_file", "zonal.extract_points_eager",
    "batch.parse_batch_script", "batch.BatchScriptParser.parse",
    "creation.random_raster_", "distance.cost_distance.cda_allocation",
    "distance.cost_distance.cda_cost_distance",
    "distance.cost_distance.cda_traceback",
    "distance.cost_distance.cost_distance_analysis",
    "distance.cost_distance.cost_distance_analysis_numpy",
}
METHODS = {"compute", "load", "persist", "to_numpy", "item", "tolist",
           "to_dataframe", "to_pandas", "to_series", "to_dict", "equals",
           "identical", "to_netcdf", "to_zarr", "compute_chunk_sizes",
           "plot", "to_raster", "__array__", "__bool__", "__float__",
           "__int__", "tobytes", "to_hdf5", "to_svg", "interpolate_na"}
ATTRS = {"values"}
CONVERT = {"numpy.asarray", "numpy.array", "numpy.asanyarray",
           "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.copy_",
           "float", "int", "complex", "bool", "list", "tuple", "set",
           "sorted", "numpy.save", "numpy.asarray_chkfinite", "numpy.require",
           "numpy.float64", "numpy.float32", "numpy.int64", "math.isnan",
           "numpy.ndarray.__array__", "any", "all", "sum", "min", "max"}
EXECUTE = {"dask.compute", "dask.persist", "dask.base.compute",
           "dask.array.compute", "dask.array.store", "dask.array.to_npy_stack"}
META = {"dtype", "shape", "crs", "chunks", "ndim", "dims", "size", "attrs",
        "rio", "odc", "name", "coords", "sizes", "nbytes", "numblocks",
        "chunksize", "npartitions", "resolution", "affine", "geobox", "bounds",
        "x", "y", "band", "encoding", "nbands", "npartitions", "_meta",
        "xdims", "itemsize", "columns", "null_value", "_masked", "indexes", "divisions"}
LAZY = ("dask", "DataArray", "Dataset", "Raster")


class Pixels:
    """Does a term depend on lazily stored pixels?"""

    def __init__(self, ip):
        self.ip = ip
        self.memo = {}

    def dep(self, v):
        stack = [v]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x in memo and memo[x] is not None:
                stack.pop()
                continue
            kids = self.kids(x)
            if isinstance(kids, bool):
                memo[x] = kids
                stack.pop()
                continue
            if x not in memo:
                memo[x] = None
                todo = [k for k in kids if k not in memo]
                if todo:
                    stack.extend(todo)
                    continue
            memo[x] = any(memo.get(k) for k in kids)
            stack.pop()
        return memo[v]

    def kids(self, v):
        ip = self.ip
        k = ip.kind(v)
        if k in LAZY and not ip.is_coord(v):
            if v.op == "call" and is_ext(v.args[0]) and v.args[0].args[0] in (
                    "dask.array.arange", "dask.array.zeros",
                    "dask.array.ones", "dask.array.full"):
                return False
            return True
        if k in ("int", "str", "dtype", "NoneType", "Affine", "CRS"):
            return False
        if k in LAZY:
            return False
        op, a = v.op, v.args
        if op in ("const", "param", "ext", "func", "cls", "mod", "isinst",
                  "hasattr", "obj"):
            return False
        if op == "attr":
            if a[1] in META:
                return False
            return [a[0]]
        if op == "phi":
            return [a[1], a[2]]
        if op == "mu":
            return [d[v] for d in (ip.mu_init, ip.mu_back) if v in d]
        if op in ("cmp",) and a[0] in ("is", "in"):
            return False
        if op == "call":
            f = a[0]
            if f.op == "attr" and f.args[1] in (
                    "to_crs", "transform", "get_index"):
                return [f.args[0]] if f.args[1] == "to_crs" else False
            if is_ext(f) and f.args[0] in (
                    "len", "numpy.ndim", "numpy.shape", "type", "isinstance",
                    "numpy.can_cast", "numpy.promote_types",
                    "numpy.result_type", "range", "id", "hash", "repr",
                    "str"):
                return False
            if is_ext(f) and f.args[0] in EXECUTE:
                return list(a[1])
        return children(v)


def run(rep, root, thorough):
    A = Analysis(root)
    ip = A.ip
    px = Pixels(ip)
    n_lazy = n_cand = 0
    for r in A.runs:
        e = r.entry
        if e.qual in EAGER:
            continue
        n_lazy += 1
        ok = True
        # objects known only as "somewhere between parser and API" add noise
        for ev in r.events:
            hit = None
            if ev.kind == "force":
                n_cand += 1
                if px.dep(ev.target):
                    hit = (ev.target, "truth value")
            elif ev.kind == "getattr" and ev.data and ev.data[0] in ATTRS:
                if ip.kind(ev.target) in ("DataArray", "Dataset", "dask") \
                        and not ip.is_coord(ev.target) and \
                        ip.kind(ev.target) != "Dataset":
                    hit = (ev.target, "." + ev.data[0])
            elif ev.kind == "call":
                f, args, kw = ev.target.args[0], ev.target.args[1], \
                    ev.target.args[2]
                if f.op == "attr" and f.args[1] in METHODS:
                    n_cand += 1
                    if px.dep(f.args[0]):
                        hit = (f.args[0], "." + f.args[1] + "()")
                elif f.op == "ext" and f.args[0] in EXECUTE:
                    n_cand += 1
                    for x in args:
                        if px.dep(x):
                            hit = (x, f.args[0])
                elif f.op == "ext" and f.args[0] in CONVERT and args:
                    n_cand += 1
                    x = args[0]
                    k = ip.kind(x)
                    if (k in ("dask", "DataArray") and not ip.is_coord(x)):
                        hit = (x, f.args[0] + "()")
                elif f.op == "ext" and f.args[0].startswith("numpy.") and \
                        f.args[0] in ("numpy.unique", "numpy.where",
                                      "numpy.nonzero", "numpy.bincount",
                                      "numpy.histogram", "numpy.isin",
                                      "numpy.percentile", "numpy.nanmin",
                                      "numpy.nanmax", "numpy.median"):
                    for x in args:
                        if ip.kind(x) == "DataArray" and not ip.is_coord(x):
                            hit = (x, f.args[0] + "()")
            if hit is None:
                continue
            if allowed(e, ev):
                continue
            ok = False
            q, m, ln = where(ev)
            rep.add("pixels-forced", "%s|%s|%s" % (
                e.qual, q.split(".", 1)[-1], hit[1]),
                "%s of %s computes pixels while the result is being built" % (
                    hit[1], show(hit[0], 3)[:120]),
                where="%s:%d" % (m, ln), entry=e.qual, path=stack_str(ev))
        rep.ob(ok, {"entry": e.qual} if n_lazy % 25 == 0 else None)
    # files are opened chunked
    n_open = 0
    for r in A.runs:
        for ev in r.events:
            if ev.kind != "call":
                continue
            n = callee_name(ev.target.args[0])
            if n not in ("rioxarray.open_rasterio", "xarray.open_dataset",
                         "xarray.open_dataarray", "xarray.open_mfdataset",
                         "xarray.open_zarr") or "batch" in r.entry.qual:
                continue
            n_open += 1
            kw = dict(ev.target.args[2])
            c = kw.get("chunks")
            bad = c is None and "**" not in kw or c is not None and \
                is_const(c) and cval(c) is None
            if n.endswith("open_rasterio") and not bad and c is not None:
                bad = is_const(c) and cval(c) is False
            rep.ob(not bad)
            if bad:
                q, m, ln = where(ev)
                rep.add("opened-unchunked", "%s|%s" % (r.entry.qual, n),
                        "%s without chunks reads the pixels eagerly" % n,
                        where="%s:%d" % (m, ln), entry=r.entry.qual,
                        path=stack_str(ev))
    rep.floor("lazy entry points", n_lazy, 120)
    rep.floor("forcing candidates", n_cand, 20)
    rep.counts["open calls"] = n_open
    rep.explanation = (
        "Dependence analysis: no forcing construct reachable from a lazy "
        "entry point receives a value derived from raster pixels.")
    rep.assumptions = [
        "dask and xarray operations other than the listed forcing constructs "
        "stay lazy on dask-backed data",
        "the objects passed in are dask-backed, as every builder makes them",
    ]


def allowed(e, ev):
    # regions() documents that it has to look for the values itself when
    # they are not given
    if e.qual == "general.regions":
        for c, pol in ev.cond:
            if c.op == "cmp" and c.args[0] in ("is",) and pol and any(
                    x.op == "param" and x.args[1] == "unique_values"
                    for x in c.args[1:]):
                return True
    return False
