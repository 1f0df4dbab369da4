"""C05: the value stored at null cells never takes part in a computation that
combines cells.

Backward dataflow from every construct that combines cells (windows,
reductions over bands or blocks, group-by, resampling, sampling, whole-array
kernels) to the pixel arrays of the inputs: along every path the null cells
must have been replaced (where/fill/replace/boolean selection) or the mask must
be handed to the same construct.
"""
import ast

from ..analysis import Analysis
from ..cover import TOP, Cover, Kernels, Raw, strip_cast
from ..drivers import reduction_drivers
from ..values import mk, show

MIX_METHODS = {"map_overlap", "reduce", "max", "min", "sum", "mean", "std",
               "var", "prod", "median", "quantile", "groupby", "coarsen",
               "interp", "histogram", "cumsum", "argmax", "argmin", "topk",
               "rolling", "ptp",
               # values handed out as a table
               "to_dask_dataframe"}
MIX_FUNCS = {"map_overlap", "max", "min", "sum", "nanmax", "nanmin", "mean",
             "nanmean", "nansum", "std", "var", "median", "reduction",
             "cumreduction", "unique", "percentile", "histogram", "apply_ufunc",
             "bincount", "ptp", "nanstd", "nanvar", "prod", "nanprod",
             "correlate", "convolve", "label", "minimum_filter",
             "maximum_filter", "generic_filter", "argmax", "argmin", "average",
             "quantile", "argtopk", "topk", "cumsum"}
MIX_MODULES = ("dask.array.", "numpy.", "dask_image.", "xarray.", "scipy.")
# operations that are documented to hand cells to the user as they are
EXEMPT = {"blocks.map_blocks", "blocks.map_overlap", "blocks.geo_map_blocks",
          "blocks.geo_map_overlap", "raster.Raster.map_blocks",
          "raster.Raster.map_overlap", "raster.Raster.geo_map_blocks",
          "raster.Raster.geo_map_overlap"}
# the tables are only the input of the group-by, which is checked
EXEMPT_AT = {("zonal.zonal_stats", ".to_dask_dataframe"),
             ("raster.Raster.to_points", ".to_dask_dataframe")}


def jitted(fn):
    return any("jit" in ast.unparse(d) or "vectorize" in ast.unparse(d)
               for d in getattr(fn.pay.node, "decorator_list", ()))


def sites(ip):
    for e in ip.events:
        if e.kind == "enter" and e.target.op == "func" and jitted(e.target):
            # a compiled kernel that is given whole arrays
            yield e, e.target.pay.name, None, mk(
                "call", e.target, tuple(e.data[0]), tuple(e.data[1]))
        if e.kind != "call":
            continue
        t = e.target
        f = t.args[0]
        if f.op == "attr":
            if f.args[1] in MIX_METHODS:
                yield e, "." + f.args[1], f.args[0], t
        elif f.op == "ext":
            n = f.args[0]
            if n.rsplit(".", 1)[-1] in MIX_FUNCS and \
                    n.startswith(MIX_MODULES):
                yield e, n, None, t


def run(rep, root, thorough):
    A = Analysis(root)
    ip = A.ip
    reduction_drivers(A)
    C = Cover(ip, callback=Kernels(A))
    C.nan_vac = True
    R = Raw(C)
    kinds = ("dask", "DataArray", "numpy", "coarsen", None)
    seen = {}
    for e, name, base, t in sites(ip):
        arrs = list(t.args[1]) + [v for _, v in t.args[2]]
        if base is not None:
            arrs.append(base)
        raw, dep, masks = frozenset(), frozenset(), frozenset()
        for a in arrs:
            raw |= R.raw(a)
            d = C.deps(a, data=True)
            dep |= d
        if not dep:
            continue
        for a in arrs:
            # the mask is handed over next to the data
            nd = C.nodata_of(strip_cast(a))
            if nd and nd is not TOP:
                masks |= nd         # the null value goes with the data
            if not R.raw(a):
                s = C.cov(a)
                masks |= s if isinstance(s, frozenset) else frozenset()
                masks |= {x for x in C.deps(a) if ip.kind(a) == "dask"
                          and a.op == "attr" and a.args[0].op == "attr"
                          and a.args[0].args[1] == "mask"}
        for c, pol in e.cond:
            raw = raw - C.vac(c, pol)
        kw = dict(t.args[2])
        if "ident" in kw and kw["ident"].op != "const":
            # told the common null value of the list
            raw = frozenset(x for x in raw if x.op != "elem")
        # inputs only, not results of calls the interpreter did not enter
        raw = frozenset(x for x in raw - masks if x.op in ("param", "elem"))
        if raw:
            raw2 = frozenset()
            for a in arrs:
                raw2 |= R.raw_paths(a, e.cond)
            raw = raw & raw2
        entry = e.stack[0][0].replace("raster_tools.", "") if e.stack else ""
        if entry in EXEMPT or (entry, name) in EXEMPT_AT:
            continue
        key = (e.stack[-1][0] if e.stack else e.loc[0], name, e.loc[1])
        k = seen.setdefault(key, [e, set(), set()])
        k[1].add(entry)
        if raw:
            k[2].add((entry, show(next(iter(raw)), 2)))
    for (q, name, line), (e, ents, bad) in sorted(
            seen.items(), key=lambda z: str(z[0])):
        rep.ob(not bad, {"function": q.replace("raster_tools.", ""),
                         "construct": name, "line": line,
                         "reached from": len(ents)})
        for entry, p in sorted(bad):
            rep.add("null-value-combined", "%s|%s|%s" % (q, name, entry),
                    "%s receives the pixels of '%s' with the null value still "
                    "in its null cells" % (name.lstrip("."), p),
                    where="%s:%d" % e.loc, entry=entry)
            break
    rep.floor("constructs that combine cells of an input raster", len(seen), 15)
