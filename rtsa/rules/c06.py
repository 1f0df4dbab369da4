"""C06: the masked cells of a result hold the null value it records."""
from ..analysis import Analysis
from ..cover import TOP, Burn, Cover, Kernels
from ..drivers import result_rasters, ufunc_drivers
from ..values import mk, show

# the derivation is out of reach of the analysis (DESIGN.md)
EXEMPT = {
    "_padding.pad", "raster.Raster.pad", "_stack.stack_bands",
    "general.regions", "surface.northing", "surface.easting",
    "general.model_predict_raster", "raster.Raster.model_predict",
    "rasterize.rasterize", "vector.Vector.to_raster",   # `like` is no data
    "raster.get_raster",       # internal: NaN copy for window functions
}


def run(rep, root, thorough):
    A = Analysis(root)
    ip = A.ip
    jobs = []
    for r in A.runs:
        q = r.entry.qual
        if q in EXEMPT or q.startswith("creation."):
            continue
        ins = [(n, p) for n, p in r.entry.params + r.entry.kwonly
               if (ip.kind(p) or "").find("Raster") >= 0]
        if ins:
            jobs.append((q, r.value, r.state, ins,
                         (r.entry.modname, r.entry.node.lineno)))
    for name, v, st, ins in ufunc_drivers(A):
        jobs.append((name, v, st, ins, ("raster_tools.raster", 1)))
    n_res = n_open = 0
    for name, v, st, ins, (mod, line) in jobs:
        for x, cond in result_rasters(ip, v, st):
            C = Cover(ip, callback=Kernels(A))
            C.assume = dict(cond)
            ds = ip.getattr(x, "_ds", st)
            m = ip.getattr(ds, "mask", st)
            d = ip.snapshot(ip.getattr(ds, "raster", st), st)
            s = C.cov(m)
            C = Cover(ip, callback=Kernels(A))
            C.assume = dict(cond)
            C.strict = True
            B = Burn(C)
            got = None
            for pn, p in ins:
                a = mk("elem", p) if (ip.kind(p) or "").startswith("list") \
                    else p
                if x is p or not (s is TOP or a in s):
                    continue
                n_res += 1
                if got is None:
                    got = B.burn(d)
                if got is TOP or a in got:
                    rep.ob(True, {"operation": name, "nulls of": pn})
                    continue
                if B.guess or C.guess:
                    n_open += 1
                    continue
                rep.ob(False, {"operation": name, "nulls of": pn})
                rep.add("masked-cells-not-filled", "%s|%s" % (name, pn),
                        "cells of the result of %s that are masked because "
                        "'%s' is null there need not hold the null value the "
                        "result records" % (name, pn),
                        where="%s:%d" % (mod, line), entry=name,
                        path="at " + show(d, 3)[:300])
    rep.floor("results with masked cells", n_res, 60)
    rep.counts["results with a step that has no rule"] = n_open
    rep.explanation = (
        "For each result raster and input, the pixel term is shown to equal "
        "the null value recorded on it wherever the input is null.")
    rep.assumptions = [
        "input rasters hold their null value in masked cells",
        "not analysed: " + ", ".join(sorted(EXEMPT)),
    ]
