"""C07: results keep the georeference of the raster they are computed from."""
from ..analysis import Analysis
from ..cover import Cover, Kernels
from ..drivers import result_rasters, ufunc_drivers
from ..geo import Geo
from ..values import NONE, is_const, mk, show, walk

# operations whose result is on another grid, or whose result's reference is
# an argument: {what: ...} not required
ALLW = ("crs", "x", "y")
EXEMPT = {
    "_stack.stack_bands": ALLW, "_mosaic.mosaic": ALLW,   # common grid
    "raster.Raster.save": ALLW,                 # read back from the file
    "raster.Raster.reproject": ALLW, "warp.reproject": ALLW,
    "raster.Raster.set_crs": ("crs",),
    "raster.Raster.pad": ("x", "y"), "_padding.pad": ("x", "y"),
}
# the raster whose grid the result is on (default: the first one)
PRIMARY = {
    "raster.Raster.where": "condition", "general.where": "condition",
    "clipping.clip": "data_raster", "clipping.erase": "data_raster",
    "clipping.mask": "data_raster", "clipping.envelope": "data_raster",
}
GEOM = {"geopandas.GeoDataFrame", "geopandas.GeoSeries",
        "geopandas.points_from_xy", "geopandas.array.points_from_xy"}


def run(rep, root, thorough):
    A = Analysis(root)
    ip = A.ip
    jobs = []
    for r in A.runs:
        q = r.entry.qual
        ps = r.entry.params + r.entry.kwonly
        ins = [(n, p) for n, p in ps
               if (ip.kind(p) or "").find("Raster") >= 0]
        if not ins and q.startswith("blocks.") and "map_" in q:
            ins = [("rasters", None)]      # *rasters
        if not ins:
            continue
        jobs.append((q, r.value, r.state, ins,
                     (r.entry.modname, r.entry.node.lineno)))
    for name, v, st, ins in ufunc_drivers(A):
        jobs.append((name, v, st, ins, ("raster_tools.raster", 1)))
    n_res = n_open = 0
    for name, v, st, ins, (mod, line) in jobs:
        skip = EXEMPT.get(name, ())
        if skip == ALLW:
            continue
        pn, p = next(((n, x) for n, x in ins if n == PRIMARY.get(name)),
                     ins[0])
        atoms = {p, mk("elem", p)} if p is not None else set()
        several = p is None or any(ip.kind(x) != "Raster" for _, x in ins) or \
            ".map_" in name or ".geo_map_" in name
        for x, cond in result_rasters(ip, v, st):
            if x is p:
                continue
            n_res += 1
            d = ip.snapshot(ip.getattr(x, "_ds", st), st)
            for w in ALLW:
                if w in skip:
                    continue
                C = Cover(ip, callback=Kernels(A))
                C.assume = dict(cond)
                G = Geo(C, w)
                s = G.has(d)
                ok = bool(atoms & s) or s.__class__ is not frozenset
                if not ok and several and any(
                        y.op in ("elem", "param") for y in s):
                    ok = True        # one of the rasters handed over
                if not ok and G.guess is not None:
                    n_open += 1
                    continue
                rep.ob(ok, {"operation": name, "keeps": w})
                if not ok:
                    what = {"crs": "CRS", "x": "x coordinates",
                            "y": "y coordinates"}[w]
                    rep.add("georeference-lost", "%s|%s" % (name, w),
                            "the result of %s does not carry the %s of '%s' "
                            "on every path" % (name, what, pn),
                            where="%s:%d" % (mod, line), entry=name,
                            path="at " + show(d, 3)[:300])
    geometry(rep, A)
    rep.floor("results on a raster's grid", n_res, 70)
    rep.counts["derivations with a step that has no rule"] = n_open
    rep.explanation = (
        "For each result raster the CRS and the x and y coordinates are "
        "traced to the raster it is computed from, on every path; geometry "
        "tables built from raster coordinates must be given a CRS.")
    rep.assumptions = ["xarray operations keep coordinates, including the "
                       "spatial_ref coordinate that holds the CRS"]


def empty(t):
    return t.op == "tuple" and not t.args or \
        t.op == "listval" and not t.args[1] and not t.args[2] or is_const(t)


def geometry(rep, A):
    """Geometry objects built from raster coordinates are given a CRS."""
    ip = A.ip
    evs = list(ip.events)
    for f, pa, pk, how, cev, st in A.callbacks():
        try:
            evs += A.run_callback(f, pa, pk, cev, st)[1]
        except Exception:
            continue
    seen = {}
    given = set()        # geometry that gets its CRS from an enclosing object
    for ev in evs:
        if ev.kind == "setattr" and ev.data and "crs" in ev.data:
            given.add(ev.target)
        if ev.kind != "call":
            continue
        f, args, kw = ev.target.args[0], ev.target.args[1], \
            dict(ev.target.args[2])
        if f.op == "attr" and f.args[1] == "set_crs":
            given |= set(walk(f.args[0]))
        elif f.op == "ext" and f.args[0] in GEOM and \
                kw.get("crs") not in (None, NONE):
            for x in args:
                given |= set(walk(x))
    for ev in evs:
        if ev.kind != "call" or ev.target.args[0].op != "ext":
            continue
        n = ev.target.args[0].args[0]
        if n not in GEOM:
            continue
        args, kw = ev.target.args[1], dict(ev.target.args[2])
        if not args or empty(args[0]):
            continue
        c = kw.get("crs")
        if c is None and len(args) > (2 if "points" in n else 1):
            continue        # positional
        if c is None and any(
                x.op == "call" and x.args[0].op == "ext" and
                x.args[0].args[0] in GEOM and dict(x.args[2]).get("crs")
                for x in flat(args[0])):
            continue
        ok = c is not None and c is not NONE or ev.target in given
        k = (ev.loc, n)
        seen[k] = seen.get(k, True) and ok
    for (loc, n), ok in sorted(seen.items(), key=str):
        rep.ob(ok, {"geometry built at": "%s:%d" % loc})
        if not ok:
            rep.add("geometry-without-crs", "%s|%s" % (loc[0], n),
                    "geometry is built from raster coordinates without a CRS",
                    where="%s:%d" % loc)
    rep.counts["geometry construction sites"] = len(seen)


def flat(t):
    yield t
    if t.op == "dictval":
        for _, v in t.args[0]:
            yield v
