"""C04: null cells stay null.

Must-coverage analysis (rtsa/cover.py) of the mask of every raster a public
operation returns: for every input raster the operation is documented to
propagate nulls from, "input cell is null => result cell is null" has to be
derivable on every path.  A step the analysis has no rule for is assumed to
keep the masks it is computed from; a violation is a derivation in which every
step is understood and the input's mask is lost, or one that does not use the
input's mask at all.
"""
import itertools

from ..analysis import Analysis
from ..cover import TOP, Cover, Kernels, rejected_none
from ..drivers import ufunc_drivers, result_rasters
from ..values import mk, show

ALL = "all"
# what the operation is documented to do with the nulls of its raster
# arguments; entries that return rasters and are not named here must cover
# every raster argument
EXEMPT = {
    "_mosaic.mosaic": ALL,              # fills nulls from other rasters
    "blocks.map_blocks": ALL,           # the user's function decides
    "blocks.map_overlap": ALL,
    "blocks.geo_map_blocks": ALL,
    "blocks.geo_map_overlap": ALL,
    "raster.Raster.map_blocks": ALL, "raster.Raster.map_overlap": ALL,
    "raster.Raster.geo_map_blocks": ALL,
    "raster.Raster.geo_map_overlap": ALL,
    "general.dilate": ALL, "general.erode": ALL,   # nulls grow or shrink
    "raster.Raster.to_null_mask": ALL,  # the mask becomes the data
    "raster.Raster.replace_null": ALL,
    "raster.Raster.set_null_value": ALL,   # driven with a value below
    "raster.Raster.set_null": {"mask_raster"},
    "raster.Raster.save": ALL,
    "general.where": {"true_rast", "false_rast"},  # only where selected
    "raster.Raster.where": {"self", "other"},
    "rasterize.rasterize": ALL, "vector.Vector.to_raster": ALL,  # templates
    "line_stats.length": ALL,
    "raster.data_to_raster_like": ALL, "raster.dataarray_to_raster": ALL,
    "raster.data_to_raster": ALL,
    "surface.tpi": ALL,
}
EXEMPT_PREFIX = ("creation.", "distance.proximity.")
# options under which an operation is documented to fill nulls: analysed with
# the value for which nulls have to stay
ASSUME = {"ignore_null": (False,), "new_null_value": (None, "a value"),
          "null_value": ("default",)}
CDA = {"sources", "elevation"}


def required(e):
    q = e.qual
    if any(q.startswith(p) for p in EXEMPT_PREFIX):
        return []
    ex = EXEMPT.get(q, ())
    if ex == ALL:
        return []
    if q.startswith("distance.cost_distance."):
        ex = CDA
    return [n for n, _ in e.params + e.kwonly if n not in ex]


def run(rep, root, thorough):
    A = Analysis(root)
    ip = A.ip
    jobs = []
    for r in A.runs:
        req = required(r.entry)
        ins = [(n, p) for n, p in r.entry.params + r.entry.kwonly
               if n in req and (ip.kind(p) or "").find("Raster") >= 0]
        if ins:
            opts = [(p, ASSUME[n]) for n, p in r.entry.params +
                    r.entry.kwonly if n in ASSUME]
            for vals in itertools.product(*(x for _, x in opts)):
                jobs.append((r.entry.qual, r.value, r.state, ins,
                             (r.entry.modname, r.entry.node.lineno),
                             {p: x for (p, _), x in zip(opts, vals)}))
    for name, v, st, ins in ufunc_drivers(A):
        jobs.append((name, v, st, ins, ("raster_tools.raster", 1), {}))
    not_none = rejected_none(ip.events)
    n_ops = n_guess = n_res = 0
    for name, v, st, ins, (mod, line), assume in jobs:
        rs = result_rasters(ip, v, st)
        if not rs:
            continue
        n_ops += 1
        for pn, p in ins:
            ok = True
            atoms = [p]
            if (ip.kind(p) or "").startswith("list"):
                atoms = [mk("elem", p)]
            for x, cond in rs:
                if x is p:
                    continue
                n_res += 1
                C = Cover(ip, callback=Kernels(A))
                C.assume = {**cond, **assume}
                C.not_none = not_none
                nv = C.vac_none(ip.getattr(x, "null_value", st))
                if not any(a in nv for a in atoms):
                    ok = False
                    rep.add("null-value-lost", "%s|%s" % (name, pn),
                            "the result of %s records no null value on a "
                            "path where '%s' has one, so its null cells "
                            "count as data" % (name, pn),
                            where="%s:%d" % (mod, line), entry=name)
                m = ip.getattr(ip.getattr(x, "_ds", st), "mask", st)
                s = C.cov(m)
                n_guess += C.guess
                if s is TOP or any(a in s for a in atoms):
                    continue
                ok = False
                used = any(a in C.deps(m) for a in atoms)
                rep.add("mask-lost", "%s|%s" % (name, pn),
                        "the null mask of the result of %s does not cover the "
                        "nulls of '%s' (%s)" % (
                            name, pn, "the mask is used, but a path drops "
                            "it" if used else "the mask is not used"),
                        where="%s:%d" % (mod, line), entry=name,
                        path=loss(C, m, atoms[0]))
            rep.ob(ok, {"operation": name, "covers nulls of": pn})
    rep.floor("operations returning rasters", n_ops, 45)
    rep.counts["result rasters"] = n_res
    rep.counts["results with a step assumed mask-preserving"] = n_guess
    rep.explanation = (
        "For each operation and raster argument the result's mask term is "
        "shown to be true wherever the argument's mask is true.")
    rep.assumptions = [
        "masked cells hold the null value (C07), so data == null_value finds "
        "them again",
        "steps without a rule (counted) keep the masks they are computed from",
        "loops over all cells visit every cell",
    ]


def loss(C, t, atom):
    """Text path to the construct that loses the mask."""
    out = []
    n = 0
    has = (lambda s: s is TOP or atom in s)
    while n < 60:
        n += 1
        if t.op == "phi":
            a = has(C.cov(t.args[1])) or has(C.vac_(t.args[0], True))
            b = has(C.cov(t.args[2])) or has(C.vac_(t.args[0], False))
            if a != b:
                out.append("when %s%s" % ("" if b else "not ",
                                          show(t.args[0], 3)[:160]))
            t = t.args[2] if a and not b else t.args[1]
            continue
        if t.op == "call" and t.args[0].op == "attr":
            t = t.args[0].args[0]
            continue
        if t.op == "attr" and t.args[1] in ("rio", "odc", "data"):
            t = t.args[0]
            continue
        break
    out.append("at " + show(t, 3)[:200])
    return "; ".join(out[-4:])
