"""C12: arguments outside an operation's domain are refused.

Each operation is analysed with an argument from outside its documented
domain as a constant, and with arguments from inside it.  The operation
refuses the argument if no path returns, or if a raise is reached that the
good arguments do not reach.
"""
from ..analysis import Analysis
from ..values import NONE, children, const, mk, show, walk
from ..influence import Influence
from .c08 import call, noreturn

NAN = float("nan")
INF = float("inf")
T = tuple


class L(tuple):
    """A list argument."""


MAPS = "raster.Raster.map_blocks raster.Raster.geo_map_blocks " \
       "blocks.map_blocks blocks.geo_map_blocks".split()
OVER = "raster.Raster.map_overlap raster.Raster.geo_map_overlap " \
       "blocks.map_overlap blocks.geo_map_overlap".split()
# (entries, parameter, good values, bad values[, other fixed arguments])
TABLE = [
    ("_mosaic.mosaic", "rasters", [], [L()]),
    ("_mosaic.mosaic", "resampling_method", ["bilinear"], ["no_such"]),
    ("_mosaic.mosaic", "null_value", [0, -9999.0], ["a"]),
    ("_mosaic.mosaic", "dst_grid", [], ["a", 3]),
    ("_stack.stack_bands", "rasters", [], [L()]),
    ("_stack.stack_bands", "join", ["inner", "outer"], ["left", "no_such"]),
    ("_stack.stack_bands", "resampling_method", ["bilinear"], ["no_such"]),
    ("_stack.stack_bands", "null_value", [0, -9999.0], ["a"]),
    ("_stack.stack_bands", "dst_grid", [], ["a", 3]),
    ("_stack.split_bands", "raster", [], ["a", 3]),
    ("_grids.combine_grids", "how", ["intersection", "union"], ["left"]),
    ("_padding.pad", "target", [(0.0, 0.0, 1.0, 1.0)],
     [(0.0, 1.0, 2.0), (0.0, "a", 1.0, 1.0)]),
    ("raster.Raster.pad", "target", [(0.0, 0.0, 1.0, 1.0)],
     [(0.0, 1.0, 2.0)]),
    ("_padding.pad", "fill_values", [0, 1.5], ["a"]),
    ("clipping.clip clipping.erase", "bounds",
     [(0, 0, 1, 1)], [(0, 0, 1), (0, 0, 1, 1, 1)]),
    ("clipping.clip_box", "bounds", [(0, 0, 1, 1)],
     [(0, 0, 1), (0, 0, 1, 1, 1)]),
    ("creation.random_raster creation.empty_like creation.full_like "
     "creation.zeros_like creation.ones_like", "bands", [1, 3],
     [0, -1]),
    ("creation.full_like creation.constant_raster", "value", [1, 2.5],
     ["a"]),
    ("creation.random_raster", "params", [(1.0, 2.0)], [()],
     {"distribution": "normal"}),
    ("creation.random_raster", "params", [(1, 0.5)], [(1,)],
     {"distribution": "binomial"}),
    ("distance.cost_distance.cost_distance_analysis_numpy", "connectivity",
     [4, 8], [0, 6, "a"]),
    ("distance.proximity.pa_proximity distance.proximity.pa_allocation "
     "distance.proximity.pa_direction distance.proximity.proximity_analysis",
     "max_distance", [0.5, INF], [0, -1.0]),
    ("focal.get_focal_window focal.focal", "width_or_radius",
     [3, (1, 3)], [0, -2, 2.5, "a", (3, 2), (2, 2), (1, 2, 3)]),
    ("focal.get_focal_window focal.focal", "height", [1, 3],
     [0, -1, 2.5, "a"], {"width_or_radius": 3}),
    ("focal.get_focal_window", "height", [None], [3],
     {"width_or_radius": (1, 3)}),
    ("general.regions", "neighbors", [4, 8], [0, 6, 4.5, "a"]),
    ("general.aggregate", "stype", ["max"], [3]),
    ("general.local_stats", "stype", ["max"], [3]),
    ("general.dilate general.erode", "size", [2, 3, (1, 3)],
     [0, 1, -1, 2.5, (1, 1), (0, 3), (3,), (2, 2, 2), (2.5, 3)]),
    ("general.remap_range", "mapping",
     [(0, 5, 1), L([(0, 5, 1), (5, 9, 2)]), (0, 5, None)],
     [(5, 5, 1), (6, 5, 1), L([(0, 5, 1), (9, 5, 2)]), (0, 5), (NAN, 5, 1),
      (0, 5, "a"), L(), 3]),
    ("general.remap_range", "inclusivity", ["left"], [3]),
    ("general.band_concat", "rasters", [], [L()]),
    ("general.where raster.Raster.where", "true_rast", [1], []),
    ("general.reclassify raster.Raster.reclassify", "remapping",
     [{1: 2}], [{}, 3]),
    ("general.model_predict_raster general.model_predict_vector "
     "raster.Raster.model_predict vector.Vector.model_predict",
     "n_outputs", [1, 4], [0, -1]),
    ("general.model_predict_vector", "out_prefix", ["a"], [3]),
    ("line_stats.length", "radius", [1, 2.5], [0, -1, "a"]),
    ("line_stats.length", "weighting_field", ["a"], [3]),
    ("raster.Raster.get_bands", "bands", [1, L([1, 2])],
     [0, L([]), 1.5, L([0, 1]), L([1, "a"]), -1]),
    ("raster.Raster.explore", "band", [1], [0, -1, 1.5]),
    ("raster.Raster.set_null_value", "value", [1, 2.5, None], ["a", L([1])]),
    ("raster.Raster.replace_null", "value", [1, 2.5], ["a", None]),
    ("raster.Raster.save", "null_value", [1, 2.5], ["a"]),
    ("raster.Raster.astype", "dtype", ["float32", "int8"], ["no_such"]),
    ("raster.Raster.to_polygons", "neighbors", [4, 8], [0, 6]),
    ("raster.Raster.to_vector", "neighbors", [4, 8], [0, 6],
     {"as_polygons": True}),
    ("rasterize.rasterize vector.Vector.to_raster", "null_value", [0, 1.5],
     ["a"], {"mask": False}),
    ("surface.tpi", "annulus_inner", [0, 1, 4], [-1, 5, 6, 1.5],
     {"annulus_outer": 5}),
    ("surface.tpi", "annulus_outer", [1, 2], [0, -1, 1.5],
     {"annulus_inner": 0}),
    ("vector.count_layer_features", "layer", [0, "a"], [-1, 1.5]),
    ("vector.open_vectors", "layers", [0, "a", L([0, 1])],
     [L([]), 1.5, L([0, "a"])]),
    ("vector.Vector.cast_field", "name", ["a"], [3]),
    ("warp.reproject", "resolution", [1, 30.0], [0, -1.0]),
    ("warp.reproject", "resample_method", ["bilinear"], ["no_such"]),
    ("warp.reproject", "resolution", [30.0], [None],
     {"crs_or_geobox": None}),
    ("zonal.zonal_stats", "stats", ["max", L(["max", "min"])],
     [L([]), L(["max", "no_such"])]),
    ("zonal.extract_points_eager", "column_name", ["a"], [""]),
    (" ".join(MAPS), "out_bands", [1, 3], [0, -1, 1.5, True]),
    (" ".join(OVER), "depth", [0, 1, (1, 2), ((0, 2), 1)],
     [-1, (1, -2), 1.5, "a", ((1, -2), 1), (1, (-1, 2))]),
    (" ".join(OVER), "boundary", ["reflect"], ["no_such"],
     {"depth": 1}),
    (" ".join(MAPS + OVER), "null_value", [0], ["no_such"]),
    ("raster.get_raster", "src", [], [3, 2.5]),
]


CDA = " ".join("distance.cost_distance." + x for x in (
    "cost_distance_analysis cda_cost_distance cda_traceback "
    "cda_allocation").split())
# (entries, parameters of one side, of the other side, raised when, text)
RELATIONS = [
    ("_padding.pad raster.Raster.pad", "target", "raster self", "!=", "crs",
     "a target on another CRS"),
    ("_padding.pad raster.Raster.pad", "fill_values", "raster self", "!=", "",
     "a number of fill values other than the number of bands"),
    ("_stack.stack_bands", "dst_grid", "dst_crs", "!=", "crs",
     "a dst_crs that is not dst_grid's"),
    (" ".join(MAPS + OVER), "dtype", "meta", "!=", "",
     "a dtype that is not meta's"),
    (" ".join(MAPS + OVER), "*rasters", "*rasters", "!=", "shape",
     "rasters of different shapes"),
    (" ".join(x for x in MAPS + OVER if "geo" in x), "*rasters", "*rasters",
     "!=", "geobox", "rasters on different grids"),
    (CDA, "costs", "elevation", "!=", "shape", "elevation of another shape"),
    (CDA, "costs", "sources", "!=", "shape", "sources of another shape"),
    ("general.model_predict_vector vector.Vector.model_predict", "fields",
     "features self", "notin", "", "fields the features do not have"),
    ("general.model_predict_vector vector.Vector.model_predict", "out_prefix",
     "features self", "in", "", "output names the features already have"),
    ("line_stats.length", "weighting_field", "features", "notin", "",
     "a field the features do not have"),
    ("rasterize.rasterize vector.Vector.to_raster", "field", "features self",
     "notin", "", "a field the features do not have"),
    ("vector.Vector.cast_field", "name", "self", "notin", "",
     "a field the features do not have"),
    ("vector.add_objectid_column vector.Vector.add_objectid_column", "name",
     "features self", "in", "", "a field name that is already used"),
    ("zonal.zonal_stats", "features", "data_raster", "!=", "crs",
     "a feature raster on another CRS"),
    ("zonal.zonal_stats", "features", "data_raster", "!=", "shape",
     "a feature raster of another shape"),
    ("zonal.zonal_stats", "features_field", "features", "notin", "",
     "a field the features do not have"),
    ("raster.data_to_xr_raster_ds raster.data_to_raster", "data", "mask",
     "!=", "shape", "a mask of another shape than the data"),
    ("raster.Raster.set_null", "mask_raster", "self", "!=", "shape",
     "a mask raster of another shape"),
    ("raster.Raster.get_bands", "bands", "self", "<", "",
     "a band number above the number of bands"),
]


def tests(c, pol):
    """Comparisons a condition is made of, with the outcome that makes it
    true."""
    if c.op == "not":
        yield from tests(c.args[0], not pol)
    elif c.op in ("and", "or", "forall", "exists"):
        for x in c.args:
            for y in x if isinstance(x, tuple) else (x,):
                if hasattr(y, "op"):
                    yield from tests(y, pol)
    else:
        yield c, pol


def relations(rep, A, ip):
    I = Influence(ip)
    runs = {r.entry.qual: r for r in A.runs}
    n = 0
    for qs, a, b, when, word, text in RELATIONS:
        for q in qs.split():
            r = runs.get(q)
            if r is None:
                continue
            ps = {p: x for x, p in r.entry.params + r.entry.kwonly}
            names = {p.lstrip("*") for p in ps.values()}
            sa, sb = [{y.lstrip("*") for y in x.split()} & names
                      for x in (a, b)]
            if a != "*rasters" and not (sa and sb):
                continue        # the parameter does not exist any more
            n += 1
            ok = False
            for x in r.events:
                if x.kind != "raise" or not x.cond:
                    continue
                for t, pol in tests(*x.cond[-1]):
                    if ok:
                        continue
                    if t.op == "cmp":
                        w = {"==": ("==", "!="), "!=": ("!=", "=="),
                             "in": ("in", "notin"), "<": ("<", "<"),
                             "<=": ("<", "<")}.get(t.args[0], ("", ""))
                        if w[not pol] != when and when in ("in", "notin") or \
                                w[not pol] == "==":
                            continue
                    ys = t.args[1:] if t.op == "cmp" else \
                        t.args[1] + tuple(y for _, y in t.args[2]) \
                        if t.op == "call" else ()
                    pp = [{(ps.get(z) or show(z)).lstrip("*")
                           for z in I.params(y, r.state)} for y in ys]
                    if a == "*rasters":
                        ok = sum("rasters" in z for z in pp) >= min(
                            2, len(pp))
                    else:
                        ok = any(u & sa and v & sb and not v & sa
                                 for i, u in enumerate(pp)
                                 for j, v in enumerate(pp) if i != j)
                    if not ok and sum(map(bool, pp)) < 2:
                        # a difference, a set operation, a helper's answer
                        u = {(ps.get(z) or show(z)).lstrip("*")
                             for z in I.params(t, r.state)}
                        ok = bool(u & sa and u & sb) and t.op in (
                            "cmp", "bin", "call") and len(set(walk(t))) < 30
                    if ok and word and not any(
                            z.op == "attr" and word in str(z.args[1]) or
                            z.op == "const" and z.args[0] == "str" and
                            word in str(z.args[1]) or
                            z.op == "attr" and z.args[1] in (
                                "geobox", "rio", "affine", "crs"
                                if word == "geobox" else "size")
                            for z in walk(t)):
                        ok = False
            rep.ob(ok, {"operation": q, "refuses": text})
            if not ok:
                rep.add("relation-unchecked", "%s|%s|%s" % (q, a, word),
                        "%s does not refuse %s" % (q, text),
                        where="%s:%d" % (r.entry.modname, r.entry.node.lineno),
                        entry=q)
    rep.counts["relations between arguments"] = n
    rep.floor("relations between arguments", n, 25)


def lift(ip, st, x):
    if x is None:
        return NONE
    if isinstance(x, L):
        return mk("listval", "list", T(lift(ip, st, y) for y in x), ())
    if isinstance(x, tuple):
        return mk("tuple", *[lift(ip, st, y) for y in x])
    if isinstance(x, dict):
        return mk("dictval", T((lift(ip, st, k), lift(ip, st, v))
                               for k, v in x.items()), ())
    return const(x)


def raises(evs):
    """{location: digests of the conditions it is reached under}, and the
    locations reached whenever no other raise is."""
    out, always = {}, set()
    rs = [x for x in evs if x.kind == "raise"]
    passed = set()
    for x in rs:
        for i, (c, p) in enumerate(x.cond):
            sub = set(walk(c)) if i + 1 < len(x.cond) else ()
            if all(y in sub for y, _ in x.cond[i + 1:]):
                passed.add((c, not p))      # else some raise is reached
    for x in rs:
        d = out.setdefault(x.loc, {})
        for c, p in x.cond[-1:]:
            d[shape(c), p] = len(set(walk(c)))
        if all(c in passed for c in x.cond):
            always.add(x.loc)
    return out, always


def shape(v):
    memo = {}

    def one(x):
        if isinstance(x, tuple):
            return tuple(one(y) for y in x)
        if not hasattr(x, "op"):
            return 0 if isinstance(x, int) and not isinstance(x, bool) and \
                abs(x) > 99 else repr(x)
        if x not in memo:
            memo[x] = 0
            if x.op == "func":
                memo[x] = hash(("func", x.pay.qual))
            else:
                memo[x] = hash((x.op, one(x.args)))
        return memo[x]
    return one(v)


def refused(good, bad):
    """True/False/None (not decided) for runs (value, events)."""
    v, evs = bad
    if noreturn(v) or any(noreturn(x) for x in children(v)):
        return True
    b, always = raises(evs)
    g = [raises(e)[0] for _, e in good]
    if any(all(loc not in x for x in g) for loc in always):
        return True
    if g and any(any(loc in x and small(x[loc], b[loc]) for x in g)
                 for loc in b):
        return None         # a check that could not be decided
    return False


def small(good, bad):
    """Do the conditions differ in one that looks like a check of an argument
    (and not of a raster computed with it)?"""
    last = {c for c in good}
    return any(n <= 15 and c not in last for c, n in bad.items())


def run(rep, root, thorough, verbose=None):
    names = {q for row in RELATIONS for q in row[0].split()}
    names |= {q for row in TABLE for q in row[0].split()}
    A = Analysis(root, only=lambda e: e.qual in names)
    ip = A.ip
    entries = {r.entry.qual: r.entry for r in A.runs}
    n = n_open = 0
    for row in TABLE:
        qs, p, good, bad = row[:4]
        fixed = row[4] if len(row) > 4 else {}
        for q in qs.split():
            e = entries.get(q)
            if e is None or p not in {x for x, _ in e.params + e.kwonly}:
                continue
            loc = "%s:%d" % (e.modname, e.node.lineno)
            free = {x for x, _ in e.params + e.kwonly}

            def go(x):
                st = ip.new_state()
                dv = {k: lift(ip, st, y) for k, y in fixed.items()}
                dv[p] = lift(ip, st, x)
                v, st, evs = call(ip, e, free - set(dv), dv)
                return None if v is None else (v, evs)
            g = []
            if not good:
                r = call(ip, e, free, {})
                g.append((r[0], r[2]))
            for x in good:
                r = go(x)
                if r is None:
                    continue
                ok = not noreturn(r[0])
                rep.ob(ok)
                if not ok:
                    rep.add("good-refused", "%s|%s|%r" % (q, p, x),
                            "%s refuses %s=%r, which is inside its domain"
                            % (q, p, show_arg(x)), where=loc, entry=q)
                g.append(r)
            for x in bad:
                r = go(x)
                if r is None:
                    continue
                how = refused(g, r)
                if verbose:
                    verbose(q, p, x, how)
                if how is None:
                    n_open += 1
                    continue
                n += 1
                rep.ob(how, {"operation": q, "refuses": "%s=%r" % (
                    p, show_arg(x))} if n % 12 == 0 else None)
                if not how:
                    rep.add("bad-accepted", "%s|%s|%r" % (q, p, x),
                            "%s accepts %s=%r%s" % (
                                q, p, show_arg(x), "".join(
                                    " with %s=%r" % kv
                                    for kv in fixed.items())),
                            where=loc, entry=q)
    relations(rep, A, ip)
    rep.counts["bad arguments decided"] = n
    rep.counts["bad arguments not decided"] = n_open
    rep.floor("bad arguments decided", n, 60)
    rep.explanation = __doc__.split("\n\n", 1)[1].strip()
    rep.assumptions = ["a check whose condition cannot be evaluated for the "
                       "constant is counted as not decided"]


def show_arg(x):
    return list(x) if isinstance(x, L) else x
