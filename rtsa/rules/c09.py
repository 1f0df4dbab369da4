"""C09: a name selects the computation it names."""
import re

from ..analysis import Analysis, Run
from ..influence import Influence
from ..values import NONE, V, children, const, cval, is_const, show, walk
from .c08 import call, noreturn

STATS = ("max min mean median std var sum prod mode entropy asm unique "
         "minband maxband").split()
# entry: (option, choices -> class); the class is what the name means
TABLE = {
    "focal.focal": ("focal_type", {s: s for s in (
        "asm entropy max mean median mode min std sum var unique").split()}),
    "general.local_stats": ("stype", {s: s for s in STATS}),
    "general.aggregate": ("stype", {s: s for s in (
        "max mean median min prod std sum var asm entropy mode "
        "unique").split()}),
    "rasterize.rasterize": ("overlap_resolve_method", {
        "min": "min", "max": "max", "first": "first", "last": "last"}),
    "_mosaic.mosaic": ("mosaic_method", {
        "min": "min", "max": "max", "sum": "sum", "first": "first",
        "last": "last"}),
    "zonal.zonal_stats": ("stats", {
        "asm": "asm", "entropy": "entropy", "mode": "mode",
        "nunique": "unique", **{s: s for s in (
            "max mean median min prod std sum var count size").split()}}),
    "creation.random_raster": ("distribution", {
        "n": "normal", "normal": "normal", "p": "poisson",
        "poisson": "poisson", "b": "binomial", "binomial": "binomial",
        "w": "weibull", "weibull": "weibull", "u": "uniform",
        "uniform": "uniform"}),
    **{"distance.proximity." + f: ("distance_metric", {
        "euclidean": "euclid", None: "euclid", "taxi": "taxi",
        "taxicab": "taxi", "manhatten": "taxi", "city_block": "taxi",
        "chebyshev": "cheb", "chessboard": "cheb",
        "haversine": "hav", "great_circle": "hav"})
       for f in ("proximity_analysis", "pa_proximity", "pa_allocation",
                 "pa_direction")},
}
# last part of a library name -> class it computes
LIB = {
    "max": "max", "nanmax": "max", "amax": "max", "fmax": "max",
    "maximum": "max", "maximum_filter": "max",
    "min": "min", "nanmin": "min", "amin": "min", "fmin": "min",
    "minimum": "min", "minimum_filter": "min",
    "mean": "mean", "nanmean": "mean", "average": "mean",
    "median": "median", "nanmedian": "median",
    "std": "std", "nanstd": "std", "var": "var", "nanvar": "var",
    "sum": "sum", "nansum": "sum", "prod": "prod", "nanprod": "prod",
    "log": "entropy", "argmax": "maxband", "nanargmax": "maxband",
    "argmin": "minband", "nanargmin": "minband",
    "normal": "normal", "poisson": "poisson", "binomial": "binomial",
    "weibull": "weibull", "random": "uniform", "uniform": "uniform",
    "nunique": "unique",
}
# classes a computation may be built from
MADE_OF = {
    "mean": {"sum"}, "std": {"var", "mean", "sum"},
    "var": {"mean", "sum", "std"}, "entropy": {"sum"}, "asm": {"sum"},
    "mode": {"maxband", "max", "sum"}, "unique": {"sum", "max", "min"},
    "minband": {"min"}, "maxband": {"max"}, "sum": {"mean"},
    "hav": set(), "median": {"mean"},
    "first": set(STATS), "last": set(STATS), "count": set(STATS),
    "size": set(STATS),
}
# entries that hand the name itself to a library
BY_NAME = {"zonal.zonal_stats"}
ALL_METHOD = {"max", "min", "mean", "median", "std", "var", "sum", "prod"}


def base(n):
    return n.rsplit(".", 1)[-1].lstrip("_")


class Kernel:
    """Class of a one-argument statistics kernel, or None."""

    def __init__(self, ip, I):
        self.ip, self.I = ip, I
        self.memo = {}

    def of(self, fn):
        k = fn.pay.node
        if k not in self.memo:
            self.memo[k] = None
            try:
                self.memo[k] = self._of(fn)
            except Exception:
                self.ip.stack = []
        return self.memo[k]

    def _of(self, fn):
        a = fn.pay.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(names) != 1 or a.vararg or a.kwonlyargs:
            return None
        ip = self.ip
        st = ip.new_state()
        p = ip.param(names[0], "numpy", "k:" + fn.pay.qual)
        v = ip.call(fn, (p,), {}, st, None, None)
        return self.spine(v, st)

    def spine(self, v, st, d=0):
        ip = self.ip
        if d > 8:
            return None
        if v.op == "phi":
            a = [x for x in v.args[1:] if not (
                is_const(x) or x.op == "ext" or x.op == "const")]
            if len(a) == 1:
                return self.spine(a[0], st, d + 1)
            cs = {self.spine(x, st, d + 1) for x in a}
            return cs.pop() if len(cs) == 1 else None
        if v.op == "call":
            f = v.args[0]
            n = f.args[0] if f.op == "ext" else f.args[1] \
                if f.op == "attr" else None
            if n in ("len",) and v.args[1]:
                x = v.args[1][0]
                if x.op == "listval" and x.args[0] == "set":
                    return "unique"
                return None
            b = base(str(n)) if n else None
            if b == "sqrt" and v.args[1]:
                s = self.spine(v.args[1][0], st, d + 1)
                return "std" if s == "var" else None
            if b in ("float", "asarray", "array", "astype") and v.args[1]:
                return self.spine(v.args[1][0], st, d + 1)
            if b in ALL_METHOD or b in LIB and b.startswith("nan"):
                return LIB[b]
            return None
        if v.op == "sub":
            i = v.args[1]
            if i.op == "call" and i.args[0].op in ("ext", "attr"):
                n = i.args[0].args[0] if i.args[0].op == "ext" else \
                    i.args[0].args[1]
                if base(str(n)) == "argmax":
                    return "mode"
                if base(str(n)) == "argmin":
                    return "least frequent"
            return None
        if v.op == "mu":
            back = ip.mu_back.get(v)
            if back is None:
                return None
            return self.loop(v, back)
        return None

    def loop(self, m, back):
        ip = self.ip
        # m -/+ p*log(p), m + p*p
        if back.op == "bin" and m in back.args:
            rest = [x for x in back.args if isinstance(x, V) and x is not m]
            if len(rest) == 1:
                r = rest[0]
                logs = [x for x in walk(r) if x.op == "call" and
                        x.args[0].op == "ext" and
                        base(x.args[0].args[0]) in ("log", "log2", "log10")]
                if logs:
                    n = {base(x.args[0].args[0]) for x in logs}
                    sign = back.args[0]
                    return "entropy" if n == {"log"} and sign == "-" else \
                        "entropy with %s%s" % (sign, "/".join(sorted(n)))
                if r.op == "bin" and r.args[0] == "*" and \
                        r.args[1] is r.args[2]:
                    return "asm" if back.args[0] == "+" else None
        # position of the extreme: another variable of the loop is compared
        seen = set()
        stack = [back]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "cmp" and x.args[0] in ("<", "<="):
                a, b = x.args[1], x.args[2]
                am, bm = a.op == "mu", b.op == "mu"
                if am != bm:
                    mv = a if am else b
                    e = b if am else a
                    mb = ip.mu_back.get(mv)
                    if mb is not None and (e in set(walk(mb))):
                        up = am        # mu < element: keeps the larger one
                        return ("maxband" if mv is not m else "max") if up \
                            else ("minband" if mv is not m else "min")
            stack.extend(children(x))
        return None


def evidence(A, I, K, e, opt, choice):
    """(result value, state, library names, package functions) of an entry
    run with one choice."""
    ip = A.ip
    free = {n for n, _ in e.params + e.kwonly if n != opt}
    v, st, evs = call(ip, e, free, {opt: NONE if choice is None
                                    else const(choice)})
    if v is None:
        return None
    if noreturn(v):
        return v, st, set(), {}, set(), ()
    r = Run()
    r.entry, r.value, r.state, r.events = e, v, st, evs
    saved = A.runs, A.module_events
    A.runs = [r]
    libs, funcs, along, more = set(), {}, set(), []

    def add(vals):
        for x in vals:
            if x.op == "call" and x.args[0].op == "ext" and any(
                    k in ("axis", "dim") for k, _ in x.args[2]):
                along.add(x.args[0].args[0])
            if x.op == "call" and x.args[0].op == "attr":
                libs.add("." + x.args[0].args[1])
            elif x.op == "ext":
                libs.add(x.args[0])
            elif x.op == "func" and x.pay.name != "<lambda>":
                funcs[x.pay.node] = x

    vals = I.params(v, st, values=True)
    add(vals)
    A.module_events = [ev for ev in saved[1] if ev.kind == "callback" and
                       ev.data[0] in vals]
    try:
        for f, pa, pk, how, cev, st2 in A.callbacks():
            try:
                v2, e2, s2, b, _ = A.run_callback(f, pa, pk, cev, st2)
            except Exception:
                ip.stack = []
                continue
            if f.pay.name != "<lambda>":
                funcs[f.pay.node] = f
            vs = [v2] + [y for x in e2 if x.kind in (
                "setitem", "aug", "mutcall") for y in (x.target, x.data)
                if isinstance(y, V)]
            add(I.params(vs, s2, values=True))
            more.extend(ip.snapshot(y, s2) for y in vs)
    finally:
        A.runs, A.module_events = saved
    return v, st, libs, funcs, along, more


def words(name):
    return {w for w in re.split(r"[^a-z]+", name.lower().replace(
        "nan", "_").replace("jit", "_")) if w}


NAME_CLASS = {**{s: s for s in STATS}, "argmin": "minband",
              "argmax": "maxband", "uniq": "unique", "count": None}


def judge(want, libs, funcs, K):
    """None if fine, else the class that is computed instead."""
    known = {}
    for f in funcs.values():
        c = K.of(f)
        if c is not None:
            known.setdefault(c, f)
    if known:
        if want in known:
            return None
        made = MADE_OF.get(want, set())
        rest = [c for c in known if c not in made]
        if rest and want in STATS:
            return rest[0]
    votes = {}
    for n in libs:
        c = LIB.get(base(n))
        if c:
            votes[c] = votes.get(c, 0) + 2
    for f in funcs.values():
        for w in words(f.pay.name):
            c = NAME_CLASS.get(w)
            if c:
                votes[c] = votes.get(c, 0) + 1
    own = votes.get(want, 0)
    for c, n in sorted(votes.items(), key=lambda x: -x[1]):
        if c != want and c not in MADE_OF.get(want, set()) and n > own:
            return c
    return None


def against(want, along):
    """Class of a reduction along an axis that `want` is not made of."""
    if want not in STATS and want not in ("first", "last"):
        return None
    for n in sorted(along):
        c = LIB.get(base(n))
        if c and c != want and c not in MADE_OF.get(want, set()):
            return c
    return None


def preferred(ip, fn):
    """"first"/"last" for f(x, fill) = where(x[i] == fill, x[j], x[i])."""
    a = fn.pay.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(names) != 2:
        return None
    st = ip.new_state()
    ps = [ip.param(n, "numpy", "p:" + fn.pay.qual) for n in names]
    try:
        v = ip.call(fn, tuple(ps), {}, st, None, None)
    except Exception:
        ip.stack = []
        return None
    out = set()
    for x in walk(v):
        if x.op != "call" or x.args[0].op != "ext" or \
                base(x.args[0].args[0]) != "where" or len(x.args[1]) != 3:
            continue
        c, a, b = x.args[1]
        if c.op != "cmp" or c.args[0] != "==":
            continue
        e = [y for y in c.args[1:] if isinstance(y, V) and y.op == "sub"]
        if len(e) != 1 or e[0] is not b or a.op != "sub" or \
                a.args[0] is not b.args[0]:
            continue
        i, j = b.args[1], a.args[1]
        if is_const(i) and is_const(j):
            i, j = cval(i), cval(j)
            if isinstance(i, int) and isinstance(j, int) and i != j and \
                    (i < 0) == (j < 0):
                out.add("first" if i < j else "last")
    return out.pop() if len(out) == 1 else None


METRIC = {      # library functions the metric's formula needs / cannot use
    "euclid": (set(), {"abs", "max", "sin", "cos", "arcsin", "radians"}),
    "taxi": (set(), {"max", "sin", "cos", "arcsin", "radians"}),
    "cheb": ({"max"}, {"sin", "cos", "arcsin", "radians"}),
    "hav": ({"sin"}, {"max"}),
}


def metric_class(ip, fn):
    """Metric a four-argument distance function computes (squared), from
    the structure of its formula; None if it has another form."""
    a = fn.pay.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(names) != 4:
        return None
    st = ip.new_state()
    ps = [ip.param(n, "float", "m:" + fn.pay.qual) for n in names]
    try:
        v = ip.call(fn, tuple(ps), {}, st, None, None)
    except Exception:
        ip.stack = []
        return None
    if v.op in ("noreturn", "unknown"):
        return None
    used = set()
    for x in walk(v):
        if x.op == "call":
            f = x.args[0]
            n = f.args[0] if f.op == "ext" else f.args[1] \
                if f.op == "attr" else ""
            used.add(base(str(n)))
    if used & {"sin", "cos", "arcsin", "arctan2", "haversine", "asin",
               "atan2", "radians", "deg2rad"}:
        return "hav"
    if used & {"max", "maximum", "fmax"}:
        return "cheb"
    if used & {"min", "minimum"}:
        return "minimum of the axis distances"
    if used & {"abs", "fabs", "absolute"}:
        # a euclidean formula never needs the absolute value, but squares
        # of it are harmless
        if v.op == "bin" and v.args[0] == "+":
            return "euclid"
        return "taxi"
    if used - {"hypot", "sqrt"}:
        return None
    if v.op == "bin" and v.args[0] == "+":
        return "euclid"
    return None


def run(rep, root, thorough):
    A = Analysis(root, only=lambda e: e.qual in TABLE or e.qual in (
        "general.remap_range", "focal.correlate", "raster.rowcol_to_xy"))
    ip = A.ip
    I = Influence(ip)
    K = Kernel(ip, I)
    n_names = 0
    entries = {r.entry.qual: r.entry for r in A.runs}
    for q, (opt, choices) in TABLE.items():
        e = entries.get(q)
        if e is None or opt not in {n for n, _ in e.params + e.kwonly}:
            continue
        loc = "%s:%d" % (e.modname, e.node.lineno)
        ev = {}
        for c in choices:
            r = evidence(A, I, K, e, opt, c)
            if r is None:
                continue
            n_names += 1
            if noreturn(r[0]):
                rep.ob(False)
                rep.add("name-rejected", "%s|%s" % (q, c),
                        "%s raises for %s=%r, a documented name" % (
                            q, opt, c), where=loc, entry=q)
                continue
            ev[c] = r
        if not ev:
            continue
        common_l = set.intersection(*[r[2] for r in ev.values()])
        common_f = set.intersection(*[set(r[3]) for r in ev.values()])
        # unknown names are rejected: the run either cannot return, or meets
        # a raise that no run with a documented name meets
        free = {n for n, _ in e.params + e.kwonly if n != opt}
        v, st, evs = call(ip, e, free, {opt: const("no_such_name")})
        if v is not None:
            ok = noreturn(v) or any(noreturn(x) for x in children(v))
            if not ok:
                met = set()
                for c in ev:
                    e3 = call(ip, e, free, {opt: NONE if c is None else
                                            const(c)})[2]
                    met |= {x.loc for x in e3 if x.kind == "raise"}
                ok = any(x.kind == "raise" and x.loc not in met
                         for x in evs)
            rep.ob(ok, {"operation": q, "unknown name": "rejected"})
            if not ok:
                rep.add("unknown-name-accepted", q,
                        "%s accepts any string as %s" % (q, opt), where=loc,
                        entry=q)
        sig = {}
        for c, want in choices.items():
            if c not in ev:
                continue
            v, st, libs, funcs, along, more = ev[c]
            libs = libs - common_l
            funcs = {k: f for k, f in funcs.items() if k not in common_f}
            if opt == "distance_metric":
                got = None
                cl = {metric_class(ip, f) for f in funcs.values()} - {None}
                if cl and want not in cl:
                    got = sorted(cl)[0]
            else:
                got = judge(want, libs, funcs, K) or against(
                    want, along - common_l)
            if want in ("first", "last"):
                cl = {preferred(ip, f) for f in funcs.values()} - {None}
                if cl and want not in cl:
                    got = "the %s value" % cl.pop()
            ok = got is None
            rep.ob(ok, {"operation": q, "name": c, "computes": want}
                   if n_names % 9 == 0 else None)
            if not ok:
                rep.add("name-selects-another", "%s|%s" % (q, c),
                        "%s(%s=%r) computes %s" % (q, opt, c, got),
                        where=loc, entry=q,
                        path="via " + ", ".join(sorted(
                            [f.pay.qual for f in funcs.values()] +
                            [x for x in libs if LIB.get(base(x))]))[:300])
            s = (frozenset(libs),
                 frozenset(K.of(f) or k for k, f in funcs.items()),
                 digest(K, None if q in BY_NAME else c,
                        [I_show(ip, v, st)] + more))
            sig.setdefault(s, []).append((c, want))
        for s, cs in sig.items():
            w = {x for _, x in cs}
            if len(w) > 1:
                rep.ob(False)
                rep.add("names-not-distinguished", "%s|%s" % (
                    q, ",".join(sorted(str(c) for c, _ in cs))),
                    "%s computes the same for %s" % (
                        q, " and ".join(sorted(str(c) for c, _ in cs))),
                    where=loc, entry=q)
    bounds(rep, A, entries)
    boundary_modes(rep, A, I, entries)
    offsets(rep, A, I, entries)
    reductions(rep, A, I)
    rep.floor("names", n_names, 80)
    rep.explanation = (
        "Each operation is analysed once per name it documents, with the "
        "name as a constant; what its result is then built from (library "
        "reductions, formulas of the package's kernels recognised from "
        "their terms, comparison directions in loops) is compared with what "
        "the name means.")
    rep.assumptions = ["library functions compute what their names say",
                       "an implementation the analysis cannot classify is "
                       "not judged"]


def digest(K, choice, vs):
    """Structure of terms without the numbering of their unknowns and
    without the name that was chosen."""
    memo = {}

    def one(x):
        if not isinstance(x, V):
            if isinstance(x, tuple):
                return tuple(one(y) for y in x)
            if isinstance(x, (int, float)):
                return 0 if abs(x) > 99 else x
            if isinstance(x, str):
                return "*" if x.startswith("block:") else x
            return type(x).__name__
        if x not in memo:
            memo[x] = 0
            if x.op == "func":
                memo[x] = hash(("func", K.of(x) or x.pay.qual))
            elif x.op == "const" and x.args[1] == choice:
                memo[x] = hash("the name")
            elif x.op in ("const", "ext"):
                memo[x] = hash((x.op, repr(x.args)))
            else:
                memo[x] = hash((x.op, one(x.args)))
        return memo[x]
    return tuple(one(v) for v in vs)


def I_show(ip, v, st):
    return ip.snapshot(ip.getattr(v, "_ds", st), st) \
        if ip.kind(v) == "Raster" else ip.snapshot(v, st)


# remap_range: is the lower / the upper bound part of the interval?
INCLUSIVE = {"left": ("<=", "<"), "right": ("<", "<="),
             "both": ("<=", "<="), "none": ("<", "<")}


def bounds(rep, A, entries):
    e = entries.get("general.remap_range")
    if e is None:
        return
    ip = A.ip
    loc = "%s:%d" % (e.modname, e.node.lineno)
    for choice, want in INCLUSIVE.items():
        free = {n for n, _ in e.params if n != "inclusivity"}
        v, st, evs = call(ip, e, free, {"inclusivity": const(choice)})
        if v is None:
            continue
        r = Run()
        r.entry, r.value, r.state, r.events = e, v, st, evs
        saved = A.runs, A.module_events
        A.runs, A.module_events = [r], []
        try:
            cbs = A.callbacks()
        finally:
            A.runs, A.module_events = saved
        lo, hi = set(), set()
        for f, pa, pk, how, cev, st2 in cbs:
            try:
                v2, e2, s2, blocks, _ = A.run_callback(f, pa, pk, cev, st2)
            except Exception:
                ip.stack = []
                continue
            cells = {b for n, b in blocks.items()}
            for x in e2:
                if x.kind != "setitem":
                    continue
                for c, pol in x.cond:
                    if c.op != "cmp" or c.args[0] not in ("<", "<=") or \
                            not pol:
                        continue
                    a, b = c.args[1], c.args[2]
                    ac = a.op == "sub" and a.args[0] in cells
                    bc = b.op == "sub" and b.args[0] in cells
                    if bc and not ac and not is_const(a):
                        lo.add(c.args[0])
                    elif ac and not bc and not is_const(b):
                        hi.add(c.args[0])
        if len(lo) != 1 or len(hi) != 1:
            continue
        got = (lo.pop(), hi.pop())
        ok = got == want
        rep.ob(ok, {"remap_range": choice, "bounds": got})
        if not ok:
            rep.add("interval-bounds", choice,
                    "remap_range(inclusivity=%r) tests min %s value %s max" %
                    (choice, got[0], got[1]), where=loc,
                    entry="general.remap_range")


MODES = {"reflect": "reflect", "nearest": "nearest", "wrap": "periodic"}


def boundary_modes(rep, A, I, entries):
    """correlate's edge modes reach dask's overlap under the right name."""
    e = entries.get("focal.correlate")
    if e is None or "mode" not in {n for n, _ in e.params}:
        return
    ip = A.ip
    for mode, want in MODES.items():
        free = {n for n, _ in e.params if n != "mode"}
        v, st, evs = call(ip, e, free, {"mode": const(mode)})
        if v is None:
            continue
        if noreturn(v):
            rep.ob(False)
            rep.add("name-rejected", "focal.correlate|" + mode,
                    "correlate raises for mode=%r" % mode,
                    where="%s:%d" % (e.modname, e.node.lineno))
            continue
        got = set()
        for ev in evs:
            if ev.kind != "call":
                continue
            f = ev.target.args[0]
            n = f.args[0] if f.op == "ext" else f.args[1] \
                if f.op == "attr" else ""
            if base(str(n)) != "map_overlap":
                continue
            b = dict(ev.target.args[2]).get("boundary")
            for x in walk(b) if b is not None else ():
                if is_const(x) and isinstance(cval(x), str):
                    got.add(cval(x))
        if not got:
            continue
        ok = got == {want}
        rep.ob(ok, {"correlate mode": mode, "dask boundary": sorted(got)})
        if not ok:
            rep.add("boundary-mode", mode,
                    "correlate(mode=%r) uses the boundary %s" % (
                        mode, sorted(got)),
                    where="%s:%d" % (e.modname, e.node.lineno),
                    entry="focal.correlate")


OFFSETS = {"center": (0.5, 0.5), "ul": (0, 0), "ur": (1, 0), "ll": (0, 1),
           "lr": (1, 1)}       # shift in (x, y) cells


def offsets(rep, A, I, entries):
    e = entries.get("raster.rowcol_to_xy")
    if e is None or "offset" not in {n for n, _ in e.params}:
        return
    ip = A.ip
    for name, want in OFFSETS.items():
        free = {n for n, _ in e.params if n != "offset"}
        v, st, evs = call(ip, e, free, {"offset": const(name)})
        if v is None or noreturn(v):
            continue
        for x in walk(v):
            if x.op == "call" and (
                    x.args[0].op == "attr" and
                    x.args[0].args[1] == "translation" or
                    x.args[0].op == "ext" and
                    x.args[0].args[0].endswith(".translation")):
                a = x.args[1]
                if len(a) == 2 and all(is_const(y) for y in a):
                    got = tuple(cval(y) for y in a)
                    ok = got == want
                    rep.ob(ok, {"offset": name, "shift": got})
                    if not ok:
                        rep.add("cell-offset", name,
                                "the '%s' corner of a cell is shifted by %s "
                                "(columns, rows)" % (name, got),
                                where="%s:%d" % (e.modname, e.node.lineno),
                                entry=e.qual)


def reductions(rep, A, I):
    """Raster.max and so on: the method built for numpy.nanX reduces by X."""
    from ..drivers import reduction_drivers
    ip = A.ip
    ev = {}
    for name, v, st, ins in reduction_drivers(A):
        libs, funcs = set(), {}
        for x in I.params(v, st, values=True):
            if x.op == "call" and x.args[0].op == "attr":
                libs.add("." + x.args[0].args[1])
            elif x.op == "ext":
                libs.add(x.args[0])
            elif x.op == "func" and x.pay.name != "<lambda>":
                funcs[x.pay.node] = x
        ev[name.rsplit(".", 1)[-1].replace("nan", "")] = libs, funcs
    if not ev:
        return
    common = set.intersection(*[x[0] for x in ev.values()])
    cf = set.intersection(*[set(x[1]) for x in ev.values()])
    for n, (libs, funcs) in ev.items():
        if n not in STATS:
            continue
        got = judge(n, libs - common, {k: f for k, f in funcs.items()
                                       if k not in cf}, Kernel(ip, I))
        rep.ob(got is None, {"reduction": n})
        if got is not None:
            rep.add("name-selects-another", "Raster.%s" % n,
                    "the method Raster.%s computes %s" % (n, got),
                    where="raster_tools.raster:1", entry="Raster." + n)
