"""C01: no public operation modifies an object it was given.

Effect + alias analysis.  Every store, in-place operator, container mutator
and in-place library method reached from a public entry point (inlined
through the package call graph) is an obligation: the storage it writes must
not be storage owned by a caller's argument.
"""
import ast

from ..alias import mutated_roots, roots
from ..analysis import Analysis, stack_str, where
from ..values import show, is_const, cval

EFFECTS = ("setattr", "setitem", "aug", "mutcall", "delitem")
# numba work-array helpers with an in-place contract; not user API
EXCLUDE_MODULES = ("distance._heap", "stat_common")


def public(e):
    return not any(e.qual.startswith(m + ".") for m in EXCLUDE_MODULES)


def numeric_default(e, p):
    """Parameter whose default is a number/str: augmented assignment to it
    rebinds."""
    info = e.fn.pay
    a = info.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    dv = dict(zip(names[len(names) - len(info.defaults):], info.defaults))
    dv.update({x.arg: d for x, d in zip(a.kwonlyargs, info.kwdefaults)})
    d = dv.get(p.args[1])
    return d is not None and is_const(d) and cval(d) is not None


def run(rep, root, thorough):
    A = Analysis(root, only=public)
    ip = A.ip
    n_eff = 0
    seen_sites = set()
    for r in A.runs:
        e = r.entry
        own = {p for _, p in e.params} | {p for _, p in e.kwonly}
        ctor_self = e.params[0][1] if e.qual.endswith(".__init__") and \
            e.is_method else None
        bad_entry = False
        for ev in r.events:
            if ev.kind not in EFFECTS:
                continue
            n_eff += 1
            seen_sites.add((where(ev)[1], where(ev)[2]))
            for p in mutated_roots(ip, ev):
                if p.op != "param":
                    continue
                if p is ctor_self:
                    continue
                if p.args[1].startswith("**") and ev.target is p:
                    continue    # ** makes a new dict
                if ev.kind == "aug" and ip.kind(ev.target) is None and \
                        numeric_default(e, p):
                    continue
                bad_entry = True
                q, m, ln = where(ev)
                rep.add("argument-mutated", "%s|%s|%s" % (
                    e.qual, p.args[1].lstrip("*"), q.split(".", 1)[-1]),
                    "%s of %s writes into the caller's '%s'" % (
                        ev.kind, show(ev.target, 3)[:120], p.args[1]),
                    where="%s:%d" % (m, ln), entry=e.qual, path=stack_str(ev))
        rep.ob(not bad_entry, {"entry": e.qual, "params": [
            n for n, _ in e.params]} if e.qual in (
                "general.reclassify", "surface.northing",
                "raster.Raster.set_null_value") else None)
        # explicit copies share no mutable state with the original
        if e.qual.rsplit(".", 1)[-1] == "copy" and e.is_method:
            v, st = r.value, r.state
            shared = set()
            if v.op == "obj":
                for (b, n), x in st.heap.items():
                    if b is v and ip.kind(x) in (
                            "Dataset", "DataArray", "GeoDataFrame", "daskdf",
                            "list", "dict", "numpy", None) and \
                            n in ("_ds", "_geo"):
                        if roots(ip, x, False):
                            shared.add(n)
            elif roots(ip, v, False):
                shared.add("the object itself")
            rep.ob(not shared)
            if shared:
                rep.add("copy-shares-state", e.qual,
                        "copy() hands on %s of the original" % sorted(shared),
                        where=e.modname, entry=e.qual)
    rep.floor("entry points", len(A.runs), 150)
    rep.floor("effect events", n_eff, 1000)
    rep.counts["effect sites"] = len(seen_sites)
    rep.counts["functions inlined"] = len(ip.inlined)
    rep.explanation = (
        "Interprocedural effect and alias analysis of every public function "
        "and Raster/Vector method; an obligation per entry point: no write "
        "reaches storage owned by one of its arguments.")
    rep.assumptions = [
        "library calls modify their arguments only through the listed "
        "mutators, inplace=True, fill/sort/put, or item/attribute assignment",
        "library calls not listed as view-returning return new objects",
    ]
