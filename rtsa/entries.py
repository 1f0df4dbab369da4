"""Enumeration of the public entry points and the abstract arguments they
are analysed with.

Every public top-level function of every module of the package and every
public method/property of Raster, Vector and GeoBlockInfo is an entry point.
Each parameter becomes a symbolic value; its *kind* (Raster, Vector, int, ...)
only prunes isinstance tests that the documented type decides.
"""
import ast

from .core import PKG, Interp

# Parameter name -> kind.  A name that is not listed is left without kind,
# which keeps both outcomes of every type test.
NAME_KIND = {
    "raster": "Raster", "data_raster": "Raster", "dem": "Raster",
    "like": "Raster", "like_rast": "Raster", "true_rast": "Raster",
    "false_rast": "Raster", "condition": "Raster", "costs": "Raster",
    "elevation": "Raster", "template": "Raster", "target": "Raster",
    "rasters": "list[Raster]", "feature": "Vector", "features": "Vector",
    "points": "Vector", "xrs": "DataArray", "xdata": "DataArray",
    "xmask": "DataArray", "xlike": "DataArray",
    "raster_dataarray": "DataArray", "mask_dataarray": "DataArray",
    "path": "str", "stype": "str", "focal_type": "str", "mode": "str",
    "grids": None, "masks": "list[DataArray]",
}
# (function qualname suffix, parameter) -> kind
OVERRIDE = {
    ("cost_distance_analysis_numpy", "costs"): "numpy",
    ("cost_distance_analysis_numpy", "sources"): "numpy",
    ("cost_distance_analysis_numpy", "elevation"): "numpy",
    ("cost_distance_analysis", "sources"): "Raster",
    ("cda_cost_distance", "sources"): "Raster",
    ("cda_traceback", "sources"): "Raster",
    ("cda_allocation", "sources"): "Raster",
    ("data_to_xr_raster_ds_like", "xlike"): "DataArray",
    ("Raster.where", "condition"): "Raster",
    ("Raster.set_null", "mask_raster"): "Raster",
    ("Raster.pad", "target"): None,
    ("_padding.pad", "target"): None,
    ("get_raster", "src"): "Raster",
    ("get_raster_ds", "raster"): "Raster",
    ("get_vector", "src"): "Vector",
    ("Raster.eval", "x"): None,
}
SELF_KIND = {"Raster": "Raster", "Vector": "Vector",
             "GeoBlockInfo": "GeoBlockInfo",
             "ModelPredictAdaptor": "ModelPredictAdaptor"}
CLASSES = ("raster.Raster", "vector.Vector")


class Entry:
    __slots__ = ("qual", "fn", "params", "is_method", "node", "modname",
                 "kwonly", "vararg", "kwarg", "prop")


def _kind_for(qual, name):
    for (q, n), k in OVERRIDE.items():
        if n == name and (qual == q or qual.endswith("." + q)):
            return k
    return NAME_KIND.get(name)


def public_entries(ip: Interp, private=False):
    out = []
    for mod in sorted(ip.modules):
        tree = ip.modules[mod]
        short = mod[len(PKG) + 1:] if mod != PKG else ""
        if short in ("_compat", "_version", "exceptions"):
            continue
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                if n.name.startswith("_") and not private:
                    continue
                fn = ip.global_value(mod, n.name)
                if fn is None:
                    continue
                out.append(_entry(ip, mod, (short + "." if short else "")
                                  + n.name, fn, n, None))
            elif isinstance(n, ast.ClassDef):
                cq = (short + "." if short else "") + n.name
                if cq not in CLASSES:
                    continue
                cls = ip.global_value(mod, n.name)
                for m in n.body:
                    if not isinstance(m, ast.FunctionDef):
                        continue
                    if m.name.startswith("_") and m.name not in (
                            "__init__", "__getitem__", "__len__",
                            "__array_ufunc__", "__array__"):
                        continue
                    fn = ip.base.heap.get((cls, "attr:" + m.name))
                    if fn is None:
                        continue
                    out.append(_entry(ip, mod, cq + "." + m.name, fn, m,
                                      n.name))
    return [e for e in out if e]


def _entry(ip, mod, qual, fn, node, cls):
    e = Entry()
    e.qual, e.node, e.modname = qual, node, mod
    e.prop = False
    if fn.op == "property":
        fn = fn.args[0]
        e.prop = True
    static = fn.op in ("staticmethod", "classmethod")
    if static:
        fn = fn.args[0]
    if fn.op != "func":
        return None
    e.fn = fn
    a = fn.pay.node.args
    e.params = []
    names = [x.arg for x in a.posonlyargs + a.args]
    for i, n in enumerate(names):
        k = _kind_for(qual, n)
        if cls and i == 0 and not static:
            k = SELF_KIND.get(cls)
        e.params.append((n, ip.param(n, k, qual)))
    e.kwonly = [(x.arg, ip.param(x.arg, _kind_for(qual, x.arg), qual))
                for x in a.kwonlyargs]
    e.vararg = a.vararg.arg if a.vararg else None
    e.kwarg = a.kwarg.arg if a.kwarg else None
    e.is_method = bool(cls)
    return e


def run_entry(ip, e, st=None):
    """Interpret one entry point; returns (value, state)."""
    from .values import mk
    st = st or ip.new_state()
    args = tuple(p for _, p in e.params)
    if e.vararg:
        k = "list[Raster]" if "raster" in e.vararg else None
        args += (mk("star", ip.param("*" + e.vararg, k, e.qual)),)
    kw = {n: p for n, p in e.kwonly}
    if e.kwarg:
        kw["**"] = ip.param("**" + e.kwarg, "dict", e.qual)
    v = ip.call(e.fn, args, kw, st, None)
    return v, st
