"""Synthetic uses of the Raster operators, and helpers on results."""
from .values import cval, ext, mk

BINARY = ("add", "subtract", "multiply", "true_divide", "floor_divide",
          "power", "remainder", "greater", "equal", "bitwise_and",
          "logical_or", "maximum", "arctan2", "divmod", "left_shift")
UNARY = ("negative", "invert", "absolute", "sqrt", "isnan", "logical_not",
         "floor", "modf")


def ufunc_drivers(A, binary=None, unary=None):
    """[(name, value, state, [(param name, raster param)])]"""
    ip = A.ip
    fid = next(iter(ip.frames))
    out = []

    def go(name, uf, args, ins, kw=None):
        st = ip.new_state()
        try:
            v = ip.raster_ufunc(uf, args, st, fid, kw)
        except Exception as x:
            A.unanalysed.append((name, repr(x)[:200]))
            ip.stack = []
            return
        out.append((name, v, st, ins))

    for uf in binary or BINARY:
        tag = "op." + uf
        a = ip.param("a", "Raster", tag)
        b = ip.param("b", "Raster", tag)
        s = ip.param("s", "float", tag)
        d = ip.param("d", "numpy", tag)
        go("Raster %s Raster" % uf, uf, [a, b], [("a", a), ("b", b)])
        go("Raster %s scalar" % uf, uf, [a, s], [("a", a)])
        go("scalar %s Raster" % uf, uf, [s, a], [("a", a)])
        go("Raster %s array" % uf, uf, [a, d], [("a", a)])
    for uf in unary or UNARY:
        a = ip.param("a", "Raster", "op." + uf)
        go("%s Raster" % uf, uf, [a], [("a", a)])
    return out


def reduction_drivers(A):
    """Runs the reduction methods the Raster class gets at class creation
    (Raster.max and so on): the method builder is called with numpy's
    functions and the result is called with a raster."""
    ip = A.ip
    fid = next(iter(ip.frames))
    out = []
    for name in ("any", "all", "nanmax", "nanmin", "nansum", "nanmean",
                 "nanvar", "nanstd", "nanprod"):
        st = ip.new_state()
        r = ip.param("r", "Raster", "reduce." + name)
        try:
            b = ip.getattr(r, "_build_reduce_method", st)
            if b.op not in ("func", "bound"):
                continue
            m = ip.call(b, (ext("numpy." + name),), {}, st, None, fid)
            v = ip.call(m, (r,), {}, st, None, fid)
        except Exception as x:
            A.unanalysed.append(("reduction " + name, repr(x)[:200]))
            ip.stack = []
            continue
        out.append(("Raster." + name, v, st, [("r", r)]))
    return out


def result_rasters(ip, v, st):
    """[(raster, {condition: bool})] for every Raster that v may be or
    contain, with the branch conditions it is returned under."""
    out = {}

    def rec(v, d, cond):
        if d > 40:
            return
        if v.op == "phi":
            rec(v.args[1], d + 1, {**cond, v.args[0]: True})
            rec(v.args[2], d + 1, {**cond, v.args[0]: False})
        elif v.op == "tuple":
            for x in v.args:
                rec(x, d + 1, cond)
        elif v.op == "listval":
            for x in tuple(v.args[1]) + tuple(v.args[2]):
                rec(x, d + 1, cond)
        elif v.op == "opt":
            rec(v.args[1], d + 1, cond)
        elif v.op == "obj" and v.pay.kind in ("list", "set"):
            rec(ip.snapshot(v, st), d + 1, cond)
        elif ip.kind(v) == "Raster":
            out[v] = {k: p for k, p in out[v].items()
                      if cond.get(k) is p} if v in out else cond
        else:
            cls = ip.cls_of(v, st)
            fields = cls is not None and ip.hget(st, (cls, "attr:$fields"))
            if fields:
                for f in fields.args:
                    rec(ip.getattr(v, cval(f), st), d + 1, cond)

    rec(v, 0, {})
    return list(out.items())
