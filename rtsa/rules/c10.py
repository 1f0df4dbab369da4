"""C10: operators and ufuncs act on the operands, in their order."""
from ..analysis import Analysis
from ..drivers import result_rasters
from ..influence import Influence
from ..values import const, ext, mk, walk, show, is_const

BIN = ("add subtract multiply true_divide floor_divide remainder power "
       "greater greater_equal less less_equal equal not_equal bitwise_and "
       "bitwise_or bitwise_xor left_shift right_shift logical_and logical_or "
       "maximum minimum arctan2 hypot fmod copysign divmod ldexp").split()
UN = ("negative positive invert absolute sqrt exp log floor ceil isnan "
      "logical_not sign modf frexp").split()
KINDS = (("Raster", "Raster"), ("Raster", "float"), ("float", "Raster"),
         ("Raster", "int"), ("int", "Raster"), ("Raster", "bool"),
         ("bool", "Raster"), ("Raster", "numpy"), ("numpy", "Raster"),
         ("Raster", "dask"), ("dask", "Raster"),
         ("Raster", "xr"), ("xr", "Raster"), ("Raster", "list"))
# calls that hand a value on unchanged (other than its shape or float width)
SAME = set("float64 atleast_1d asarray array asanyarray expand_dims squeeze "
           "ravel reshape broadcast_to rechunk chunk from_array copy "
           "item".split())
SAME_INT = SAME | {"int64", "int"}
# calls that change values
CHANGE = set("abs absolute fabs negative floor ceil round rint around trunc "
             "int bool bool_ sign int8 int16 int32 int64 uint8 uint16 uint32 "
             "uint64 float16 float32 clip nan_to_num transpose swapaxes flip "
             "logical_not invert reciprocal sqrt square".split())


def base(n):
    return str(n).rsplit(".", 1)[-1]


def int_test(c):
    """Does the condition say that a value's type is int (and not float)?"""
    names = set()
    for x in walk(c):
        if x.op == "cmp" and x.args[0] in ("is", "==", "in"):
            for y in x.args[1:]:
                names |= {base(z.args[0]) for z in (
                    (y,) + (tuple(y.args) if y.op == "tuple" else ()))
                    if z.op == "ext"}
    return "int" in names and "float" not in names and c.op != "not"


class Args:
    def __init__(self, ip, I, st):
        self.ip, self.I, self.st = ip, I, st

    def leaves(self, t, d=0, whole=False):
        """What an argument is, without value-preserving wrappers:
        [(leaf term, changing call or None)]"""
        ip = self.ip
        if d > 30:
            return [(t, None)]
        if t.op == "phi":
            w = int_test(t.args[0])
            return self.leaves(t.args[1], d + 1, whole or w) + \
                self.leaves(t.args[2], d + 1, whole)
        if t.op == "opt":
            return self.leaves(t.args[1], d + 1, whole)
        if t.op == "call":
            f = t.args[0]
            if f.op == "ext":
                n = base(f.args[0])
                a = t.args[1][0] if t.args[1] else None
            elif f.op == "attr":
                n, a = f.args[1], f.args[0]
            else:
                return [(t, None)]
            if a is None:
                return [(t, None)]
            if n in SAME:
                return self.leaves(a, d + 1, whole)
            inner = self.leaves(a, d + 1, whole)
            if n in ("int64", "int") and (whole or all(
                    self.integral(x) for x, _ in inner)):
                return inner
            if n in CHANGE:
                return [(x, n) for x, _ in inner]
            return [(t, None)]
        return [(t, None)]

    def integral(self, x):
        if is_const(x):
            return True
        return self.ip.kind(x) in ("int", "bool")


def run(rep, root, thorough):
    A = Analysis(root, only=lambda e: e.qual == "raster.rowcol_to_xy")
    ip = A.ip
    I = Influence(ip)
    fid = next(iter(ip.frames))
    jobs = []
    for uf in BIN:
        for kinds in KINDS:
            jobs.append((uf, kinds, None))
        jobs.append((uf, ("Raster", "self"), None))
        jobs.append((uf, ("Raster", "float"), "out"))
        jobs.append((uf, ("Raster", "numpy"), "band"))
        jobs.append((uf, ("numpy", "Raster"), "band"))
    for uf in UN:
        jobs.append((uf, ("Raster",), None))
    n = n_judged = 0
    for uf, kinds, how in jobs:
        tag = "c10.%s.%s.%s" % (uf, "-".join(kinds), how)
        ps = []
        for i, k in enumerate(kinds):
            ps.append(ps[0] if k == "self" else
                      ip.param("left" if i == 0 else "right", k, tag))
        names = {p: "left" if j == 0 else "right"
                 for j, p in reversed(list(enumerate(ps)))}
        st = ip.new_state()
        name = "%s(%s)%s" % (uf, ", ".join(kinds),
                             {"out": ", in place", "band": ", bandwise",
                              None: ""}[how])
        args = list(ps)
        try:
            i = kinds.index("Raster")
            if how == "band":
                args[i] = ip.getattr(ps[i], "bandwise", st)
            f = ip.getattr(args[i], "__array_ufunc__", st)
            kw = {"out": mk("tuple", ps[0])} if how == "out" else {}
            v = ip.call(f, (ext("numpy." + uf), const("__call__"), *args),
                        kw, st, None, fid)
        except Exception as x:
            A.unanalysed.append((name, repr(x)[:200]))
            ip.stack = []
            continue
        if how == "out":
            rs = [(ps[0], {})] if v is ps[0] else result_rasters(ip, v, st)
            ok = v is ps[0] or v.op in ("phi", "noreturn", "unknown")
            rep.ob(ok)
            if not ok:
                rep.add("in-place-result", name,
                        "the in-place operator does not give back its left "
                        "operand", where="raster_tools.raster:1")
        else:
            rs = result_rasters(ip, v, st)
        if v.op in ("noreturn", "unknown"):
            continue
        n += 1
        K = Args(ip, I, st)
        bad = None
        calls = set()
        where = {}
        for x, _ in rs:
            data = ip.snapshot(ip.getattr(ip.getattr(x, "_ds", st),
                                          "raster", st), st)
            for t in walk(data):
                if t.op == "call" and t.args[0].op == "ext" and \
                        base(t.args[0].args[0]) == uf:
                    calls.add(t)
        if not calls:
            continue
        n_judged += 1
        for t in sorted(calls, key=lambda c: show(c, 4)):
            got = t.args[1]
            if len(got) < len(ps):
                bad = "%s is given only %d of the %d operands" % (
                    uf, len(got), len(ps))
                break
            for i, p in enumerate(ps):
                for leaf, ch in K.leaves(got[i]):
                    if is_const(leaf):
                        continue
                    src = {q for q in I.params(leaf, st) if q in ps}
                    if p not in src and src:
                        bad = "operand %d of %s is computed from '%s'" % (
                            i + 1, uf, " and ".join(
                                sorted(names[q] for q in src)))
                    elif ch is not None and p in src:
                        bad = "operand %d of %s goes through %s first" % (
                            i + 1, uf, ch)
                if bad:
                    break
            if bad:
                break
        rep.ob(bad is None, {"operation": name, "operands": "in order, as "
                             "given"} if n % 15 == 1 else None)
        if bad:
            rep.add("operand", name, "%s: %s" % (name, bad),
                    where="raster_tools.raster:1", entry=name,
                    path=show(t, 6)[:300])
    rep.counts["operator uses analysed"] = n
    rep.counts["operator uses judged"] = n_judged
    rep.floor("operator uses judged", n_judged, 100)
    rep.explanation = (
        "Raster.__array_ufunc__ (what every Python operator and numpy ufunc "
        "on a Raster runs) is analysed for each ufunc and combination of "
        "operand kinds, also in place and bandwise; the arguments of the "
        "ufunc call the result's data come from have to be the operands' "
        "data, in order, reached only through value-preserving calls.")
    rep.assumptions = ["numpy's operator mixin maps Python operators to "
                       "ufuncs", "the ufuncs themselves are numpy's"]
