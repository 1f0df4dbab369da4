"""C13: block-wise results do not depend on where the chunk boundaries fall.

For every function handed to dask's map_blocks / map_overlap the cells it
reads are bounded relative to the cell it writes, from the index expressions
of its loops (or the footprint handed to a library filter), and compared with
the overlap declared for that axis at the call.
"""
import itertools
import math

from ..analysis import Analysis
from ..values import cval, is_const, show, walk


class Unknown(Exception):
    pass


class Need(Exception):
    def __init__(self, cond):
        self.cond = cond


RANGES = ("range", "builtins.range", "numba.prange", "prange",
          "numpy.arange")
# library filters: reach of the footprint given by these keywords
FILTERS = ("binary_dilation", "binary_erosion", "binary_opening",
           "binary_closing", "grey_dilation", "grey_erosion", "correlate",
           "convolve", "median_filter", "maximum_filter", "minimum_filter",
           "percentile_filter", "rank_filter", "generic_filter")
FOOT = ("footprint", "structure", "weights")
REDUCE = ("min", "max", "sum", "mean", "std", "var", "median", "prod",
          "percentile", "quantile", "ptp", "unique", "sort", "cumsum",
          "cumprod", "argmin", "argmax", "average", "roll", "diff",
          "gradient", "flip", "argsort", "searchsorted", "histogram",
          "nanmin", "nanmax", "nansum", "nanmean", "nanstd", "nanvar",
          "nanmedian", "nanpercentile", "nanquantile", "nanargmin",
          "nanargmax")


class Lin:
    """sum(coef * unknown) + [lo, hi]"""
    __slots__ = ("c", "lo", "hi")

    def __init__(self, c, lo, hi):
        self.c = {k: v for k, v in c.items() if v}
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return isinstance(o, Lin) and \
            (self.c, self.lo, self.hi) == (o.c, o.lo, o.hi)

    __hash__ = None

    def add(self, o, s=1):
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = c.get(k, 0) + s * v
        if s > 0:
            return Lin(c, self.lo + o.lo, self.hi + o.hi)
        return Lin(c, self.lo - o.hi, self.hi - o.lo)

    def exact(self):
        if self.c or self.lo != self.hi:
            raise Unknown
        return self.lo


def num(x):
    return Lin({}, x, x)


def short(name):
    return name.rsplit(".", 1)[-1]


class Eval:
    def __init__(self, blocks, kshape=None, params=None, res=None):
        self.blocks, self.kshape = blocks, kshape
        self.params, self.res = params or {}, res
        self.size = math.inf
        self.anchors = set()
        self.choice = {}
        self.memo = {}

    # -- which array is it
    def block(self, t):
        """axis of the block that axis 0 of t is, or None"""
        if t in self.blocks:
            return 0
        if t.op == "phi":
            c = self.cond(t.args[0])
            if c is not None:
                return self.block(t.args[1] if c else t.args[2])
            a, b = self.block(t.args[1]), self.block(t.args[2])
            return a if a == b else None
        if t.op == "sub" and is_const(t.args[1]) and \
                isinstance(cval(t.args[1]), int):
            a = self.block(t.args[0])
            return None if a is None else a + 1
        return None

    def cond(self, c):
        """Blocks are three dimensional."""
        if c in self.choice:
            return self.choice[c]
        if c.op == "not":
            v = self.cond(c.args[0])
            return None if v is None else not v
        if c.op == "cmp" and len(c.args) == 3:
            l, r = c.args[1], c.args[2]
            d = {}
            for x in (l, r):
                if x.op == "attr" and x.args[1] == "ndim" and \
                        x.args[0] in self.blocks:
                    d[x] = 3
                elif x.op == "call" and x.args[0].op == "ext" and \
                        x.args[0].args[0] in ("len", "builtins.len") and \
                        x.args[1] and x.args[1][0].op == "attr" and \
                        x.args[1][0].args[1] == "shape" and \
                        x.args[1][0].args[0] in self.blocks:
                    d[x] = 3
                elif is_const(x) and isinstance(cval(x), (int, float)):
                    d[x] = cval(x)
            if l in d and r in d:
                op, a, b = c.args[0], d[l], d[r]
                if op in ("==", "!=", "<", "<=", ">", ">="):
                    return eval("a %s b" % op)
        return None

    # -- numbers
    def ev(self, t, idx=None):
        key = (t, idx)
        if key not in self.memo:
            try:
                self.memo[key] = self._ev(t, idx)
            except Unknown as e:
                self.memo[key] = e
        v = self.memo[key]
        if isinstance(v, Unknown):
            raise v
        return v

    def _ev(self, t, idx):
        op = t.op
        if t in self.params:
            return num(self.params[t])
        if op == "const":
            x = cval(t)
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                raise Unknown
            return num(x)
        if op == "elem" and idx is None:
            if t in self.anchors:
                return Lin({t: 1}, 0, 0)
            lo, hi, _ = self.bounds(t)
            if lo.c != hi.c:
                # from one place to another that is an unknown distance away
                raise Unknown
            return Lin(lo.c, lo.lo, hi.hi)
        if op == "bin":
            o = t.args[0]
            a, b = self.ev(t.args[1], idx), self.ev(t.args[2], idx)
            if o == "+":
                return a.add(b)
            if o == "-":
                return a.add(b, -1)
            if o == "*":
                for x, y in ((a, b), (b, a)):
                    if not x.c and x.lo == x.hi:
                        k = x.lo
                        z = sorted((y.lo * k, y.hi * k))
                        return Lin({u: v * k for u, v in y.c.items()}, *z)
                raise Unknown
            x, y = a.exact(), b.exact()
            try:
                return num({"//": lambda: x // y, "/": lambda: x / y,
                            "%": lambda: x % y, "**": lambda: x ** y,
                            "<<": lambda: x << y, ">>": lambda: x >> y}
                           [o]())
            except (KeyError, ZeroDivisionError, TypeError):
                raise Unknown
        if op == "un" and t.args[0] == "-":
            return num(0).add(self.ev(t.args[1], idx), -1)
        if op == "phi":
            c = self.cond(t.args[0])
            if c is not None:
                return self.ev(t.args[1] if c else t.args[2], idx)
            got = []
            for x in t.args[1:]:
                try:
                    got.append(self.ev(x, idx))
                except Unknown:
                    got.append(None)
            if not any(g is None for g in got) and got[0] == got[1]:
                return got[0]
            raise Need(t.args[0])
        if op == "tuple" and idx is not None:
            try:
                return self.ev(t.args[idx])
            except IndexError:
                raise Unknown
        if op == "sub" and idx is None:
            b, i = t.args
            if not (is_const(i) and isinstance(cval(i), int)):
                raise Unknown
            i = cval(i)
            while b.op == "phi" and self.cond(b.args[0]) is not None:
                b = b.args[1] if self.cond(b.args[0]) else b.args[2]
            if b.op == "attr" and b.args[1] == "shape":
                ax = self.block(b.args[0])
                if ax is not None:
                    return Lin({"N%d" % (ax + i if i >= 0 else 3 + i): 1},
                               0, 0)
                if self.kshape and i in (0, 1, -1, -2):
                    return num(self.kshape[i])
                raise Unknown
            return self.ev(b, i)
        if op == "attr":
            n = t.args[1]
            if n == "resolution" and idx is not None and self.res:
                return num(self.res[idx])
            if n == "size" and coordinate(t.args[0]):
                return num(self.size)
            raise Unknown
        if op == "call":
            f, args = t.args[0], t.args[1]
            if f.op == "attr":
                if f.args[1] in ("astype", "item", "copy", "tolist"):
                    return self.ev(f.args[0], idx)
                if f.args[1] == "resolution" and idx is not None and \
                        self.res:
                    return num(self.res[idx])
                raise Unknown
            if f.op != "ext" or not args:
                raise Unknown
            n = short(f.args[0])
            if n in ("max", "min", "maximum", "minimum"):
                if len(args) < 2:
                    if args[0].op == "tuple":
                        args = args[0].args
                    else:
                        raise Unknown
                vs = [self.ev(a, idx) for a in args]
                if any(v.c != vs[0].c for v in vs):
                    raise Unknown
                g = max if n[:2] == "ma" else min
                return Lin(vs[0].c, g(v.lo for v in vs), g(v.hi for v in vs))
            if n in ("int", "int32", "int64", "asarray", "array", "abs",
                     "absolute", "fabs", "ceil", "floor", "round", "rint",
                     "float", "trunc", "intp"):
                v = self.ev(args[0], idx)
                if n in ("asarray", "array", "float"):
                    return v
                if v.c:
                    if n[:3] == "int":
                        return v
                    raise Unknown
                x = v.exact()
                if math.isinf(x):
                    return v
                return num({"abs": abs, "absolute": abs, "fabs": abs,
                            "ceil": math.ceil, "floor": math.floor,
                            "round": round, "rint": round}.get(
                                n, math.trunc)(x))
            if n == "len" and coordinate(args[0]):
                return num(self.size)
            raise Unknown
        raise Unknown

    def bounds(self, t):
        """(first, last, step) of the values of a loop variable"""
        r = t.args[0]
        if r.op != "call" or r.args[0].op != "ext" or \
                r.args[0].args[0] not in RANGES or r.args[2] or \
                not r.args[1]:
            raise Unknown
        a = r.args[1]
        step = 1
        if len(a) == 3:
            step = self.ev(a[2]).exact()
        lo = num(0) if len(a) == 1 else self.ev(a[0])
        hi = self.ev(a[0] if len(a) == 1 else a[1])
        if step == 1:
            return lo, hi.add(num(1), -1), 1
        if step == -1:
            return hi.add(num(1)), lo, -1
        raise Unknown


def under_choices(E, fn, limit=64):
    """[(choice, result of fn or None)] over the conditions fn asks for"""
    out = []

    def go(choice):
        if len(out) > limit:
            return
        E.choice = choice
        E.memo = {}
        try:
            out.append((choice, fn()))
        except Unknown:
            out.append((choice, None))
        except Need as n:
            go({**choice, n.cond: True})
            go({**choice, n.cond: False})
    go({})
    return out


def element(t, k):
    """The overlap of axis k in a depth argument"""
    if t is None:
        return None
    if t.op == "dictval" or t.op == "tuple":
        items = t.args[0] if t.op == "dictval" else None
        if t.op == "tuple":
            return t.args[k] if k < len(t.args) else None
        for i in items:
            if len(i) == 2 and is_key(i[0], k):
                return i[1]
        return None
    if is_const(t):
        return t
    return None


def is_key(x, k):
    if hasattr(x, "op"):
        return is_const(x) and cval(x) == k
    return x == k and not isinstance(x, bool)


SHAPES = [(a, b) for a in (1, 2, 3, 4, 5) for b in (1, 2, 3, 4, 5)]
AXIS = ("band", "row", "column")


class Site:
    def __init__(self, A, f, pa, pk, how, ev, st):
        self.f, self.pa, self.pk, self.how, self.ev = f, pa, pk, how, ev
        self.call = ev.data[0]
        self.kw = dict(self.call.args[2])
        self.overlap = short(str(how)) in ("map_overlap",)
        self.value, self.evs, self.state, b, _ = A.run_callback(
            f, pa, pk, ev, st)
        self.blocks = set(b.values())
        self.depth = self.kw.get("depth")
        self.where = "%s:%d" % ev.loc

    @property
    def name(self):
        return self.f.pay.qual.replace("raster_tools.", "", 1)

    def inputs(self):
        a = list(self.call.args[1])
        f = self.call.args[0]
        if f.op == "attr":
            return [f.args[0]]
        return [x for x in a if x.op not in ("func", "partial", "bound")]

    def terms(self):
        seen = set()
        for x in self.evs:
            for d in (x.data or ()):
                for t in flat(d):
                    yield from walk(t, seen)
            for c, _ in x.cond:
                yield from walk(c, seen)
        if self.value is not None:
            yield from walk(self.value, seen)

    def stores(self):
        out = []
        for x in self.evs:
            if x.kind not in ("setitem", "aug") or not x.data or \
                    not hasattr(x.data[0], "op"):
                continue
            i = x.data[0]
            if i.op == "tuple" and len(i.args) in (2, 3) and \
                    all(any(y.op == "elem" for y in walk(a))
                        for a in i.args[-2:]) and \
                    any(c.op == "iter" for c, _ in x.cond):
                out.append(x)
        return out


def flat(d):
    if hasattr(d, "op"):
        return [d]
    if isinstance(d, (tuple, list)):
        return [y for x in d for y in flat(x)]
    return []


def depth_of(E, site, k):
    if not site.overlap:
        return 0
    e = element(site.depth, k)
    if e is None:
        raise Unknown
    return E.ev(e).exact()


def window(site, E, x):
    """Problems with the cells read around the cell stored by x, or None if
    the index expressions have no rule."""
    idx = x.data[0].args[-2:]
    anchors, offs = [], []
    for a in idx:
        el = [y for y in walk(a) if y.op == "elem"]
        el = [y for y in el if not any(
            y is not z and y in set(walk(z)) for z in el)]
        if len(el) != 1:
            raise Unknown
        anchors.append(el[0])
    E.anchors = set(anchors)
    E.memo = {}
    for a, el in zip(idx, anchors):
        v = E.ev(a)
        if v.c != {el: 1} or v.lo != v.hi:
            raise Unknown
        offs.append(v.lo)
    reads = [t for t in site.terms() if t.op == "sub" and
             t.args[1].op == "tuple" and E.block(t.args[0]) is not None]
    out = []
    ext = [[0, 0], [0, 0]]
    n = 0
    for t in reads:
        i = t.args[1].args
        ax0 = E.block(t.args[0])
        if ax0 + len(i) != 3 or not any(
                el in set(walk(a)) for a in i for el in anchors):
            continue
        for k in (0, 1):
            a = i[k - 2]
            if is_slice(a):
                out.append(("whole", k, t))
                continue
            v = E.ev(a)
            c = dict(v.c)
            if c.pop(anchors[k], 0) != 1 or c:
                out.append(("other", k, t))
                continue
            ext[k][0] = min(ext[k][0], v.lo - offs[k])
            ext[k][1] = max(ext[k][1], v.hi - offs[k])
        n += 1
    res = []
    for kind, k, t in out:
        res.append((k + 1, "reads %s of the block, whatever %s is being "
                    "computed" % (show(t, 4)[:80], AXIS[k + 1])))
    for k in (0, 1):
        d = depth_of(E, site, k + 1)
        lo, hi, _ = E.bounds(anchors[k])
        reach = max(-ext[k][0], ext[k][1])
        if reach > d:
            res.append((k + 1, "reads %d %ss away, but blocks overlap by %d"
                        % (reach, AXIS[k + 1], d)))
        first = lo.add(num(offs[k]))
        last = hi.add(num(offs[k]))
        N = "N%d" % (k + 1)
        if first.c or last.c != {N: 1}:
            continue
        if first.hi > d or -last.lo - 1 > d:
            res.append((k + 1, "leaves %d %ss at the edges of a block "
                        "uncomputed, but only %d are trimmed" % (
                            max(first.hi, -last.lo - 1), AXIS[k + 1], d)))
        if first.lo + ext[k][0] < 0 or last.hi + ext[k][1] > -1:
            res.append((k + 1, "reads beyond the edge of the block on the "
                        "%s axis" % AXIS[k + 1]))
    return n, res


def is_slice(t):
    return t.op == "slice" or (t.op == "call" and t.args[0].op == "ext" and
                               t.args[0].args[0] in ("slice",
                                                     "builtins.slice"))


def filters(site):
    """[(call, footprint term)] of library filters run on a block"""
    out = []
    for t in site.terms():
        if t.op == "call" and t.args[0].op == "ext" and \
                short(t.args[0].args[0]) in FILTERS and \
                t.args[0].args[0].startswith(("scipy.", "dask_image.",
                                              "skimage.")):
            kw = dict(t.args[2])
            fp = [kw[k] for k in FOOT if k in kw]
            fp += list(t.args[1][1:2]) if not fp else []
            if fp:
                out.append((t, fp[0]))
    return out


def from_block(t, E):
    return any(y in E.blocks for y in walk(t))


def null_or_neutral(site):
    """Problem with what lies beyond the raster's edge, or None."""
    b = site.kw.get("boundary")
    if b is None:
        return None
    kw = dict(site.pk)
    cv = [v for k, v in list(site.kw.items()) + list(kw.items())
          if k == "cval"]
    fills = set(cv)
    for i in site.inputs():
        y = i
        while y.op == "call":
            f = y.args[0]
            if f.op == "ext" and short(f.args[0]) == "where" and \
                    len(y.args[1]) == 3:
                fills.add(y.args[1][1])
                break
            if f.op == "attr" and f.args[1] in ("astype", "rechunk"):
                y = f.args[0]
                continue
            break
        if y.op == "phi":
            for z in y.args[1:]:
                if z.op == "call" and z.args[0].op == "ext" and \
                        short(z.args[0].args[0]) == "where" and \
                        len(z.args[1]) == 3:
                    fills.add(z.args[1][1])
        if y.op == "un" and y.args[0] == "~":
            fills.add("notmask")

    def ok(t):
        if t.op == "ext" and short(t.args[0]) in ("nan", "NaN", "NAN"):
            return True
        if is_const(t):
            x = cval(t)
            if isinstance(x, float) and x != x:
                return True
            if x is False or x == 0 and isinstance(x, bool):
                return "notmask" in fills
            if isinstance(x, str):
                return x in ("reflect", "nearest", "periodic")
            if x == 0 and "notmask" in fills:
                return True
        if t in fills:
            return True
        if t.op == "phi":
            return ok(t.args[1]) and ok(t.args[2])
        if t.op == "param" or (t.op == "sub" and t.args[0].op == "dictval"):
            return True
        if is_const(t):
            return False
        return None

    v = ok(b)
    if v is False or (v is None and b.op == "const"):
        return "cells beyond the raster's edge are %s, which is neither " \
            "null nor the value nulls are replaced with" % show(b, 3)[:60]
    return None


def table(site):
    """scipy's names of the edge modes against dask's"""
    want = {"reflect": "reflect", "nearest": "nearest", "wrap": "periodic",
            "constant": "constant", "grid-wrap": "periodic"}
    b = site.kw.get("boundary")
    if b is None:
        return
    for t in walk(b):
        if t.op != "dictval":
            continue
        for i in t.args[0]:
            if len(i) != 2:
                continue
            k = cval(i[0]) if hasattr(i[0], "op") and is_const(i[0]) else i[0]
            v = cval(i[1]) if hasattr(i[1], "op") and is_const(i[1]) else i[1]
            if k in want and isinstance(v, str) and v != want[k]:
                yield "mode %r extends the raster like dask's %r, not %r" % (
                    k, v, want[k])


def coordinate(t):
    """"x" or "y" if t holds the raster's coordinates along that axis"""
    while True:
        if t.op == "attr" and t.args[1] in ("data", "values"):
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "attr" and \
                t.args[0].args[1] in ("to_numpy", "copy", "compute"):
            t = t.args[0].args[0]
        elif t.op == "attr" and t.args[1] in ("x", "y"):
            return t.args[1]
        else:
            return None


def axis_of(t):
    """axis a coordinate array, chunk sizes or chunk location belongs to"""
    if coordinate(t):
        return 2 if coordinate(t) == "x" else 1
    if t.op == "phi":
        a, b = axis_of(t.args[1]), axis_of(t.args[2])
        return a if a == b else None
    if t.op == "sub" and is_const(t.args[1]) and \
            isinstance(cval(t.args[1]), int):
        i, b = cval(t.args[1]), t.args[0]
        if i < 0:
            return 3 + i
        if b.op == "sub" and is_slice(b.args[1]):
            s = b.args[1]
            lo = (s.args if s.op == "slice" else s.args[1])[0]
            if is_const(lo) and cval(lo) in (1, -2):
                return i + 1
            if is_const(lo) and cval(lo) in (0, None):
                return i
            return None
        return i
    return None


def coordinates(site):
    """Problems with the coordinates a block function is given: they have to
    be cut like the blocks themselves."""
    for t in site.terms():
        if t.op != "call" or t.args[0].op != "ext" or \
                t.args[0].args[0] not in ("dask.array.overlap.overlap",
                                          "dask.array.overlap"):
            continue
        kw = dict(t.args[2])
        a, d = t.args[1][0], kw.get("depth")
        if a.op != "call" or not a.args[1]:
            continue
        ax = axis_of(a.args[1][0])
        if ax is None:
            continue
        want = element(site.depth, ax)
        if d is not None and want is not None and d is not want and \
                d in (element(site.depth, 1), element(site.depth, 2)):
            yield ax, "the coordinates of the %ss overlap like the %ss" % (
                AXIS[ax], AXIS[3 - ax])
        ch = dict(a.args[2]).get("chunks")
        if ch is not None and axis_of(ch) not in (ax, None):
            yield ax, "the coordinates of the %ss are chunked like the %ss" \
                % (AXIS[ax], AXIS[axis_of(ch)])
    for t in site.terms():
        if t.op == "sub" and t.args[0].op == "attr" and \
                t.args[0].args[1] == "blocks":
            src = t.args[0].args[0]
            while src.op == "call" and src.args[1]:
                src = src.args[1][0]
            src, ax = axis_of(src), axis_of(t.args[1])
            if src is not None and ax is not None and ax != src:
                yield src, "the coordinates of the %ss are those of " \
                    "another block" % AXIS[src]


def whole(E, t):
    """all cells along an axis in one chunk"""
    if is_const(t):
        return cval(t) == -1
    return True


def rechunks(t, ax):
    """Chunk sizes along an axis that a term's data is rechunked to"""
    names = ("band", "y", "x")
    for y in walk(t):
        if y.op != "call":
            continue
        f = y.args[0]
        n = f.args[1] if f.op == "attr" else short(f.args[0]) \
            if f.op == "ext" else None
        if n not in ("rechunk", "chunk"):
            continue
        kw = dict(y.args[2])
        a = kw.get("chunks")
        if a is None:
            pos = y.args[1][0 if f.op == "attr" else 1:]
            a = pos[0] if pos else None
        if a is None:
            continue
        if a.op == "dictval":
            for i in a.args[0]:
                if len(i) == 2 and (is_key(i[0], ax) or
                                    is_key(i[0], names[ax])):
                    yield i[1]
        elif a.op == "tuple" and len(a.args) > ax:
            yield a.args[ax]


def reach(site):
    """Operations on a block that see more than the cell's own position:
    (kind, axes or None, term)"""
    E = Eval(site.blocks)

    def shape3(t):
        """t has the block's three axes"""
        while True:
            if t in site.blocks:
                return True
            if t.op == "call" and t.args[0].op == "ext" and t.args[1] and \
                    short(t.args[0].args[0]) in (
                        "isnan", "where", "nan_to_num", "asarray", "abs",
                        "logical_not", "isfinite", "full_like", "array"):
                t = t.args[1][0]
            elif t.op == "call" and t.args[0].op == "attr" and \
                    t.args[0].args[1] in ("astype", "copy"):
                t = t.args[0].args[0]
            elif t.op in ("bin", "cmp", "un", "not"):
                ts = [a for a in t.args if hasattr(a, "op")]
                ts = [a for a in ts if not is_const(a)]
                hit = [a for a in ts if shape3(a)]
                if not hit:
                    return False
                return True
            elif t.op == "sub" and t.args[0] in site.blocks and \
                    t.args[1].op == "cmp":
                return True
            elif t.op == "phi":
                return shape3(t.args[1]) or shape3(t.args[2])
            else:
                return False

    for t in site.terms():
        if t.op != "call":
            continue
        f = t.args[0]
        if f.op == "ext" and f.args[0].startswith("numpy.") and t.args[1]:
            n, x, rest = short(f.args[0]), t.args[1][0], t.args[1][1:]
        elif f.op == "attr":
            n, x, rest = f.args[1], f.args[0], t.args[1]
        else:
            continue
        if n not in REDUCE or not shape3(x):
            continue
        ax = dict(t.args[2]).get("axis")
        if ax is None and rest and n not in ("percentile", "quantile",
                                             "searchsorted", "histogram"):
            ax = rest[0]
        axes = None
        if ax is not None and is_const(ax) and isinstance(cval(ax), int):
            axes = (cval(ax) % 3,)
        elif ax is not None and ax.op == "tuple" and \
                all(is_const(a) for a in ax.args):
            axes = tuple(cval(a) % 3 for a in ax.args)
        elif ax is not None and not (is_const(ax) and cval(ax) is None):
            continue
        yield n, axes, t


def bands_read_together(site):
    E = Eval(site.blocks)
    for t in site.terms():
        if t.op == "sub" and t.args[0] in site.blocks and \
                t.args[1].op == "tuple" and len(t.args[1].args) == 3 and \
                is_slice(t.args[1].args[0]):
            if all(not is_slice(a) for a in t.args[1].args[1:]):
                return t
        if t.op == "call" and t.args[0].op == "ext" and \
                t.args[0].args[0] == "numpy.moveaxis" and t.args[1] and \
                t.args[1][0] in site.blocks:
            return t
    for n, axes, t in reach(site):
        if axes == (0,):
            return t
    return None


def judge(site, rep, stats):
    q = site.name
    entry = site.ev.stack[0][0].replace("raster_tools.", "", 1) \
        if site.ev.stack else q
    done = False

    def add(rule, key, msg, where=None):
        rep.add(rule, "%s|%s|%s" % (q, entry, key), "%s (run by %s): %s" % (
            q, entry, msg), where=where or site.where, entry=entry,
            path=" > ".join(a.replace("raster_tools.", "")
                            for a, _ in site.ev.stack))

    # the bands
    if site.overlap:
        d0 = element(site.depth, 0)
        if d0 is not None and is_const(d0):
            bad = cval(d0) != 0 or is_const(site.depth)
            rep.ob(not bad, {"site": site.where, "axis": "band"})
            if bad:
                add("overlap", "band", "blocks overlap along the band axis")
    # windows
    for x in site.stores():
        problems, judged = {}, 0
        for ks in SHAPES:
            E = Eval(site.blocks, ks)
            got = under_choices(E, lambda: window(site, E, x))
            for choice, r in got:
                if r is None:
                    continue
                judged += 1
                for k, why in r[1]:
                    problems.setdefault((k, why.split(",")[0]), (why, ks))
            if not E_uses_shape(E):
                break
        if not judged:
            stats["stores not judged"] += 1
            continue
        done = True
        stats["window computations"] += 1
        for k in (1, 2):
            bad = [v for (kk, _), v in problems.items() if kk == k]
            rep.ob(not bad, {"store": "%s:%d" % x.loc, "in": q,
                             "called from": site.where, "axis": AXIS[k]})
        for (k, _), (why, ks) in sorted(problems.items()):
            add("window", "%s|%s" % (AXIS[k], why.split(" ")[0]),
                why + ("" if not E_uses_shape(E) else
                       " (with a %d x %d kernel)" % ks),
                "%s:%d" % x.loc)
            break
    for t, fp in filters(site):
        worst = None
        judged = False
        for ks in SHAPES:
            E = Eval(site.blocks, ks)
            for k in (1, 2):
                for choice, d in under_choices(
                        E, lambda: depth_of(E, site, k)):
                    if d is None:
                        continue
                    judged = True
                    if d < ks[k - 1] // 2:
                        worst = worst or (k, ks, d)
        if not judged:
            continue
        done = True
        stats["library filters"] += 1
        rep.ob(worst is None, {"filter": show(t.args[0], 2),
                               "called from": site.where})
        if worst:
            k, ks, d = worst
            add("filter", "%s|%s" % (short(t.args[0].args[0]), AXIS[k]),
                "a %d x %d footprint reaches %d %ss, but blocks overlap by "
                "%d" % (ks + (ks[k - 1] // 2, AXIS[k], d)))
    # a distance
    if site.overlap and not done:
        distance(site, rep, stats, add)
        ds = [element(site.depth, k) for k in (1, 2)]
        if None not in ds:
            limited(ds, rep, site.where, add)
    if site.overlap:
        why = null_or_neutral(site)
        rep.ob(why is None, {"boundary": site.where, "of": q})
        if why:
            add("boundary", "fill", why)
        for why in table(site):
            add("boundary", why.split("'")[1], why)
        for ax, why in coordinates(site):
            add("coordinates", AXIS[ax], why)
    # position independence
    seen = set()
    for n, axes, t in reach(site):
        if axes is not None and not set(axes) & {1, 2}:
            continue
        if t in seen or not flows(site, t):
            continue
        seen.add(t)
        add("block statistic", n, "%s is taken over the rows and columns of "
            "one block" % show(t, 3)[:80])
    rep.ob(not seen, {"values taken over a block": site.where, "in": q})
    # bands together
    t = bands_read_together(site)
    if t is not None and not site.overlap:
        sizes = [c for i in site.inputs() for c in rechunks(i, 0)][:1]
        bad = not sizes or (is_const(sizes[0]) and cval(sizes[0]) != -1)
        rep.ob(not bad, {"bands read together": site.where, "in": q})
        stats["bands read together"] += 1
        if bad:
            add("bands", "chunks", "reads all bands of a cell, but the "
                "bands of its input are in separate blocks")
    # declared chunks
    ch = site.kw.get("chunks")
    if ch is not None and not site.overlap and site.inputs():
        data = site.inputs()[0]
        own = [y for y in walk(ch) if y.op == "attr" and
               y.args[1] == "chunks"]
        rc = [y for y in walk(data) if y is not data]
        if data.op == "call":
            bad = [y for y in own if y.args[0] is not data and
                   y.args[0] in rc and not part_of(y, data)]
            rep.ob(not bad, {"declared chunks": site.where, "of": q})
            if bad:
                add("chunks", "declared", "the declared output chunks are "
                    "those the data had before it was rechunked")


def part_of(y, data):
    return any(y is z for z in walk(data))


def E_uses_shape(E):
    return any(isinstance(k, tuple) and k[0].op == "sub" and
               k[0].args[0].op == "attr" and k[0].args[0].args[1] == "shape"
               and E.block(k[0].args[0].args[0]) is None
               for k in E.memo)


def flows(site, t):
    """t is part of a result (not only of a condition)"""
    roots = [site.value] if site.value is not None else []
    for x in site.evs:
        if x.kind in ("setitem", "aug"):
            roots += [d for d in flat(x.data[1:])]
            roots += [c for c, _ in x.cond if c.op != "iter"]
    return any(t in set(walk(r)) for r in roots)


def distance(site, rep, stats, add):
    """The overlap is a distance over the cell size."""
    ds = [element(site.depth, k) for k in (1, 2)]
    if None in ds:
        return
    if not any(t.op == "attr" and t.args[1] == "resolution"
               for d in ds for t in walk(d)):
        return
    given = {v for v in dict(site.kw).values() if v.op == "param"} | \
        {v for _, v in site.pk if v.op == "param"}
    ps = [p for p in given if any(
        t.op == "bin" and t.args[0] in "/*" and p in t.args[1:]
        for d in ds for t in walk(d))]
    if len(ps) != 1:
        return
    bad = None
    judged = 0
    for r, res in itertools.product((10, 7, 2.5), ((2, 3), (3, 2), (2, -3))):
        E = Eval(site.blocks, None, {ps[0]: r}, res)
        got = under_choices(
            E, lambda: tuple(E.ev(d).exact() for d in ds))
        for choice, d in got:
            if d is None:
                continue
            judged += 1
            if d == (0, 0):
                sizes = [list(rechunks(site.inputs()[0], k)) for k in (1, 2)]
                if all(any(whole(E, c) for c in s) for s in sizes):
                    continue
            for k in (1, 2):
                size = abs(res[2 - k])
                # the farthest cell within r is floor(r / size) cells away
                if d[k - 1] < math.floor(r / size):
                    bad = bad or (k, r, size, d[k - 1])
    if not judged:
        return
    why = narrowest(ds[1])
    rep.ob(why is None, {"narrowest column": site.where})
    if why:
        add("distance", "latitude", why)
    stats["distances"] += 1
    rep.ob(bad is None, {"distance": site.where, "of": site.name})
    if bad:
        k, r, size, d = bad
        add("distance", AXIS[k], "a distance of %g spans %g %ss of size %g, "
            "but blocks overlap by %g" % (r, r / size, AXIS[k], size, d))


def limited(ds, rep, where, add):
    """An overlap computed from a distance can't exceed the raster."""
    ps = [p for d in ds for t in walk(d) if t.op == "bin" and
          t.args[0] in "/*" for p in t.args[1:] if p.op == "param"]
    if not ps or not any(
            t.op == "attr" and t.args[1] == "resolution"
            for d in ds for t in walk(d)):
        return
    E = Eval(set(), None, {p: 1000 for p in ps}, (2, 3))
    E.size = 7
    for k in (0, 1):
        got = [d for _, d in under_choices(
            E, lambda: E.ev(ds[k]).exact()) if d is not None]
        if not got:
            continue
        bad = [d for d in got if d > 7]
        rep.ob(not bad, {"overlap at most the raster": where})
        if bad:
            add("distance", "size", "a distance larger than the raster "
                "gives an overlap larger than the raster, which dask refuses")
            return


def narrowest(d):
    """Columns given by longitudes are narrowest farthest from the equator,
    on either side of it."""
    sides = set()
    for t in walk(d):
        if t.op != "call":
            continue
        f = t.args[0]
        if f.op == "attr":
            n, x = f.args[1], f.args[0]
        elif f.op == "ext" and t.args[1]:
            n, x = short(f.args[0]), t.args[1][0]
        else:
            continue
        if coordinate(x) == "y":
            sides.add(n)
    high = sides & {"max", "argmax", "nanmax", "amax"}
    low = sides & {"min", "argmin", "nanmin", "amin"}
    if bool(high) != bool(low) and not sides & {"abs", "absolute", "fabs"}:
        return "the size of a column is taken at the %s latitude, which is " \
            "not the one farthest from the equator on both sides of it" % (
                "largest" if high else "smallest")
    return None


def forwarded(ev, rep):
    """An operation of the package built on the blocks module"""
    d = dict(ev.data[0].args[2]).get("depth")
    entry = ev.stack[0][0].replace("raster_tools.", "", 1) if ev.stack else ""
    if d is None or entry.startswith(USER):
        return
    for t in walk(d):
        ds = [element(t, k) for k in (1, 2)] if t.op == "dictval" else [None]
        if None in ds:
            continue

        def add(rule, key, msg):
            rep.add(rule, "%s|%s" % (entry, key), "%s: %s" % (entry, msg),
                    where="%s:%d" % ev.loc, entry=entry)
        limited(ds, rep, "%s:%d for %s" % (ev.loc + (entry,)), add)


USER = ("blocks.",)


def run(rep, root, thorough):
    A = Analysis(root)
    stats = {"block functions": 0, "window computations": 0,
             "stores not judged": 0, "library filters": 0, "distances": 0,
             "bands read together": 0}
    done = set()
    for f, pa, pk, how, ev, st in A.callbacks():
        if short(str(how)) not in ("map_blocks", "map_overlap"):
            continue
        if ev.kind != "callback":
            continue
        if f.pay.qual.replace("raster_tools.", "", 1).startswith(USER):
            forwarded(ev, rep)
            continue
        try:
            s = Site(A, f, pa, pk, how, ev, st)
        except Exception:
            A.ip.stack = []
            continue
        stats["block functions"] += 1
        judge(s, rep, stats)
    rep.counts = stats
    rep.floor("block functions", stats["block functions"], 15)
    rep.floor("window computations", stats["window computations"], 8)
    rep.explanation = (
        "Every package function handed to dask's map_blocks / map_overlap is "
        "interpreted with symbolic blocks. The index expressions of the "
        "cells it reads are bounded relative to the cell it writes and "
        "compared, per axis and for every kernel shape up to 5 x 5, with the "
        "overlap declared at the call, the cells trimmed and the edges of "
        "the block; footprints of library filters and overlaps computed from "
        "a distance likewise. Blocks run without overlap may read only the "
        "position they write, statistics over a block's rows and columns "
        "are reported, functions reading all bands need one chunk of bands, "
        "and what lies beyond the raster's edge must be null or the value "
        "nulls are replaced with.")
    rep.assumptions = [
        "dask trims what it overlapped and gives every block its overlap",
        "user functions given to the blocks module are the user's",
        "index expressions without a rule (data-dependent indices, slices) "
        "are not judged",
    ]
