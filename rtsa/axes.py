"""Which axis a quantity belongs to.

An abstract interpretation of every function of the package over the syntax
tree.  A value is known to lie along the rows (Y) or the columns (X) because
of where it comes from: a shape, chunks or block location, a coordinate, a
resolution, a bounds tuple, a component of an affine transform, a loop over
one of these.  Values are followed through arithmetic, assignments, tuples,
loops, branches and calls (what a function demands of its parameters and what
it returns is summarised and applied at its call sites).
"""
import ast
import re

B, Y, X, N = "B", "Y", "X", "N"
AXES = (Y, X)
SHAPES = {"shape", "chunks", "numblocks", "parent_shape", "chunksize"}
ATTR = {"x": X, "y": Y, "x_dim": X, "y_dim": Y, "width": X, "height": Y, "row_slice": Y,
        "col_slice": X, "band_slice": B}
KEYS = {"chunk_row": Y, "chunk_col": X, "x": X, "y": Y, "row": Y, "col": X, "minx": X, "maxx": X, "miny": Y,
        "maxy": Y}
SAME = {"abs", "int", "float", "round", "floor", "ceil", "len", "sorted",
        "asarray", "array", "list", "tuple", "astype", "ravel", "copy",
        "cumsum", "sum", "unique", "diff", "absolute", "fabs", "flatten",
        "asanyarray", "slice", "to_numpy", "tolist", "reversed", "item",
        "atleast_1d", "iter", "compute", "chunks_to_array_locations", "rint", "to_dask_array", "arange", "overlap",
        "isel_", "F64", "float64", "int64", "float32", "intp",
        "ensure_minimum_chunksize"}
JOIN = {"min", "max", "minimum", "maximum", "fmin", "fmax", "clip"}
SHAPED = {"zeros", "ones", "empty", "broadcast_to", "ndarray"}
RESHAPE = {"reshape", "rechunk", "chunk"}
# documented axes of public parameters and results
PARAMS = {
    "raster.Raster.xy": {"row": Y, "col": X},
    "raster.Raster.index": {"x": X, "y": Y},
    "blocks.GeoBlockInfo.pad_y": {"top": Y, "bottom": Y},
    "blocks.GeoBlockInfo.pad_x": {"left": X, "right": X},
    "blocks.GeoBlockInfo.shift_y": {"n": Y},
    "blocks.GeoBlockInfo.shift_x": {"n": X},
    "blocks.GeoBlockInfo.pad": {"y": Y, "x": X},
    "blocks.GeoBlockInfo.shift": {"y": Y, "x": X},
    "raster.data_to_raster": {"x": X, "y": Y},
    "raster.data_to_xr_raster": {"x": X, "y": Y},
    "raster.data_to_xr_raster_ds": {"x": X, "y": Y},
    "blocks.GeoBlockInfo.__init__": {"chunk_location": (B, Y, X)},
    "blocks.map_overlap": {"depth": (Y, X)},
    "blocks.geo_map_overlap": {"depth": (Y, X)},
    "blocks._ensure_chunks_for_overlap": {"depth_dict": {0: B, 1: Y, 2: X}},
}
RESULTS = {
    "raster.Raster.xy": (X, Y),
    "raster.Raster.index": (Y, X),
    "raster.Raster.bounds": (X, Y, X, Y),
    "raster.Raster.x": X, "raster.Raster.y": Y,
    "raster.Raster.resolution": (X, Y),
    "blocks.GeoBlockInfo.x": X, "blocks.GeoBlockInfo.y": Y,
    "blocks.GeoBlockInfo.shape": (None, Y, X),
    "raster.Raster.get_chunked_coords": (X, Y),
    "_grids.build_x_coord": X, "_grids.build_y_coord": Y,
    "_grids.build_coords": (X, Y),
}


class Tup(tuple):
    """Values of a tuple; a list of them in an environment."""


class P(tuple):
    """Parameter (index, element or None)."""


class Fn(tuple):
    """A nested function and the names it sees."""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


class Aff:
    pass


class Shape:
    pass


class Geobox:
    pass


class Coords:
    """odc's coordinates: y first, then x"""


class Dict(dict):
    __hash__ = object.__hash__


class Nonzero:
    """Indices of the cells of a mask, one array per axis."""


NZ = Nonzero()
SHAPE3 = Shape()
TURNED = Nonzero()      # an array whose axes were reordered
AFF, SHAPE, GBOX, COORDS = Aff(), Shape(), Geobox(), Coords()
NONE = ("none",)


def axis(v):
    return v if isinstance(v, str) else None


def join(a, b):
    if a is b or a == b:
        return a
    if a == NONE:
        return b
    if b == NONE:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a) == len(b):
        return Tup(join(p, q) for p, q in zip(a, b))
    if axis(a) and axis(b):
        return N
    # an offset that starts at a constant
    if isc(a) and b in AXES and not isinstance(a[1], (str, bool)):
        return b
    if isc(b) and a in AXES and not isinstance(b[1], (str, bool)):
        return a
    return None


def elem(v):
    """What iterating over the value gives."""
    if isinstance(v, Tup):
        r = v[0] if v else None
        for x in v[1:]:
            r = r if r == x else None
        return r
    if axis(v):
        return v
    if isinstance(v, P) and v[1] is None:
        return v
    return None


SHAPES_OF = (SHAPE, SHAPE3)


class Summary:
    def __init__(self):
        self.req = {}           # (param index, element) -> {axis: why}
        self.ret = NONE


class Axes:
    def __init__(self, modules):
        """modules: {name: ast.Module}"""
        self.findings = {}
        self.checked = set()
        self.sites = {}
        self.defs = {}
        self.by_name = {}
        self.methods = {}
        for m, tree in modules.items():
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.add(m + "." + n.name, n, m, None)
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            self.add("%s.%s.%s" % (m, n.name, k.name), k, m,
                                     n.name)
        self.memo = {}
        self.busy = set()

    def add(self, q, node, mod, cls):
        # a setter is looked at next to its getter
        while q in self.defs:
            q += "'"
        self.defs[q] = (node, mod, cls)
        self.by_name.setdefault(node.name, []).append(q)
        if cls:
            self.methods.setdefault((mod, cls, node.name), q)

    def run(self):
        for q in list(self.defs):
            self.summary(q)
        # a function passed as an argument is called alike everywhere
        for (mod, name), sites in self.sites.items():
            k = max(len(a) for _, _, a in sites)
            for i in range(k):
                vs = [(a[i], q, n) for q, n, a in sites
                      if i < len(a) and a[i] in AXES]
                n_y = sum(v == Y for v, _, _ in vs)
                most = Y if 2 * n_y > len(vs) else X
                for v, q, n in vs:
                    what = "argument %d of %s" % (i + 1, name)
                    if len(vs) > 1:
                        self.checked.add((q, n.lineno, n.col_offset, what,
                                          most))
                    if v != most:
                        self.findings[(q, what, most)] = (
                            n.lineno, mod, q, v, most, what)

    def summary(self, q):
        if q in self.memo:
            return self.memo[q]
        if q in self.busy or len(self.busy) > 40:
            return Summary()
        self.busy.add(q)
        s = Summary()
        node, mod, cls = self.defs[q]
        Walk(self, q, node, mod, cls, s).go()
        self.busy.discard(q)
        self.memo[q] = s
        return s


class Walk:
    def __init__(self, A, q, node, mod, cls, s):
        self.A, self.q, self.node, self.mod, self.cls = A, q, node, mod, cls
        self.s = s
        self.index = {}
        self.depth = 0
        self.default = None
        self.used = {}
        self.keys = {}
        self.flat = set()
        self.three = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript):
                k = const(n.slice)
                self.keys.setdefault(shaped(n.value), set()).add(k)
                if isinstance(n.slice, ast.Tuple) and len(
                        n.slice.elts) == 2:
                    self.flat.add(ast.dump(n.value))
                if isinstance(n.value, ast.Name):
                    self.used.setdefault(n.value.id, set()).add(k)
                    if isinstance(n.slice, ast.Tuple) and len(
                            n.slice.elts) == 3:
                        self.three.add(shaped(n.value))
                if k == 2 or k == -3 or isinstance(n.slice, ast.Slice):
                    self.three.add(shaped(n.value))
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Tuple) and len(
                        n.targets[0].elts) == 3:
                self.three.add(shaped(n.value))

    def go(self):
        env = {}
        a = self.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        tags = dict(PARAMS.get(self.q, {}))
        for p, (ax, base) in declared(ps).items():
            # (x, y) alone may be any two operands
            if base != "*":
                tags.setdefault(p, ax)
        self.tags = tags
        for i, p in enumerate(ps):
            self.index[p] = i
            t = tags.get(p)
            if t is None and p in ("shape", "dshape", "shape_3d",
                                   "parent_shape"):
                env[p] = SHAPE
                continue
            if t is None and p.split("_")[-1] in ("affine", "transform"):
                env[p] = AFF
                continue
            env[p] = P((i, None)) if t is None else Tup(t) if isinstance(
                t, tuple) else Dict(t) if isinstance(t, dict) else t
        self.params = ps
        self.body(self.node.body, env)

    # -- checks ----------------------------------------------------------
    def need(self, v, ax, node, what):
        if ax is None:
            return
        if isinstance(v, P):
            r = self.s.req.setdefault(tuple(v), {})
            r.setdefault(ax, what)
            return
        if v == Y or v == X:
            k = (self.q, node.lineno, node.col_offset, what, ax)
            self.A.checked.add(k)
            if v != ax:
                self.A.findings.setdefault(
                    (self.q, what, ax), (node.lineno, self.mod, self.q,
                                         v, ax, what))

    def tail(self, vals, node, what):
        """The last two of a tuple are row and column."""
        if len(vals) >= 2:
            self.need(vals[-2], Y, node, what)
            self.need(vals[-1], X, node, what)

    def agree(self, a, b, node, what):
        if isinstance(a, P) and b in AXES:
            self.need(a, b, node, what)
        elif isinstance(b, P) and a in AXES:
            self.need(b, a, node, what)
        elif a in AXES and b in AXES:
            self.need(a, b, node, what)

    # -- statements --------------------------------------------------------
    def body(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                if self.default is not None and isinstance(t, ast.Name) and \
                        t.id == self.default and isinstance(
                            s.value, ast.Name):
                    # one value for both axes
                    env[t.id] = v
                    continue
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            t = as_load(s.target)
            v = self.binop(s, s.op, self.ev(t, env), self.ev(s.value, env),
                           s.value)
            if isinstance(s.target, ast.Name):
                env[s.target.id] = v
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else None
            want = RESULTS.get(self.q)
            if want is not None:
                if isinstance(want, tuple):
                    if isinstance(v, Tup) and len(v) == len(want):
                        for x, w in zip(v, want):
                            self.need(x, w, s, "order of the result")
                else:
                    self.need(v, want, s, "the result")
            self.s.ret = join(self.s.ret, v)
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            skip = none_test(s.test)
            a, b = dict(env), dict(env)
            keep, self.default = self.default, skip
            self.body(s.body, a)
            self.default = keep
            self.body(s.orelse, b)
            for k in set(a) | set(b):
                if k == skip and not stops(s.body) and axis(env.get(k)):
                    continue
                if stops(s.body):
                    env[k] = b.get(k)
                elif stops(s.orelse):
                    env[k] = a.get(k)
                elif k in a and k in b:
                    env[k] = join(a[k], b[k])
                else:
                    env[k] = a.get(k, b.get(k))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.iterate(s.iter, env)
            for _ in range(2):
                e = dict(env)
                self.bind(s.target, it, e)
                self.body(s.body, e)
                for k in e:
                    env[k] = join(env[k], e[k]) if k in env else e[k]
            self.body(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test, env)
                e = dict(env)
                self.body(s.body, e)
                for k in e:
                    env[k] = join(env[k], e[k]) if k in env else e[k]
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr, env)
            self.body(s.body, env)
        elif isinstance(s, ast.Try):
            self.body(s.body, env)
            for h in s.handlers:
                self.body(h.body, dict(env))
            self.body(s.orelse, env)
            self.body(s.finalbody, env)
        elif isinstance(s, ast.FunctionDef):
            e = dict(env)
            a = s.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                e[x.arg] = None
            if a.vararg:
                e[a.vararg.arg] = None
            if a.kwarg:
                e[a.kwarg.arg] = None
            keep = self.s.ret, self.q
            # the result of a nested function is not the function's result
            q, self.q = self.q, self.q + "." + s.name
            self.s.ret = NONE
            self.body(s.body, e)
            self.s.ret = keep[0]
            self.q = q
            env[s.name] = Fn((s, env))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test, env)
        elif isinstance(s, ast.Raise):
            pass

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            if isinstance(self.tags.get(t.id), str):
                self.need(v, self.tags[t.id], t, "stored in %s" % t.id)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x,
                              None, env)
                return
            vs = self.unpack(v, n)
            d = declared([x.id for x in t.elts if isinstance(x, ast.Name)])
            for x, w in zip(t.elts, vs):
                if isinstance(x, ast.Name) and w in AXES and \
                        d.get(x.id, (0, "*"))[1] != "*":
                    self.need(w, d[x.id][0], t, "unpacked into %s" % x.id)
            for x, w in zip(t.elts, vs):
                self.bind(x, w, env)
        elif isinstance(t, ast.Subscript):
            k = const(t.slice)
            if isinstance(k, str) and k in KEYS:
                self.need(v, KEYS[k], t, "stored under %r" % k)
            base = self.ev(t.value, env)
            if isinstance(base, Dict) and isinstance(t.value, ast.Name):
                d = Dict(base)
                if const(t.slice) is not None:
                    d[const(t.slice)] = v
                env[t.value.id] = d
                return
            self.subscript(t, env)
            if isinstance(t.value, ast.Name) and isinstance(
                    t.slice, ast.Tuple) and len(t.slice.elts) == 2 and \
                    isinstance(const(t.slice.elts[0]), int):
                k = "%s#%d" % (t.value.id, const(t.slice.elts[0]))
                env[k] = join(env[k], v) if k in env else v
        elif isinstance(t, ast.Attribute):
            if t.attr in ("x", "y", "row_slice", "col_slice"):
                self.need(v, ATTR[t.attr], t, "stored as .%s" % t.attr)

    def unpack(self, v, n):
        if isinstance(v, Tup) and len(v) == n:
            return list(v)
        if v is NZ:
            return {2: [Y, X], 3: [B, Y, X]}.get(n, [None] * n)
        if v in SHAPES_OF:
            return [None] * (n - 3) + ([B] if n >= 3 else []) + [Y, X] \
                if n >= 2 else [None]
        if v is COORDS and n == 2:
            return [Y, X]
        if isinstance(v, P) and v[1] is None:
            return [P((v[0], (i, n))) for i in range(n)]
        if axis(v):
            return [v] * n
        return [None] * n

    def iterate(self, node, env):
        """What a loop over the expression binds."""
        if isinstance(node, ast.Call):
            f = callee(node)
            if f in ("range", "prange"):
                r = None
                for x in node.args:
                    w = self.ev(x, env)
                    if axis(w):
                        r = w if r is None or r == w else N
                return r
            if f == "enumerate" and node.args:
                e = self.iterate(node.args[0], env)
                return Tup((e if axis(e) else None, e))
            if f == "zip":
                return Tup(self.iterate(x, env) for x in node.args
                           if not isinstance(x, ast.Starred))
            if f == "ndindex":
                vs = [self.ev(x, env) for x in node.args
                      if not isinstance(x, ast.Starred)]
                if len(vs) == 1:
                    return Tup((B, Y, X)) if vs[0] in SHAPES_OF else vs[0]
                return Tup(vs)
        return elem(self.ev(node, env))

    # -- expressions ---------------------------------------------------------
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return None

    def e_Constant(self, n, env):
        return NONE if n.value is None else ("c", n.value)

    def e_Name(self, n, env):
        return env.get(n.id)

    def e_Tuple(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            out = []
            for x in n.elts:
                if not isinstance(x, ast.Starred):
                    out.append(self.ev(x, env))
                    continue
                v = self.ev(x.value, env)
                if not isinstance(v, Tup):
                    return None
                out.extend(v)
            return Tup(out)
        return Tup(self.ev(x, env) for x in n.elts)

    e_List = e_Tuple

    def e_Dict(self, n, env):
        d = Dict()
        for k, v in zip(n.keys, n.values):
            w = self.ev(v, env)
            c = const(k) if k is not None else None
            if c is None:
                continue
            d[c] = w
            if isinstance(c, str) and c in KEYS:
                self.need(w, KEYS[c], v, "the value of %r" % c)
        if set(d) == {0, 1, 2}:
            self.need(d[1], Y, n, "axis 1 of an overlap")
            self.need(d[2], X, n, "axis 2 of an overlap")
        return d

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return None
        return v

    def e_IfExp(self, n, env):
        self.ev(n.test, env)
        return join(self.ev(n.body, env), self.ev(n.orelse, env))

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env[n.target.id] = v
        return v

    def e_Lambda(self, n, env):
        e = dict(env)
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            e[x.arg] = None
        self.ev(n.body, e)
        return None

    def e_ListComp(self, n, env):
        e = dict(env)
        tup = None
        for g in n.generators:
            src = self.ev(g.iter, env) if len(n.generators) == 1 else None
            it = self.iterate(g.iter, e)
            if src is COORDS:
                src = Tup((Y, X))
            if isinstance(src, Tup) and not g.ifs:
                tup = src
            self.bind(g.target, it, e)
            for c in g.ifs:
                self.ev(c, e)
        if tup is not None:
            # element by element
            out = []
            for x in tup:
                k = dict(e)
                self.bind(n.generators[0].target, x, k)
                out.append(self.ev(n.elt, k))
            return Tup(out)
        v = self.ev(n.elt, e)
        if isinstance(v, Tup):
            return elem(v)
        return v if axis(v) or isinstance(v, P) else None

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, env):
        e = dict(env)
        for g in n.generators:
            self.bind(g.target, self.iterate(g.iter, e), e)
        self.ev(n.key, e)
        self.ev(n.value, e)
        return None

    def e_BinOp(self, n, env):
        return self.binop(n, n.op, self.ev(n.left, env),
                          self.ev(n.right, env), n.right)

    def binop(self, n, op, a, b, right=None):
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if a is AFF and b is AFF:
                return AFF
            if a is AFF:
                if isinstance(b, Tup) and len(b) == 2:
                    self.need(b[0], X, n, "first operand of a transform")
                    self.need(b[1], Y, n, "second operand of a transform")
                return Tup((X, Y))
            if isinstance(b, Tup) or isinstance(a, Tup):
                return self.each(op, a, b)
            if axis(a) and axis(b):
                return N
            if axis(a) and isc(b):
                return a
            if axis(b) and isc(a):
                return b
            # may be the size of a plane, or a position in one
            return N if axis(a) or axis(b) else None
        if isinstance(op, ast.Sub):
            self.agree(a, b, n, "difference of rows and columns")
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a + b)
            if isinstance(a, Tup) or isinstance(b, Tup):
                return self.each(op, a, b)
            if axis(a) and axis(b):
                return a if a == b else N
            if axis(a) or axis(b):
                return axis(a) or axis(b)
            if isinstance(a, P) and isc(b):
                return a
            return None
        if isinstance(op, (ast.FloorDiv, ast.Mod, ast.LShift, ast.RShift)):
            if axis(a) and axis(b):
                # a position in a plane by the size of a row
                return N if a != b or isinstance(op, ast.Mod) else None
            if axis(a):
                return a
            return a if isinstance(a, P) and isc(b) else None
        if isinstance(a, Tup) or isinstance(b, Tup):
            return self.each(op, a, b)
        if isinstance(op, ast.Div):
            if axis(a) and axis(b):
                return N if a != b else None
            return axis(a) or axis(b)
        if axis(a) or axis(b):
            return N
        return None

    def each(self, op, a, b):
        """Arithmetic of an array with one element per axis."""
        if isinstance(a, Tup) and isinstance(b, Tup):
            return None
        t, o = (a, b) if isinstance(a, Tup) else (b, a)
        if not all(x in AXES for x in t) or axis(o):
            return None
        return t

    def e_Attribute(self, n, env):
        b = self.ev(n.value, env)
        if b is AFF:
            return {"a": X, "c": X, "e": Y, "f": Y, "xoff": X,
                    "yoff": Y}.get(n.attr, AFF)
        if n.attr in ("T", "mT") and not axis(b):
            return TURNED
        if b is TURNED:
            return TURNED if n.attr in ("data", "values") else None
        if n.attr in SHAPES:
            if axis(b):
                return b
            return SHAPE if n.attr == "shape" else SHAPE3
        if n.attr in ("affine", "parent_affine"):
            return AFF
        if n.attr == "resolution":
            return Tup((X, Y))
        if n.attr in ("bounds", "total_bounds"):
            return Tup((X, Y, X, Y))
        if n.attr in ("geobox", "parent_geobox"):
            return GBOX
        if n.attr == "coordinates":
            return COORDS
        if n.attr in ATTR:
            return ATTR[n.attr]
        if axis(b) in (Y, X) and n.attr in (
                "start", "stop", "values", "data", "size", "value", "T",
                "min", "max", "astype", "magnitude", "blocks"):
            return b
        if isinstance(b, Tup) and n.attr in ("T",):
            return None
        return None

    def e_Subscript(self, n, env):
        return self.subscript(n, env)

    def subscript(self, n, env):
        b = self.ev(n.value, env)
        sl = n.slice
        k = const(sl)
        if isinstance(n.value, ast.Attribute) and n.value.attr in (
                "s_", "index_exp") and isinstance(sl, ast.Tuple):
            out = Tup(self.ev(x, env) for x in sl.elts)
            self.tail(out, n, "index")
            return out
        if isinstance(k, str):
            if k == "chunk-location":
                return Tup((B, Y, X))
            if k == "array-location":
                return Tup((B, Y, X))
            if k in ("shape", "num-chunks", "chunk-shape"):
                return SHAPE
            if k in KEYS and not isinstance(b, Dict):
                return KEYS[k]
            if isinstance(b, Dict):
                return b.get(k)
            return None
        if b in SHAPES_OF:
            return self.of_shape(n, k, b)
        if b is NZ:
            if isinstance(n.value, ast.Name):
                ks = self.used.get(n.value.id, set())
                if ks == {0, 1}:
                    return (Y, X).__getitem__(k)
                if ks == {0, 1, 2}:
                    return (B, Y, X)[k]
            return None
        if isinstance(b, Dict):
            return b.get(k)
        if isinstance(b, Tup):
            if isinstance(k, int) and -len(b) <= k < len(b):
                return b[k]
            if isinstance(sl, ast.Slice):
                lo = const(sl.lower) if sl.lower is not None else None
                hi = const(sl.upper) if sl.upper is not None else None
                st = const(sl.step) if sl.step is not None else None
                if (sl.lower is None or lo is not None) and (
                        sl.upper is None or hi is not None) and (
                            sl.step is None or st is not None):
                    return Tup(b[slice(lo, hi, st)])
            return elem(b)
        if isinstance(sl, ast.Tuple):
            es = sl.elts
            vals = [self.index_value(x, env) for x in es]
            simple = not any(
                isinstance(x, ast.Constant) and x.value is None or
                isinstance(x, ast.Attribute) and x.attr == "newaxis" or
                isinstance(x, ast.Starred) for x in es)
            if b is TURNED:
                return None
            if len(es) == 2 and any(
                    isinstance(const(x), int) for x in es):
                # a table with a fixed row or column
                return None
            if simple and len(es) in (2, 3) and not axis(b):
                for i, (want, name) in enumerate(
                        ((X, "last index"), (Y, "index before the last"))):
                    for v in vals[-1 - i]:
                        self.need(v, want, n, name)
            return None
        v = self.ev(sl, env)
        if v in SHAPES_OF:
            return None
        if b is TURNED:
            return TURNED
        if isinstance(v, Tup) and len(v) in (2, 3) and not isinstance(
                sl, ast.List):
            self.tail(v, n, "index")
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper):
                if x is not None and b in AXES:
                    self.agree(b, self.ev(x, env), n,
                               "position looked up on an axis")
        elif axis(v) or isinstance(v, P):
            if isinstance(sl, ast.Attribute) and sl.attr in (
                    "x_dim", "y_dim"):
                return v
            if b in AXES and v in AXES or isinstance(b, P) and v in AXES \
                    or b in AXES and isinstance(v, P):
                self.agree(b, v, n, "position looked up on an axis")
        if isinstance(k, int) and isinstance(n.value, ast.Name):
            w = env.get("%s#%d" % (n.value.id, k))
            if w is not None:
                return w
        if axis(b):
            return b
        if isinstance(b, P):
            if b[1] is None and isinstance(k, int):
                return P((b[0], (k, None)))
            return b
        return None

    def index_value(self, x, env):
        if isinstance(x, ast.Slice):
            out = []
            for y in (x.lower, x.upper):
                if y is not None:
                    out.append(self.ev(y, env))
            return out
        return [self.ev(x, env)]

    def of_shape(self, n, k, b):
        d = shaped(n.value)
        if isinstance(k, int):
            if k == -1 or k == 2:
                return X
            if k == -2:
                return Y
            if k == 1 and (b is SHAPE3 or d in self.three or
                           0 not in self.keys.get(d, ())
                           and d not in self.flat):
                return Y
            if k == 0 and (b is SHAPE3 or d in self.three) or k == -3:
                return B
            return None
        if isinstance(n.slice, ast.Slice):
            lo = const(n.slice.lower) if n.slice.lower is not None else None
            if n.slice.upper is None and lo in (1, -2) and \
                    n.slice.step is None:
                return Tup((Y, X))
        return None

    def e_Slice(self, n, env):
        r = None
        for y in (n.lower, n.upper):
            if y is not None:
                v = self.ev(y, env)
                if axis(v):
                    if r is not None:
                        self.agree(r, v, y, "ends of a slice")
                    r = v if r is None or r == v else N
        return r

    def e_Compare(self, n, env):
        vs = [self.ev(x, env) for x in [n.left] + n.comparators]
        if isinstance(n.left, ast.Attribute) and n.left.attr == "dims" and \
                isinstance(vs[1], Tup):
            self.tail(Tup(dim(x) for x in vs[1]), n, "order of dimensions")
        for o, a, b in zip(n.ops, vs, vs[1:]):
            if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.agree(a, b, n, "comparison of rows and columns")
        return None

    def e_Call(self, n, env):
        f = callee(n)
        base = None
        if isinstance(n.func, ast.Attribute):
            base = self.ev(n.func.value, env)
        elif not isinstance(n.func, ast.Name):
            self.ev(n.func, env)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                args.extend(v if isinstance(v, Tup) else [None] * 9)
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg:
                kw[k.arg] = v
                if k.arg in KEYS:
                    self.need(v, KEYS[k.arg], k.value,
                              "argument %s= of %s" % (k.arg, f))
                elif k.arg in ("x_dim", "y_dim"):
                    self.need(dim(v), ATTR[k.arg], k.value,
                              "argument %s= of %s" % (k.arg, f))
                elif k.arg == "chunks" and isinstance(v, Tup) and len(v) == 3:
                    self.tail(v, k.value, "chunks given to %s" % f)
                elif k.arg == "dims" and isinstance(v, Tup):
                    self.tail(Tup(dim(x) for x in v), k.value,
                              "dimensions given to %s" % f)
                elif k.arg in ("height", "width"):
                    self.need(v, ATTR[k.arg], k.value,
                              "argument %s= of %s" % (k.arg, f))
        if f == "append" and args and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Name):
            k = n.func.value.id
            old = env.get(k)
            env[k] = args[0] if old is None or old == () or \
                old == args[0] else N if axis(old) and axis(args[0]) else None
            return None
        if f == "get" and isinstance(base, Dict) and n.args:
            k = const(n.args[0])
            if k is None and isc(args[0]):
                k = args[0][1]
            return base.get(k)
        if f in ("swapaxes", "moveaxis", "rot90", "rollaxis") or \
                f == "transpose" and not (len(args) == 3 and all(
                    isc(a) and isinstance(a[1], str) for a in args)):
            return TURNED
        if base is TURNED or args and args[0] is TURNED:
            return TURNED
        if f == "transpose" and len(args) == 3:
            self.tail(Tup(dim(x) for x in args), n, "order of dimensions")
            return None
        # affine transforms
        if f == "Affine":
            for i, (v, ax) in enumerate(zip(args, (X, None, X, None, Y, Y))):
                self.need(v, ax, n, "coefficient %d of an affine" % i)
            return AFF
        if f in ("translation", "scale") and len(args) == 2:
            self.need(args[0], X, n, "x of Affine.%s" % f)
            self.need(args[1], Y, n, "y of Affine.%s" % f)
            return AFF
        if f in ("identity", "transform", "from_gdal", "from_origin") and (
                base is None or base is AFF):
            return AFF
        if base is AFF:
            return AFF
        if f == "resolution" and isinstance(n.func, ast.Attribute):
            return Tup((X, Y))
        if f == "bounds" and isinstance(n.func, ast.Attribute):
            return Tup((X, Y, X, Y))
        if f == "GeoBox":
            if args and isinstance(args[0], Tup):
                self.tail(args[0], n, "shape of a GeoBox")
            return GBOX
        if f == "values" and base is COORDS:
            return COORDS
        if f in SHAPED or f == "full":
            sh = args[0] if args else kw.get("shape")
            if f == "broadcast_to" and len(args) > 1:
                sh = args[1]
            if isinstance(sh, Tup):
                self.tail(sh, n, "shape of a new array")
            return None
        if f in RESHAPE and isinstance(n.func, ast.Attribute):
            sh = args[0] if len(args) == 1 else Tup(args)
            if f == "chunk" and isinstance(sh, Dict):
                return None
            if isinstance(sh, Tup) and len(sh) >= 2:
                if len(sh) == 3 or f != "reshape":
                    self.tail(sh, n, "shape given to %s" % f)
                if base in AXES and f == "reshape":
                    rest = [x for x in sh if x != ("c", 1)]
                    if len(rest) == 1 and len(sh) >= 2:
                        at = [i for i, x in enumerate(sh) if x != ("c", 1)][0]
                        if at == len(sh) - 1:
                            self.need(base, X, n, "axis it is laid along")
                        elif at == len(sh) - 2:
                            self.need(base, Y, n, "axis it is laid along")
            return None
        if f == "from_array" and args:
            if "chunks" in kw:
                self.agree(args[0], kw["chunks"], n, "chunks of an axis")
            return args[0] if axis(args[0]) else None
        if f in ("box", "points", "Point", "points_from_xy",
                 "from_xy", "clip_box", "pad_box") and len(
                args) >= 2:
            for i, v in enumerate(args[:4 if "box" in f else 2]):
                self.need(v, (X, Y)[i % 2], n, "coordinate order of %s" % f)
            return None
        if f == "DataArray":
            c = kw.get("coords")
            if isinstance(c, Tup) and len(c) in (2, 3):
                self.tail(c, n, "coordinates of a DataArray")
            return None
        if f == "ravel_multi_index" and args and isinstance(args[0], Tup):
            self.tail(args[0], n, "index")
            if len(args) > 1 and isinstance(args[1], Tup):
                self.tail(args[1], n, "shape")
            return None
        if f == "nonzero" or f == "where" and len(n.args) == 1 and \
                not n.keywords:
            return NZ
        if f == "meshgrid" and len(args) == 2:
            return Tup(args)
        if f == "zip" and args and all(isinstance(a, Tup) for a in args) \
                and len({len(a) for a in args}) == 1:
            return Tup(Tup(col) for col in zip(*args))
        if f in ("tuple", "list") and args and isinstance(args[0], Tup):
            return args[0]
        if f in SAME:
            if isinstance(n.func, ast.Attribute) and axis(base) and (
                    not args or f in ("astype", "sum", "copy", "round",
                                      "cumsum")):
                return base
            if f == "slice":
                if len(args) > 1:
                    self.agree(args[0], args[1], n, "ends of a slice")
                return span(args[0], args[-1]) if len(args) > 1 else None
            if f == "ensure_minimum_chunksize" and len(args) == 2:
                self.agree(args[0], args[1], n, "chunks for an overlap")
                return args[1]
            if f == "compute" and len(args) > 1:
                return Tup(args)
            if isinstance(base, Tup) and f in ("astype", "copy", "round"):
                return base
            for a in args:
                if axis(a) or isinstance(a, P) or isinstance(a, Tup) and \
                        f in ("array", "asarray", "abs", "absolute", "ceil",
                              "floor", "rint", "round", "fabs"):
                    return NONE if a == () else a
            return base if isinstance(base, P) else None
        if f in JOIN:
            if f == "clip" and axis(base):
                return base
            r = None
            for a in args:
                if axis(a):
                    r = a if r is None or r == a else N
            return r if r is not None else (
                base if axis(base) and not args else None)
        return self.package_call(n, f, base, args, kw, env)

    def package_call(self, n, f, base, args, kw, env):
        A = self.A
        q = None
        off = 0
        if isinstance(n.func, ast.Name):
            g = env.get(n.func.id)
            if isinstance(g, Fn):
                return self.inline(g, args, kw)
            if n.func.id in env:
                if (g is None or isinstance(g, P)) and len(args) > 1:
                    self.A.sites.setdefault((self.mod, n.func.id), []).append(
                        (self.q, n, args))
                return None
            cand = [x for x in A.by_name.get(f, ()) if A.defs[x][2] is None]
            own = [x for x in cand if A.defs[x][1] == self.mod]
            cand = own or cand
            q = cand[0] if len(cand) == 1 else None
            if q is None and f[:1].isupper():
                cand = [x for x in A.by_name.get("__init__", ())
                        if A.defs[x][2] == f]
                q = cand[0] if len(cand) == 1 else None
                off = 1
        elif isinstance(n.func, ast.Attribute):
            if isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == "self" and self.cls:
                q = A.methods.get((self.mod, self.cls, f))
            else:
                cand = [x for x in A.by_name.get(f, ()) if A.defs[x][2]]
                free = [x for x in A.by_name.get(f, ())
                        if not A.defs[x][2]]
                if len(cand) == 1 and not free:
                    q = cand[0]
            off = 1
        if q is None:
            return None
        s = A.summary(q)
        node = A.defs[q][0]
        ps = [x.arg for x in node.args.posonlyargs + node.args.args
              + node.args.kwonlyargs]
        vals = {}
        for i, v in enumerate(args):
            if i + off < len(ps):
                vals[i + off] = v
        for k, v in kw.items():
            if k in ps:
                vals[ps.index(k)] = v
        tags = dict(PARAMS.get(q, {}))
        for p, (ax, _) in declared(ps).items():
            tags.setdefault(p, ax)
        for i, v in vals.items():
            p = ps[i]
            t = tags.get(p)
            if isinstance(t, str):
                self.need(v, t, n, "argument %s of %s" % (p, f))
            elif isinstance(t, tuple) and isinstance(v, Tup) and \
                    len(t) == len(v):
                for a, b in zip(t, v):
                    self.need(b, a, n, "argument %s of %s" % (p, f))
        for (i, el), axes in s.req.items():
            if i not in vals:
                continue
            v = vals[i]
            if el is not None:
                if axis(v):
                    pass
                elif isinstance(v, Tup) and (el[1] is None or
                                           el[1] == len(v)):
                    v = v[el[0]] if -len(v) <= el[0] < len(v) else None
                elif isinstance(v, P) and v[1] is None:
                    v = P((v[0], el))
                else:
                    continue
            for ax, why in axes.items():
                self.need(v, ax, n, "argument %s of %s" % (ps[i], f))
        want = RESULTS.get(q)
        if want is not None:
            return Tup(want) if isinstance(want, tuple) else want
        return self.subst(s.ret, vals)

    def inline(self, g, args, kw):
        node, env = g
        if self.depth > 3:
            return None
        e = dict(env)
        ps = [x.arg for x in node.args.posonlyargs + node.args.args]
        for x in ps + [x.arg for x in node.args.kwonlyargs]:
            e[x] = None
        e.update(zip(ps, args))
        e.update((k, v) for k, v in kw.items() if k in e)
        keep, q = self.s.ret, self.q
        self.q += "." + node.name
        self.s.ret = NONE
        self.depth += 1
        self.body(node.body, e)
        self.depth -= 1
        r = self.s.ret
        self.s.ret, self.q = keep, q
        return None if r == NONE else r

    def subst(self, r, vals):
        if isinstance(r, P):
            if r[1] is None:
                return vals.get(r[0])
            v = vals.get(r[0])
            if axis(v):
                return v
            if isinstance(v, Tup) and -len(v) <= r[1][0] < len(v):
                return v[r[1][0]]
            return None
        if isinstance(r, Tup):
            return Tup(self.subst(x, vals) for x in r)
        return None if r == NONE else r


def span(a, b):
    """slice(a, b)"""
    if isinstance(a, P) and isinstance(b, P) and a[0] == b[0]:
        return a if a == b else P((a[0], None))
    if axis(a) and axis(b):
        return a if a == b else N
    return axis(a) or axis(b)


def shaped(n):
    """The array whose shape or chunks the expression is."""
    return ast.dump(n.value if isinstance(n, ast.Attribute) else n)


def isc(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "c"


def dim(v):
    """The axis a dimension name means."""
    if isc(v) and v[1] in ("x", "y"):
        return KEYS[v[1]]
    return v


def name_axis(p):
    """(axis, name with the axis left out) a parameter name may mean."""
    out = []
    for a, b, ax in (("row", "col", Y), ("col", "row", X)):
        if re.match(r"^n?%ss?$" % a, p):
            out.append((ax, p.replace(a, "*")))
    m = re.match(r"^(row|col)_(slice|start|stop|off|size)s?$", p)
    if m:
        out.append((Y if m.group(1) == "row" else X, "*_" + m.group(2)))
    m = re.match(r"^([xy])(\d*|c|s|i|depth|size|off|res)$", p)
    if m:
        out.append((X if m.group(1) == "x" else Y, "*" + m.group(2)))
    m = re.match(r"^(d|n|min|max|\w+_)([xy])(\d*)$", p)
    if m:
        out.append((X if m.group(2) == "x" else Y,
                    m.group(1) + "*" + m.group(3)))
    return out


def declared(names):
    """Parameters named in pairs, like (xc, yc) or (row, col)."""
    out = {}
    seen = {}
    for p in names:
        for ax, base in name_axis(p):
            seen.setdefault(base, {})[ax] = p
    for base, d in seen.items():
        if len(d) == 2:
            for ax, p in d.items():
                out[p] = (ax, base)
    return out


def const(n):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and \
            isinstance(n.operand, ast.Constant):
        return -n.operand.value
    return None


def callee(n):
    f = n.func
    return f.id if isinstance(f, ast.Name) else (
        f.attr if isinstance(f, ast.Attribute) else "")


def as_load(t):
    return ast.parse(ast.unparse(t), mode="eval").body


def stops(body):
    return bool(body) and isinstance(
        body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def none_test(t):
    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and len(
            t.ops) == 1 and isinstance(t.ops[0], ast.Is) and \
            const(t.comparators[0]) is None:
        return t.left.id
    return None
