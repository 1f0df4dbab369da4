"""Interprocedural abstract interpreter over the Python source of /repo.

Nothing of the analysed package is imported or executed.  Source is parsed
with ``ast``; a forward abstract interpretation maps every expression to a
value term (values.V).  Branches on undecided tests are interpreted on both
sides and joined into ``phi(test, a, b)`` (gated joins, no path enumeration);
loops over unknown iterables are joined into ``mu`` terms; package functions
are inlined (context sensitive) up to a recursion bound; calls that leave the
package become uninterpreted ``call`` terms.  Effects (stores, in-place
operators, external calls, raises, callbacks) are logged as events with their
call stack and the branch conditions in force.
"""
import ast
import builtins
import os
import sys

from .values import (
    FALSE, NONE, TRUE, UNDEF, UNKNOWN, V, children, const, cval, ext,
    fresh_id, is_const, is_ext, mk, show,
)

sys.setrecursionlimit(20000)
REPO = os.environ.get("RTSA_REPO", "/repo")
PKG = "raster_tools"
MAX_UNROLL = 48
MAX_DEPTH = 70


class AnalysisError(Exception):
    pass


# --------------------------------------------------------------------------
# payloads
class FuncInfo:
    __slots__ = ("node", "modname", "frame", "defaults", "kwdefaults", "name",
                 "qual", "flags", "cls", "frozen")

    def __init__(self):
        self.flags = set()
        self.cls = None
        self.frozen = None


class ClassInfo:
    __slots__ = ("name", "modname", "bases", "attrs", "node")


class ObjInfo:
    __slots__ = ("kind", "cls", "site")


class Frame:
    __slots__ = ("fid", "parent", "modname", "func", "globals", "captured")


class Event:
    __slots__ = ("kind", "target", "data", "loc", "stack", "cond", "callback")

    def __init__(self, kind, target, data, loc, stack, cond, callback):
        self.kind = kind
        self.target = target
        self.data = data
        self.loc = loc
        self.stack = stack
        self.cond = cond
        self.callback = callback


class Heap(dict):
    """(base, name) -> value, plus the set of terms with an entry below."""
    __slots__ = ("touched",)

    def __init__(self, touched=()):
        super().__init__()
        self.touched = set(touched)

    def __setitem__(self, key, val):
        t = key[0]
        if t.op not in ("obj", "cls", "func"):
            while isinstance(t, V) and t not in self.touched:
                self.touched.add(t)
                if t.op in ("attr", "sub"):
                    t = t.args[0]
        super().__setitem__(key, val)

    def copy(self):
        h = Heap(self.touched)
        dict.update(h, self)
        return h

    def update(self, other):
        for k, v in other.items():
            self[k] = v


class State:
    __slots__ = ("frames", "heap", "cond")

    def __init__(self, frames=None, heap=None, cond=()):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else Heap()
        self.cond = cond

    def copy(self, fid):
        fr = dict(self.frames)
        if fid in fr:
            fr[fid] = dict(fr[fid])
        return State(fr, self.heap.copy(), self.cond)

    def assume(self, c, pol):
        new = list(self.cond)
        _expand(c, pol, new)
        self.cond = tuple(new)
        return self


def phi_leaves(x, conds=(), d=0):
    if x.op == "phi" and d < 6:
        return phi_leaves(x.args[1], conds + ((x.args[0], True),), d + 1) + \
            phi_leaves(x.args[2], conds + ((x.args[0], False),), d + 1)
    return [(x, conds)]


def _expand(c, pol, out):
    if c.op == "not":
        _expand(c.args[0], not pol, out)
        return
    if (c, pol) not in out:
        out.append((c, pol))
    if c.op == "and" and pol:
        for a in c.args:
            _expand(a, True, out)
    elif c.op == "or" and not pol:
        for a in c.args:
            _expand(a, False, out)


class Out:
    __slots__ = ("fall", "rets", "brk", "cont")

    def __init__(self, fall=None, rets=None, brk=None, cont=None):
        self.fall = fall
        self.rets = rets if rets is not None else []
        self.brk = brk if brk is not None else []
        self.cont = cont if cont is not None else []


# --------------------------------------------------------------------------
# boolean construction
def b_not(a):
    if is_const(a):
        return const(not cval(a))
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def b_and(a, b):
    if is_const(a):
        return b if cval(a) else a
    if is_const(b):
        return a if cval(b) else b
    if a is b:
        return a
    xs = list(a.args) if a.op == "and" else [a]
    for y in (b.args if b.op == "and" else (b,)):
        if y not in xs:
            xs.append(y)
    for x in xs:
        if b_not(x) in xs:
            return FALSE
    return mk("and", *xs)


def b_or(a, b):
    if is_const(a):
        return a if cval(a) else b
    if is_const(b):
        return b if cval(b) else a
    if a is b:
        return a
    xs = list(a.args) if a.op == "or" else [a]
    for y in (b.args if b.op == "or" else (b,)):
        if y not in xs:
            xs.append(y)
    for x in xs:
        if b_not(x) in xs:
            return TRUE
    return mk("or", *xs)


def mkphi(c, a, b):
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if is_const(c):
        return a if truth_const(c) else b
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("phi", c, a, b)


def truth_const(c):
    return bool(cval(c))


def numpyish(t, d=0):
    """Is the value surely an array a numpy function made?"""
    if d > 12:
        return False
    if t.op == "phi":
        return numpyish(t.args[1], d + 1) and numpyish(t.args[2], d + 1)
    if t.op == "call":
        f = t.args[0]
        if f.op == "ext":
            return f.args[0] in ("numpy.atleast_1d", "numpy.asarray",
                                 "numpy.array")
        if f.op == "attr" and f.args[1] in ("ravel", "reshape", "astype"):
            return numpyish(f.args[0], d + 1)
    return False


CMP_NEG = {"!=": "==", "is not": "is", "not in": "in"}
_CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}
_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
    ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&",
    ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
    ast.MatMult: "@",
}
BIN_UFUNC = {
    "+": "add", "-": "subtract", "*": "multiply", "/": "true_divide",
    "//": "floor_divide", "%": "remainder", "**": "power",
    "&": "bitwise_and", "|": "bitwise_or", "^": "bitwise_xor",
    "<<": "left_shift", ">>": "right_shift", "@": "matmul",
}
CMP_UFUNC = {
    "==": "equal", "!=": "not_equal", "<": "less", "<=": "less_equal",
    ">": "greater", ">=": "greater_equal",
}

# kinds -> names for which isinstance() is definitely true
_SEQ = {m + "." + n for m in ("collections.abc", "typing")
        for n in ("Sequence", "Iterable", "Collection", "Sized", "Reversible",
                  "Container")}
_ITER = {x for x in _SEQ if "Sequence" not in x}
_MAP = _ITER | {m + ".Mapping" for m in ("collections.abc", "typing")}
KIND_ISA = {
    "Dataset": {"xarray.Dataset"},
    "DataArray": {"xarray.DataArray"},
    "dask": {"dask.array.Array", "dask.array.core.Array"},
    "numpy": {"numpy.ndarray"},
    "str": {"str"} | _SEQ,
    "int": {"int", "numbers.Number", "numbers.Integral"},
    "float": {"float", "numbers.Number"},
    "bool": {"bool", "int", "numbers.Number", "numbers.Integral"},
    "scalar": {"numbers.Number"},
    "list": {"list"} | _SEQ,
    "tuple": {"tuple"} | _SEQ,
    "dict": {"dict"} | _MAP,
    "set": {"set"} | _ITER,
    "range": {"range"} | _SEQ,
    "slice": {"slice"},
    "func": set(),
    "dtype": {"numpy.dtype"},
    "GeoDataFrame": {"geopandas.GeoDataFrame", "pandas.DataFrame"},
    "GeoSeries": {"geopandas.GeoSeries", "pandas.Series"},
    "daskdf": {"dask_geopandas.GeoDataFrame"},
    "daskgs": {"dask_geopandas.GeoSeries"},
    "NoneType": {"NoneType"},
    "frozenset": {"frozenset"},
    "Affine": {"affine.Affine"},
    "GeoBox": {"odc.geo.geobox.GeoBox"},
    "CRS": set(),
    "ufunc": {"numpy.ufunc"},
}
SCALAR_MAYBE = {
    "scalar": {"int", "float", "bool", "numbers.Integral", "numpy.bool_",
               "numbers.Real", "complex"},
    "bool": {"numpy.bool_"},
}
ALIASES = {
    "dask.array.core.Array": "dask.array.Array",
    "xarray.core.dataarray.DataArray": "xarray.DataArray",
    "xarray.core.dataset.Dataset": "xarray.Dataset",
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "geopandas.geodataframe.GeoDataFrame": "geopandas.GeoDataFrame",
    "numba.njit": "numba.njit",
}

PURE_CALLS = {
    "numpy.isnan", "numpy.can_cast", "dask.is_dask_collection",
    "numpy.isfinite", "numpy.dtype", "numpy.promote_types",
    "numpy.iinfo", "numpy.finfo", "numpy.sqrt", "numpy.abs", "numpy.ceil",
    "numpy.floor", "numpy.isscalar", "len", "hasattr", "callable", "type",
    "numpy.prod", "numpy.issubdtype", "numpy.result_type", "int", "float",
    "bool", "str", "abs", "min", "max", "round", "repr", "os.path.exists",
    "numpy.broadcast_shapes", "numpy.min_scalar_type", "isinstance",
    "math.ceil", "math.floor", "numpy.allclose", "numpy.array_equal",
    "numpy.shape", "numpy.ndim", "numpy.size",
}
PURE_METHODS = {
    "any", "all", "keys", "startswith", "endswith", "lower", "upper",
    "strip", "split", "transform", "resolution", "bounds", "item", "join",
    "splitlines", "rio", "index_of",
}

LIST_MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort",
    "reverse", "update", "add", "discard", "setdefault", "popitem",
    "appendleft", "popleft",
}
DTYPE_NAMES = {
    "bool_", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
    "uint64", "float16", "float32", "float64", "float128", "complex64",
    "complex128", "intp", "bool",
}
BUILTIN_NAMES = set(dir(builtins))


def assigned_names(stmts):
    """Names (re)bound anywhere in stmts, not descending into defs."""
    out = set()

    class A(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_ListComp
        visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    v = A()
    for s in stmts:
        v.visit(s)
    return out


class Interp:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}      # name -> ast
        self.paths = {}
        self.modstate = {}     # name -> 'doing'|'done'
        self.frames = {}       # fid -> Frame
        self.ctl = {}          # term -> terms it is control dependent on
        self.events = []
        self.stack = []        # (funcinfo qual, call node loc)
        self.loc = ("", 0)
        self.mu_init = {}
        self.mu_back = {}
        self.param_kind = {}   # V -> kind string
        self.base = State()
        self.modframe = {}
        self.n_inlined = 0
        self.inlined = set()
        self.opaque = []
        self.callback_depth = 0
        self.record = True
        self.kind_memo = {}
        self.hooks = []        # fn(interp, funcV, args, kwargs, state)->V|None
        self._load()

    # -- loading -----------------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError("package directory not found: " + base)
        for d, _, files in os.walk(base):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                name = ".".join(rel)
                with open(p) as fd:
                    self.modules[name] = ast.parse(fd.read(), p)
                self.paths[name] = p
        for name in list(self.modules):
            self.ensure_module(name)

    def ensure_module(self, name):
        st = self.modstate.get(name)
        if st:
            return
        self.modstate[name] = "doing"
        fr = Frame()
        fr.fid = fresh_id()
        fr.parent = None
        fr.modname = name
        fr.func = None
        fr.globals = set()
        fr.captured = False
        self.frames[fr.fid] = fr
        self.modframe[name] = fr.fid
        self.base.frames[fr.fid] = {
            "__name__": const(name), "__file__": const(self.paths[name]),
        }
        saved = (self.stack, self.loc, self.record)
        self.stack = [("<module %s>" % name, name, 0)]
        out = self.exec_block(self.modules[name].body, self.base, fr.fid)
        # module bodies are executed in place: self.base is the state object
        if out.fall is not None and out.fall is not self.base:
            self.base.frames = out.fall.frames
            self.base.heap = out.fall.heap
            self.base.cond = ()
        self.stack, self.loc, self.record = saved
        self.modstate[name] = "done"

    # -- public API --------------------------------------------------------
    def new_state(self):
        return State({}, Heap(), ())

    def global_value(self, modname, name, st=None):
        st = st or self.base
        self.ensure_module(modname)
        mf = self.modframe[modname]
        d = st.frames.get(mf)
        if d is None:
            d = self.base.frames[mf]
        return d.get(name)

    def param(self, name, kind=None, tag=""):
        p = mk("param", tag, name)
        if kind:
            self.param_kind[p] = kind
        return p

    # -- events ------------------------------------------------------------
    def emit(self, kind, target, data, st):
        if self.record:
            self.events.append(Event(
                kind, target, data, self.loc,
                tuple((q, l) for q, _, l in self.stack), st.cond,
                self.callback_depth,
            ))

    # -- kinds -------------------------------------------------------------
    def is_raster_cls(self, v):
        return v.op == "cls" and v.args[0].endswith(".Raster")

    def kind(self, v):
        k = self.kind_memo.get(v)
        if k is None:
            self.kind_memo[v] = ""
            k = self._kind(v) or ""
            self.kind_memo[v] = k
        return k or None

    def _kind(self, v):
        op, a = v.op, v.args
        if op == "const":
            return {"int": "int", "float": "float", "bool": "bool",
                    "str": "str", "NoneType": "NoneType",
                    "slice": "slice"}.get(a[0])
        if op == "param":
            return self.param_kind.get(v)
        if op == "tuple":
            return "tuple"
        if op == "obj":
            i = v.pay
            if i.kind == "inst":
                return i.cls.args[0].rsplit(".", 1)[-1]
            return i.kind
        if op in ("func", "cls", "partial", "bound", "delayed"):
            return "func"
        if op == "fstr":
            return "str"
        if op in ("cmp", "and", "or", "not", "isinst"):
            if op == "cmp":
                ks = {self.kind(a[1]), self.kind(a[2])}
                for k in ("DataArray", "dask", "numpy"):
                    if k in ks:
                        return k
                if a[0] in ("is", "in"):
                    return "bool"
                if ks <= {"int", "float", "bool", "str", "scalar", "NoneType",
                          "dtype", "tuple", "list"}:
                    return "bool"
                return None
            return "bool" if op in ("isinst",) else None
        if op == "phi":
            k1, k2 = self.kind(a[1]), self.kind(a[2])
            if k1 == k2:
                return k1
            if {k1, k2} <= {"int", "float", "scalar"}:
                return "scalar"
            return None
        if op == "mu":
            return self.kind(self.mu_init[v]) if v in self.mu_init else None
        if op == "elem":
            return self.elem_kind(a[0])
        if op == "bin":
            ks = [self.kind(a[1]), self.kind(a[2])]
            for k in ("Raster", "DataArray", "Dataset", "dask", "GeoDataFrame",
                      "numpy"):
                if k in ks:
                    return k
            if ks[0] == "str" and a[0] in ("+", "%"):
                return "str"
            if ks[0] in ("list", "tuple") and a[0] in ("+", "*"):
                return ks[0]
            if "float" in ks and all(k in ("int", "float", "bool") for k in ks):
                return "float"
            if a[0] == "/" and all(k in ("int", "float", "bool") for k in ks):
                return "float"
            if all(k in ("int", "bool") for k in ks):
                return "int"
            if all(k in ("int", "float", "scalar", "bool") for k in ks):
                return "scalar"
            return None
        if op == "un":
            return self.kind(a[1])
        if op == "store":
            return self.kind(a[0])
        if op == "snap":
            return self.kind(a[0])
        if op == "attr":
            return self.attr_kind(self.kind(a[0]), a[1], a[0])
        if op == "sub":
            if a[0].op == "attr" and a[0].args[1] in ("iloc", "loc"):
                k = self.kind(a[0].args[0])
                return k if k in ("GeoDataFrame", "GeoSeries", "daskdf",
                                  "daskgs") and a[1].op == "listval" else None
            return self.sub_kind(self.kind(a[0]), a[1])
        if op == "call":
            return self.call_kind(v)
        if op == "listval":
            return a[0]
        return None

    def elem_kind(self, it):
        k = self.param_kind.get(it)
        if k and k.startswith("list["):
            return k[5:-1]
        if it.op == "call" and is_ext(it.args[0], "range"):
            return "int"
        if self.kind(it) in ("DataArray", "dask", "numpy"):
            return self.kind(it)
        if self.kind(it) == "str":
            return "str"
        return None

    def attr_kind(self, bk, name, base):
        if bk == "BatchState" and "raster" in name:
            return "Raster"
        if bk == "Raster" and name == "_ds":
            return "Dataset"
        if bk is None and name == "_geo":
            return "daskdf"         # the frame of a Vector
        if bk == "Dataset":
            if name in ("raster", "mask", "x", "y", "band"):
                return "DataArray"
            if name in ("rio", "odc"):
                return name
        if bk == "DataArray":
            if name in ("data", "values"):
                if self.is_coord(base):
                    return "numpy"
                return "dask" if name == "data" else "numpy"
            if name in ("x", "y", "band"):
                return "DataArray"
            if name in ("rio", "odc"):
                return name
            if name == "coords":
                return "coords"
        if bk in ("DataArray", "dask", "numpy", "Raster"):
            if name == "dtype":
                return "dtype"
            if name in ("shape", "chunks", "dims", "chunksize", "numblocks"):
                return "tuple"
            if name in ("ndim", "size", "npartitions", "itemsize", "nbytes"):
                return "int"
            if name in ("T", "real", "imag"):
                return bk
            if name == "blocks":
                return "dask"
        if bk == "dtype":
            if name in ("kind", "name", "str"):
                return "str"
            if name == "itemsize":
                return "int"
            if name == "type":
                return "func"
        return None

    def is_coord(self, v):
        if v.op == "attr" and v.args[1] in ("x", "y", "band"):
            return True
        if v.op == "sub" and is_const(v.args[1]) and cval(v.args[1]) in (
                "x", "y", "band"):
            return True
        if v.op == "sub" and self.kind(v.args[0]) == "coords":
            return True
        if v.op in ("store", "snap"):
            return self.is_coord(v.args[0])
        if v.op == "phi":
            return self.is_coord(v.args[1]) and self.is_coord(v.args[2])
        return False

    def sub_kind(self, bk, idx):
        if bk == "Dataset":
            return "DataArray"
        if bk in ("DataArray", "dask"):
            return bk
        if bk == "numpy":
            return None
        if bk == "coords":
            return "DataArray"
        if bk == "tuple":
            return None
        if bk and bk.startswith("list["):
            return bk[5:-1]
        if bk == "str":
            return "str"
        return None

    DASK_CTORS = {
        "from_array", "from_delayed", "where", "stack", "concatenate",
        "zeros_like", "ones_like", "full_like", "full", "zeros", "ones",
        "empty", "empty_like", "map_blocks", "map_overlap", "isnan",
        "broadcast_to", "isfinite", "logical_or", "logical_and",
        "logical_not", "asarray", "nansum", "block", "unique", "pad",
        "arange", "blockwise", "isin", "nanmin", "nanmax", "asanyarray",
        "expand_dims", "isinf", "rechunk", "sum", "max", "min", "squeeze",
        "coarsen", "blockwise", "overlap", "concatenate",
    }

    def call_kind(self, v):
        f, args, kw, _ = v.args
        if f.op == "func":
            if f.pay.modname == PKG + ".batch" and not \
                    f.pay.name.startswith("_"):
                return "BatchState"
            return None
        if f.op == "ext":
            n = f.args[0]
            if n in ("numpy.dtype",):
                return "dtype"
            if n in ("xarray.Dataset",):
                return "Dataset"
            if n in ("xarray.DataArray", "xarray.zeros_like",
                     "xarray.ones_like", "xarray.full_like"):
                return "DataArray"
            if n in ("xarray.where",):
                return "DataArray"
            if n == "xarray.concat" and args:
                first = args[0]
                if first.op == "listval" and first.args[1]:
                    return self.kind(first.args[1][0])
                if first.op == "listval" and first.args[2]:
                    return self.kind(first.args[2][0])
                return None
            if n.startswith("dask.array.random"):
                return "dask"
            if n.startswith("dask.array.") and n.rsplit(".", 1)[1] in self.DASK_CTORS:
                return "dask"
            if n.startswith("dask_image."):
                return "dask"
            if n in ("len", "int", "round", "id", "hash"):
                return "int"
            if n in ("float", "numpy.float64", "numpy.float32"):
                return "float"
            if n in ("numpy.int64", "numpy.int32"):
                return "int"
            if n in ("str", "repr", "os.path.join", "os.fspath",
                     "os.path.abspath", "os.path.dirname"):
                return "str"
            if n in ("bool", "callable", "hasattr", "isinstance",
                     "dask.is_dask_collection", "numpy.can_cast",
                     "numpy.array_equal", "numpy.allclose", "issubclass"):
                return "bool"
            if n == "range":
                return "range"
            if n in ("list", "sorted"):
                return "list"
            if n == "tuple":
                return "tuple"
            if n == "dict":
                return "dict"
            if n == "set":
                return "set"
            if n == "geopandas.GeoDataFrame":
                return "GeoDataFrame"
            if n == "geopandas.GeoSeries":
                return "GeoSeries"
            if n in ("dask.dataframe.from_delayed", "dask.dataframe.concat",
                     "dask_geopandas.from_geopandas"):
                return "daskdf"
            if n.startswith("numpy.") and "." not in n[6:]:
                fn = n[6:]
                ks = [self.kind(x) for x in args]
                if fn in ("array", "asarray", "atleast_1d", "empty", "zeros",
                          "ones", "full", "empty_like", "arange", "linspace",
                          "zeros_like", "ones_like", "full_like", "stack",
                          "concatenate", "pad", "unique", "atleast_2d",
                          "ascontiguousarray", "asanyarray"):
                    if fn in ("zeros_like", "ones_like", "full_like",
                              "empty_like") and ks and ks[0] == "dask":
                        return "dask"
                    return "numpy"
                if fn == "ceil" or fn == "floor":
                    pass
                for k in ("DataArray", "dask", "Raster"):
                    if k in ks:
                        return k
                if "numpy" in ks and fn not in (
                        "isnan_", "prod", "sum", "max", "min", "all", "any",
                        "size", "ndim"):
                    return "numpy"
                if ks and all(k in ("int", "float", "scalar", "bool")
                              for k in ks):
                    return "bool" if fn.startswith("is") else "scalar"
            return None
        if f.op == "attr":
            b, m = f.args
            bk = self.kind(b)
            if bk == "odc" and m in ("reproject", "assign_crs"):
                return self.rio_owner_kind(b)
            if bk == "rio":
                own = self.rio_owner_kind(b)
                if m.startswith("write_") or m in (
                        "set_spatial_dims", "reproject", "clip_box",
                        "reproject_match", "set_nodata", "set_crs", "clip",
                        "pad_box"):
                    return own
                if m == "transform":
                    return "Affine"
                return None
            if b.op == "call" and b.args[0].op == "attr" and \
                    b.args[0].args[1] in ("coarsen", "rolling") and \
                    m != "construct":
                return self.kind(b.args[0].args[0])
            if bk in ("DataArray", "Dataset"):
                if m in ("any", "all", "sum", "max", "min", "mean", "astype",
                         "copy", "chunk", "rename", "isel", "sel",
                         "transpose", "expand_dims", "assign_coords",
                         "reindex", "where", "fillna", "notnull", "isnull",
                         "round", "compute", "load", "persist", "drop_vars",
                         "reset_coords", "squeeze", "pad", "coarsen_",
                         "clip", "sortby", "drop", "to_dataset_", "pipe",
                         "isin", "stack", "interp", "swap_dims",
                         "reduce", "assign_attrs", "median", "std", "var",
                         "prod", "count", "broadcast_like", "set_index",
                         "reset_index", "unify_chunks", "map_blocks"):
                    return bk
                if m in ("to_numpy",):
                    return "numpy"
                if m in ("get_index",):
                    return None
                return None
            if bk == "dask":
                if m in ("to_delayed",):
                    return "numpy"
                if m in ("compute",):
                    return "numpy"
                if m in ("astype", "rechunk", "reshape", "copy", "map_blocks",
                         "map_overlap", "ravel", "any", "all", "sum", "max",
                         "min", "mean", "round", "transpose", "squeeze",
                         "flatten", "clip", "persist", "repeat", "std",
                         "var", "prod"):
                    return "dask"
                return None
            if bk == "numpy":
                if m in ("astype", "copy", "ravel", "reshape", "flatten",
                         "squeeze", "transpose", "round", "repeat", "view",
                         "clip"):
                    return "numpy"
                return None
            if bk == "str":
                if m in ("lower", "upper", "strip", "format", "replace",
                         "join", "lstrip", "rstrip", "title"):
                    return "str"
                if m in ("split", "splitlines"):
                    return "list"
                if m in ("startswith", "endswith", "isdigit"):
                    return "bool"
            if bk == "dtype" and m == "type":
                return "scalar"
            if bk in ("GeoDataFrame", "daskdf", "GeoSeries", "daskgs"):
                if m in ("copy", "to_crs", "set_index", "reset_index",
                         "rename", "assign", "drop", "dissolve",
                         "repartition", "set_crs", "explode", "dropna"):
                    return bk
                if m == "compute":
                    return {"daskdf": "GeoDataFrame",
                            "daskgs": "GeoSeries"}.get(bk, bk)
        if f.op == "attr" and f.args[1] == "type":
            return "scalar"
        return None

    def rio_owner_kind(self, b):
        """Kind of the object whose .rio accessor b is."""
        if b.op == "attr":
            return self.kind(b.args[0])
        if b.op == "phi":
            k = self.rio_owner_kind(b.args[1])
            return k if k == self.rio_owner_kind(b.args[2]) else None
        return None

    # -- name lookup -------------------------------------------------------
    def lookup(self, name, st, fid):
        fr = self.frames[fid]
        f = fid
        while f is not None:
            d = st.frames.get(f)
            if d is None:
                d = self.base.frames.get(f)
            if d is not None and name in d:
                return d[name]
            fr = self.frames[f]
            if fr.parent is None:
                break
            f = fr.parent
        mod = fr.modname
        mf = self.modframe[mod]
        d = st.frames.get(mf)
        if d is None:
            d = self.base.frames.get(mf, {})
        if name in d:
            return d[name]
        d = self.base.frames.get(mf, {})
        if name in d:
            return d[name]
        if name in BUILTIN_NAMES:
            if name == "True":
                return TRUE
            return ext(name)
        return mk("unbound", name)

    # -- heap --------------------------------------------------------------
    def hget(self, st, key):
        v = st.heap.get(key)
        if v is None:
            v = self.base.heap.get(key)
        return v

    def snapshot(self, v, st, _d=0):
        """Freeze the present contents of a mutable value into a term."""
        if v.op == "obj":
            i = v.pay
            if _d > 6:
                return v
            if i.kind in ("list", "set"):
                items = self.hget(st, (v, "items")) or ()
                rest = self.hget(st, (v, "rest")) or ()
                return mk("listval", i.kind,
                          tuple(self.snapshot(x, st, _d + 1) for x in items),
                          tuple(self.snapshot(x, st, _d + 1) for x in rest))
            if i.kind == "dict":
                items = self.hget(st, (v, "items")) or ()
                rest = self.hget(st, (v, "rest")) or ()
                return mk("dictval",
                          tuple((k, self.snapshot(x, st, _d + 1))
                                for k, x in items),
                          tuple(self.snapshot(x, st, _d + 1) for x in rest))
            return v
        if v.op == "tuple":
            return mk("tuple", *[self.snapshot(x, st, _d + 1) for x in v.args])
        if v.op in ("const", "ext", "func", "cls", "mod"):
            return v
        c = self.hget(st, (v, "$content"))
        if c is not None:
            v0 = c
        else:
            v0 = v
        if v.op == "phi":
            if not st.heap.touched:
                return v
            memo = {}

            def rec(x):
                r = memo.get(x)
                if r is None:
                    if x.op == "phi":
                        r = mkphi(x.args[0], rec(x.args[1]), rec(x.args[2]))
                    else:
                        r = self.snapshot(x, st, _d + 1)
                    memo[x] = r
                return r

            return rec(v)
        if v in st.heap.touched and v.op in (
                "call", "attr", "param", "sub", "elem"):
            ups = self._overrides(v, st)
            if ups:
                return mk("snap", v0, ups)
        return v0

    def _overrides(self, v, st):
        out = []
        idx = getattr(st, "heap")
        for (b, n), val in idx.items():
            if b.op in ("obj", "cls", "func") or n == "$content" and b is v:
                continue
            if not isinstance(n, str) or n in ("items", "rest"):
                continue
            path = [n]
            t = b
            ok = t is v
            while not ok and t.op in ("attr", "sub"):
                if t.op == "attr":
                    path.append(t.args[1])
                elif is_const(t.args[1]) and isinstance(cval(t.args[1]), str):
                    path.append(cval(t.args[1]))
                else:
                    break
                t = t.args[0]
                ok = t is v
            if ok:
                out.append((tuple(reversed(path)), val))
        return tuple(out)

    # -- attribute access ---------------------------------------------------
    def class_lookup(self, cls, name, st):
        seen = []
        work = [cls]
        while work:
            c = work.pop(0)
            if c in seen:
                continue
            seen.append(c)
            if c.op != "cls":
                continue
            v = self.hget(st, (c, "attr:" + name))
            if v is not None:
                return v
            work.extend(c.pay.bases)
        return None

    def cls_of(self, v, st):
        if v.op == "obj" and v.pay.kind == "inst":
            return v.pay.cls
        k = self.kind(v)
        if k and k in self.kind_classes():
            return self.kind_classes()[k]
        return None

    def kind_classes(self):
        r = {}
        for mod, name, k in (
            (PKG + ".raster", "Raster", "Raster"),
            (PKG + ".vector", "Vector", "Vector"),
            (PKG + ".blocks", "GeoBlockInfo", "GeoBlockInfo"),
            (PKG + ".general", "ModelPredictAdaptor", "ModelPredictAdaptor"),
            (PKG + ".batch", "_BatchScripParserState", "BatchState"),
        ):
            if mod in self.modframe:
                v = self.base.frames[self.modframe[mod]].get(name)
                if v is not None and v.op == "cls":
                    r[k] = v
        if len(r) >= 3 and all(self.modstate.get(m) == "done" for m in self.modules):
            self.kind_classes = lambda: r
        return r

    def getattr(self, v, name, st, node=None):
        op = v.op
        if op == "phi":
            if name == "__doc__":
                return mk("attr", v, name)
            return self.phi_map(
                v, lambda x: self.getattr(x, name, st), st)
        if op == "ext":
            n = v.args[0] + "." + name
            n = ALIASES.get(n, n)
            if n == "numpy.newaxis":
                return NONE
            if name in ("nin", "nout", "signature") and \
                    v.args[0].startswith("numpy."):
                u = v.args[0][6:]
                if u in UFUNC_NAMES:
                    if name == "signature":
                        return NONE
                    if name == "nout":
                        return const(2 if u in ("divmod", "modf", "frexp")
                                     else 1)
                    return const(2 if u in BINARY_UFUNCS else 1)
            if n == "sys.version_info":
                return mk("tuple", const(3), const(12), const(0))
            return ext(n)
        if op == "mod":
            m = v.args[0]
            sub = m + "." + name
            val = self.global_value(m, name, st)
            if val is not None:
                return val
            if sub in self.modules:
                self.ensure_module(sub)
                return mk("mod", sub)
            return mk("attr", v, name)
        if op == "cls":
            if name == "__name__":
                return const(v.pay.name)
            r = self.class_lookup(v, name, st)
            if r is not None:
                if r.op == "classmethod":
                    return self.mkbound(r.args[0], v)
                if r.op == "staticmethod":
                    return r.args[0]
                return r
            return mk("attr", v, name)
        if op == "super":
            cls, selfv = v.args
            for b in cls.pay.bases:
                if b.op == "cls":
                    r = self.class_lookup(b, name, st)
                    if r is not None:
                        return self._bind(r, selfv, st)
            return mk("attr", v, name)
        if op == "func":
            if name == "__name__":
                return const(v.pay.name)
            if name in ("py_func",):
                return v
            h = self.hget(st, (v, name))
            return h if h is not None else mk("attr", v, name)
        if op == "obj":
            i = v.pay
            if i.kind in ("list", "dict", "set"):
                return mk("attr", v, name)
            h = self.hget(st, (v, name))
            if h is not None:
                return h
            if i.kind == "inst":
                if name == "__class__":
                    return i.cls
                r = self.class_lookup(i.cls, name, st)
                if r is not None:
                    return self._bind(r, v, st)
            return mk("attr", v, name)
        if op == "tuple" and name in ("_fields",):
            return mk("attr", v, name)
        h = self.hget(st, (v, name))
        if h is not None:
            return h
        if op == "snap":
            hit = None
            sub = []
            for path, val in v.args[1]:
                if path == (name,):
                    hit = val
                elif path[0] == name:
                    sub.append((path[1:], val))
            if hit is not None and not sub:
                return hit
            inner = hit if hit is not None else self.getattr(v.args[0], name, st)
            if sub:
                return mk("snap", inner, tuple(sub))
            return inner
        cls = self.cls_of(v, st)
        if cls is not None:
            r = self.class_lookup(cls, name, st)
            if r is not None:
                if r.op == "slot":
                    return mk("attr", v, name)
                return self._bind(r, v, st)
        if name == "nodata" and op == "attr" and v.args[1] == "rio":
            r = self.meta_nodata(v.args[0])
            if r is not None and not (r.op == "attr" and
                                      r.args[1] == "nodata"):
                return r
        if name in ("rio", "odc") and op == "call" and \
                v in st.heap.touched:
            return mk("attr", self.snapshot(v, st), name)
        # Dataset built from literal dict: resolve variables
        r = self.ds_field(v, name, st)
        if r is not None:
            return r
        return mk("attr", v, name)

    def meta_nodata(self, v, d=0):
        """Null value recorded on a data array, when the source shows it."""
        while d < 200:
            d += 1
            if v.op in ("store", "snap"):
                if v.op == "store" and is_const(v.args[1]) and \
                        cval(v.args[1]) in ("raster",):
                    return None
                v = v.args[0]
                continue
            if v.op == "phi":
                a = self.meta_nodata(v.args[1], d)
                b = self.meta_nodata(v.args[2], d) if a is not None else None
                return None if b is None else mkphi(v.args[0], a, b)
            if v.op == "attr" and v.args[1] == "rio":
                v = v.args[0]
                continue
            if v.op == "attr" and self.kind(v) == "DataArray" and \
                    v.args[1] == "raster":
                return mk("attr", mk("attr", v, "rio"), "nodata")
            if v.op != "call":
                return None
            f, args = v.args[0], v.args[1]
            if f.op == "attr":
                m = f.args[1]
                b = f.args[0]
                if self.kind(b) == "rio":
                    if m == "write_nodata" and args:
                        return args[0]
                    if m not in ("write_crs", "write_transform",
                                 "set_spatial_dims", "set_crs", "clip_box",
                                 "write_coordinate_system"):
                        return None
                elif m not in ("transpose", "isel", "sel", "chunk", "copy",
                               "expand_dims", "squeeze", "assign_coords",
                               "drop_vars", "reset_coords", "rename"):
                    return None
                elif m == "copy" and any(k == "data" for k, _ in v.args[2]):
                    return None
                v = b
                continue
            return None
        return None

    def ds_field(self, v, name, st):
        if v.op == "snap" and any(p[0] == name for p, _ in v.args[1]):
            return self.getattr(v, name, st)
        if v.op == "call" and is_ext(v.args[0], "xarray.Dataset") and v.args[1]:
            d = v.args[1][0]
            if d.op == "dictval":
                for k, x in d.args[0]:
                    if is_const(k) and cval(k) == name:
                        return x
        if v.op == "call" and v.args[0].op == "attr":
            f = v.args[0]
            b = f.args[0]
            if self.kind(b) == "rio":
                if f.args[1] in ("write_crs", "set_crs"):
                    x = self.rio_field(b, name, st)
                    if x is not None:
                        return self.phi_map(x, lambda t: mk(
                            "call", mk("attr", mk("attr", t, "rio"),
                                       f.args[1]), *v.args[1:]), st)
            elif f.args[1] in ("copy", "chunk") and not v.args[1]:
                return self.ds_field(b, name, st)
        return None

    def rio_field(self, b, name, st):
        """Variable of the dataset whose .rio accessor b is."""
        if b.op == "phi":
            x = self.rio_field(b.args[1], name, st)
            y = self.rio_field(b.args[2], name, st) if x is not None else None
            return None if y is None else mkphi(b.args[0], x, y)
        if b.op == "attr":
            return self.ds_field(b.args[0], name, st)
        return None

    def _bind(self, r, selfv, st):
        if r.op == "property":
            return self.call(r.args[0], (selfv,), {}, st, None)
        if r.op == "func":
            return self.mkbound(r, selfv)
        if r.op == "classmethod":
            return self.mkbound(r.args[0], self.cls_of(selfv, st) or selfv)
        if r.op == "staticmethod":
            return r.args[0]
        return r

    def mkbound(self, f, selfv):
        return mk("bound", f, selfv)

    def setattr(self, base, name, val, st):
        if base.op == "phi":
            # weak update on both
            for side, pol in ((base.args[1], True), (base.args[2], False)):
                d = self.decided(base.args[0], st)
                if d is not None and d != pol:
                    continue
                old = self.getattr(side, name, st)
                c = base.args[0]
                nv = mkphi(c, val, old) if pol else mkphi(c, old, val)
                self.setattr(side, name, val if d is not None else nv, st)
            return
        self.emit("setattr", base, (name, val), st)
        if base.op == "cls":
            st.heap[(base, "attr:" + name)] = val
            return
        val = self.freeze_arr(val, st)
        st.heap[(base, name)] = val

    def freeze_arr(self, val, st):
        if val.op in ("call", "attr", "sub", "store"):
            return self.snapshot(val, st)
        return val

    def phi_map(self, v, f, st, join=mkphi):
        """Apply f to the leaves of a phi DAG (each shared node once)."""
        memo = {}

        def rec(x):
            r = memo.get(x)
            if r is None:
                if x.op != "phi":
                    r = f(x)
                else:
                    d = self.decided(x.args[0], st)
                    if d is not None:
                        r = rec(x.args[1] if d else x.args[2])
                    else:
                        r = join(x.args[0], rec(x.args[1]), rec(x.args[2]))
                memo[x] = r
            return r

        return rec(v)

    # -- conditions ----------------------------------------------------------
    def decided(self, c, st):
        if is_const(c):
            return truth_const(c)
        for k, pol in st.cond:
            if k is c:
                return pol
        if c.op == "not":
            d = self.decided(c.args[0], st)
            return None if d is None else not d
        if c.op == "and":
            ds = [self.decided(a, st) for a in c.args]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
        if c.op == "or":
            ds = [self.decided(a, st) for a in c.args]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        return None

    def truth(self, v, st):
        """Truth value of v as a boolean term."""
        if is_const(v):
            return const(bool(cval(v)))
        if v.op in ("func", "cls", "bound", "partial", "mod"):
            return TRUE
        if v.op == "ext":
            return TRUE if v.args[0] not in ("typing.TYPE_CHECKING",) else FALSE
        if v.op == "tuple":
            return const(len(v.args) > 0)
        if v.op == "obj":
            k = v.pay.kind
            if k in ("list", "dict", "set"):
                if self.hget(st, (v, "items")):
                    return TRUE
                if not self.hget(st, (v, "rest")):
                    return FALSE
                return mk("truth", v, self.snapshot(v, st))
            return TRUE
        if v.op == "phi":
            return self.phi_map(v, lambda x: self.truth(x, st), st,
                                self.phi_bool)
        if v.op == "fstr":
            return TRUE
        d = self.decided(v, st)
        if d is not None:
            return const(d)
        if self.kind(v) in ("DataArray", "dask", "Dataset"):
            self.emit("force", v, ("truth",), st)
        return v

    def phi_bool(self, c, ta, tb):
        if ta is tb:
            return ta
        if is_const(ta) and is_const(tb):
            return c if truth_const(ta) else b_not(c)
        if is_const(ta):
            return b_or(c, tb) if truth_const(ta) else b_and(b_not(c), tb)
        if is_const(tb):
            return b_or(b_not(c), ta) if truth_const(tb) else b_and(c, ta)
        return mkphi(c, ta, tb)

    # -- statements ------------------------------------------------------------
    def exec_block(self, stmts, st, fid):
        out = Out()
        for s in stmts:
            self.loc = (self.frames[fid].modname, getattr(s, "lineno", 0))
            o = self.exec_stmt(s, st, fid)
            out.rets.extend(o.rets)
            out.brk.extend(o.brk)
            out.cont.extend(o.cont)
            st = o.fall
            if st is None:
                break
        out.fall = st
        return out

    def exec_stmt(self, s, st, fid):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%s" % (
                type(s).__name__, self.frames[fid].modname, s.lineno))
        return m(s, st, fid)

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return Out(st)
        self.ev(s.value, st, fid)
        return Out(st)

    def s_Pass(self, s, st, fid):
        return Out(st)

    def s_Global(self, s, st, fid):
        self.frames[fid].globals.update(s.names)
        return Out(st)

    s_Nonlocal = s_Global

    def s_Import(self, s, st, fid):
        for a in s.names:
            top = a.name if a.asname else a.name.split(".")[0]
            if top == PKG or top.startswith(PKG + "."):
                self.ensure_module(top)
                v = mk("mod", top)
            else:
                v = ext(top)
            self.bind(a.asname or top, v, st, fid)
        return Out(st)

    def s_ImportFrom(self, s, st, fid):
        mod = s.module or ""
        if s.level:
            cur = self.frames[fid].modname
            path = self.paths[cur]
            parts = cur.split(".")
            if not path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            if mod == PKG or mod.startswith(PKG + "."):
                self.ensure_module(mod)
                v = self.global_value(mod, a.name, st)
                if v is None:
                    v = self.global_value(mod, a.name)
                if v is None and mod + "." + a.name in self.modules:
                    self.ensure_module(mod + "." + a.name)
                    v = mk("mod", mod + "." + a.name)
                if v is None:
                    v = mk("missing", mod, a.name)
                    self.emit("missing_import", v, (mod, a.name), st)
            else:
                n = mod + "." + a.name
                v = ext(ALIASES.get(n, n))
            self.bind(nm, v, st, fid)
        return Out(st)

    def bind(self, name, v, st, fid):
        fr = self.frames[fid]
        if name in fr.globals:
            # global / nonlocal: find the owner
            f = fr.parent
            while f is not None and name not in st.frames.get(f, {}):
                f = self.frames[f].parent
            target = f if f is not None else self.modframe[fr.modname]
            self.emit("setglobal", const(name), (fr.modname, v), st)
            st.frames[target] = dict(
                st.frames.get(target) or self.base.frames.get(target, {}))
            st.frames[target][name] = v
            return
        st.frames[fid][name] = v

    def s_FunctionDef(self, s, st, fid):
        v = self.mkfunc(s, st, fid)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fid)
            v = self.decorate(dv, v, st, fid, d)
        self.bind(s.name, v, st, fid)
        return Out(st)

    def mkfunc(self, node, st, fid, name=None):
        info = FuncInfo()
        info.node = node
        info.frame = fid
        f = fid
        while f is not None and not self.frames[f].captured:
            self.frames[f].captured = True
            f = self.frames[f].parent
        info.modname = self.frames[fid].modname
        a = node.args
        info.defaults = [self.ev(d, st, fid) for d in a.defaults]
        info.kwdefaults = [self.ev(d, st, fid) if d is not None else None
                           for d in a.kw_defaults]
        info.name = name or getattr(node, "name", "<lambda>")
        fr = self.frames[fid]
        pre = fr.func.qual + "." if fr.func is not None else info.modname + "."
        info.qual = pre + info.name
        v = mk("func", fresh_id())
        v.pay = info
        return v

    def decorate(self, dv, fv, st, fid, node):
        if dv.op == "ext":
            n = dv.args[0]
            if n == "property":
                return mk("property", fv)
            if n == "classmethod":
                return mk("classmethod", fv)
            if n == "staticmethod":
                return mk("staticmethod", fv)
            if n in ("dask.delayed", "dask.delayed.delayed"):
                return mk("delayed", fv)
            if n in ("numba.jit", "numba.njit", "numba.extending.register_jitable"):
                fv.pay.flags.add("jit")
                return fv
            if n in ("functools.lru_cache", "functools.cache"):
                return fv
        if dv.op == "deco":
            kind, f, args, kw = dv.args
            if kind == "jit":
                if fv.op == "func":
                    fv.pay.flags.add("jit")
                    for k, x in kw:
                        if k == "parallel" and is_const(x) and cval(x):
                            fv.pay.flags.add("parallel")
                return fv
            if kind == "identity":
                return fv
            if kind == "dropped":
                return fv
        if dv.op == "attr" and dv.args[1] in ("setter", "getter", "deleter"):
            return dv.args[0]
        r = self.call(dv, (fv,), {}, st, node, fid)
        return r

    def s_ClassDef(self, s, st, fid):
        bases = [self.ev(b, st, fid) for b in s.bases]
        info = ClassInfo()
        info.name = s.name
        info.modname = self.frames[fid].modname
        info.bases = bases
        info.node = s
        cv = mk("cls", info.modname + "." + s.name)
        cv.pay = info
        # class body executed in its own frame
        fr = Frame()
        fr.fid = fresh_id()
        fr.parent = fid
        fr.modname = info.modname
        fr.func = _QualHolder(info.modname + "." + s.name)
        fr.globals = set()
        fr.captured = False
        self.frames[fr.fid] = fr
        st.frames[fr.fid] = {}
        o = self.exec_block(s.body, st, fr.fid)
        body = (o.fall or st).frames[fr.fid]
        for k, v in body.items():
            if v.op == "func":
                v.pay.cls = cv
                v.pay.frame = fid
            elif v.op in ("property", "classmethod", "staticmethod"):
                if v.args[0].op == "func":
                    v.args[0].pay.cls = cv
                    v.args[0].pay.frame = fid
            st.heap[(cv, "attr:" + k)] = v
        if st is not o.fall and o.fall is not None:
            for k, v in body.items():
                o.fall.heap[(cv, "attr:" + k)] = v
            st = o.fall
        self.bind(s.name, cv, st, fid)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, fid)
            nm = dv.args[0] if dv.op == "ext" else (
                dv.args[0].args[0] if dv.op == "call" and dv.args[0].op == "ext"
                else "")
            if nm.startswith("dataclasses.dataclass"):
                fields = []
                for b in s.body:
                    if isinstance(b, ast.AnnAssign) and isinstance(
                            b.target, ast.Name):
                        fields.append(b.target.id)
                st.heap[(cv, "attr:$fields")] = mk(
                    "tuple", *[const(f) for f in fields])
        for b in bases:
            if b.op == "cls":
                hook = self.class_lookup(b, "__init_subclass__", st)
                if hook is not None and hook.op in ("func", "classmethod"):
                    f = hook.args[0] if hook.op == "classmethod" else hook
                    self.call(f, (cv,), {}, st, s, fid)
        return Out(st)

    def s_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else NONE
        return Out(None, [(st.cond, v, st)])

    def s_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)
        return Out(st)

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        return Out(st)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if not star:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.unpack(v, i, n, st), st, fid)
            else:
                k = star[0]
                seq = self.known_seq(v, st)
                if seq is not None and len(seq) >= n - 1:
                    after = n - k - 1
                    for i in range(k):
                        self.assign(t.elts[i], seq[i], st, fid)
                    mid = seq[k: len(seq) - after]
                    self.assign(t.elts[k].value, self.mklist(mid, st), st, fid)
                    for i in range(after):
                        self.assign(t.elts[k + 1 + i],
                                    seq[len(seq) - after + i], st, fid)
                else:
                    for i, e in enumerate(t.elts):
                        if i == k:
                            self.assign(e.value, mk(
                                "sub", self.snapshot(v, st),
                                mk("slice", const(k),
                                   const(k - n + 1) if k - n + 1 else NONE,
                                   NONE)), st, fid)
                        else:
                            j = i if i < k else i - n
                            self.assign(e, self.subscript(
                                v, const(j), st), st, fid)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fid)
            self.loc = (self.frames[fid].modname, t.lineno)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fid)
            i = self.ev(t.slice, st, fid)
            self.loc = (self.frames[fid].modname, t.lineno)
            self.setitem(b, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        else:
            raise AnalysisError("assign target %s" % type(t).__name__)

    def unpack(self, v, i, n, st):
        seq = self.known_seq(v, st)
        if seq is not None:
            return seq[i] if i < len(seq) else UNKNOWN
        if v.op == "phi":
            return self.phi_map(v, lambda x: self.unpack(x, i, n, st), st)
        return self.subscript(v, const(i), st)

    def setitem(self, b, i, v, st):
        if b.op == "phi":
            c = b.args[0]
            d = self.decided(c, st)
            if d is not None:
                return self.setitem(b.args[1] if d else b.args[2], i, v, st)
            for side, pol in ((b.args[1], True), (b.args[2], False)):
                self._setitem(side, i, v, st, c if pol else b_not(c))
            return
        self._setitem(b, i, v, st, None)

    def _setitem(self, b, i, v, st, guard):
        self.emit("setitem", b, (i, v), st)
        if b.op == "obj" and b.pay.kind in ("list", "dict"):
            items = self.hget(st, (b, "items")) or ()
            rest = self.hget(st, (b, "rest")) or ()
            if b.pay.kind == "dict":
                if self.is_key(i) and not guard:
                    new, hit = [], False
                    for k, x in items:
                        if k is i:
                            new.append((k, v))
                            hit = True
                        else:
                            new.append((k, x))
                    if not hit:
                        new.append((i, v))
                    st.heap[(b, "items")] = tuple(new)
                elif self.is_key(i):
                    new, hit = [], False
                    for k, x in items:
                        if k is i:
                            new.append((k, mkphi(guard, v, x)))
                            hit = True
                        else:
                            new.append((k, x))
                    if not hit:
                        new.append((i, mkphi(guard, v, UNDEF)))
                    st.heap[(b, "items")] = tuple(new)
                else:
                    st.heap[(b, "rest")] = self.addrest(rest, v)
            else:
                if is_const(i) and isinstance(cval(i), int) and not rest \
                        and -len(items) <= cval(i) < len(items) and not guard:
                    new = list(items)
                    new[cval(i)] = v
                    st.heap[(b, "items")] = tuple(new)
                else:
                    st.heap[(b, "items")] = ()
                    r = rest
                    for x in items:
                        r = self.addrest(r, x)
                    st.heap[(b, "rest")] = self.addrest(r, v)
            return
        # Dataset variable assignment behaves like attribute
        if is_const(i) and isinstance(cval(i), str) and self.kind(b) in (
                "Dataset",):
            st.heap[(b, cval(i))] = self.freeze_arr(v, st)
            return
        prev = self.hget(st, (b, "$content")) or b
        new = mk("store", prev, self.snapshot(i, st), self.snapshot(v, st))
        if guard is not None:
            new = mkphi(guard, new, prev)
        st.heap[(b, "$content")] = new
        # writing through a view/attribute also updates the owner
        if b.op == "attr" and b.args[1] in ("data", "values"):
            own = b.args[0]
            st.heap[(own, "data")] = new

    def addrest(self, rest, v):
        if v in rest:
            return rest
        if len(rest) > 24:
            return rest
        return rest + (v,)

    def is_key(self, i):
        if is_const(i):
            return True
        if i.op in ("ext", "cls", "func"):
            return True
        if i.op == "call" and is_ext(i.args[0], "numpy.dtype"):
            return True
        if i.op == "tuple":
            return all(self.is_key(x) for x in i.args)
        return False

    MUTABLE_KINDS = {"numpy", "DataArray", "Dataset", "list", "set", "dict",
                     "GeoDataFrame"}

    def s_AugAssign(self, s, st, fid):
        opn = _BIN[type(s.op)]
        cur_node = s.target
        load = ast.copy_location(_as_load(cur_node), cur_node)
        cur = self.ev(load, st, fid)
        val = self.ev(s.value, st, fid)
        self.loc = (self.frames[fid].modname, s.lineno)
        if cur.op == "obj" and cur.pay.kind in ("list", "set") :
            self.emit("aug", cur, (opn, val), st)
            self.list_extend(cur, val, st)
            if not isinstance(cur_node, ast.Name):
                self.assign(cur_node, cur, st, fid)
            return Out(st)
        res = self.binop(opn, cur, val, st, fid, inplace=True)
        k = self.kind(cur)
        cls = self.cls_of(cur, st)
        if cls is None and k not in (
                "int", "float", "str", "bool", "scalar", "tuple", "dask",
                "NoneType") and cur.op not in ("const",):
            # possibly in place: the object itself changes
            self.emit("aug", cur, (opn, val), st)
            if k in self.MUTABLE_KINDS:
                prev = self.hget(st, (cur, "$content")) or cur
                st.heap[(cur, "$content")] = mk(
                    "bin", opn, prev if prev is not cur else cur,
                    self.snapshot(val, st))
                if isinstance(cur_node, ast.Name):
                    return Out(st)
                res = st.heap[(cur, "$content")]
        self.assign(cur_node, res, st, fid)
        return Out(st)

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fid)
                i = self.ev(t.slice, st, fid)
                self.emit("delitem", b, (i,), st)
                if b.op == "obj" and b.pay.kind == "dict" and self.is_key(i):
                    st.heap[(b, "items")] = tuple(
                        kv for kv in (self.hget(st, (b, "items")) or ())
                        if kv[0] is not i)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fid)
                self.emit("delattr", b, (t.attr,), st)
            elif isinstance(t, ast.Name):
                st.frames[fid].pop(t.id, None)
        return Out(st)

    def s_Assert(self, s, st, fid):
        c = self.truth(self.ev(s.test, st, fid), st)
        if is_const(c):
            if not truth_const(c):
                self.emit("raise", NONE, ("AssertionError", c), st)
                return Out(None)
            return Out(st)
        self.emit("assert", c, (), st)
        st.assume(c, True)
        return Out(st)

    def s_Raise(self, s, st, fid):
        v = self.ev(s.exc, st, fid) if s.exc is not None else NONE
        self.loc = (self.frames[fid].modname, s.lineno)
        self.emit("raise", v, (), st)
        return Out(None)

    def s_Break(self, s, st, fid):
        return Out(None, brk=[st])

    def s_Continue(self, s, st, fid):
        return Out(None, cont=[st])

    def s_If(self, s, st, fid):
        c = self.truth(self.ev(s.test, st, fid), st)
        d = self.decided(c, st)
        if d is not None:
            return self.exec_block(s.body if d else s.orelse, st, fid)
        base = st.cond
        sa = st.copy(fid).assume(c, True)
        sb = st.copy(fid).assume(c, False)
        if self.contradiction(sa):
            sb.cond = sb.cond
            return self.exec_block(s.orelse, sb, fid)
        oa = self.exec_block(s.body, sa, fid)
        ob = self.exec_block(s.orelse, sb, fid)
        out = Out()
        out.rets = oa.rets + ob.rets
        out.brk = oa.brk + ob.brk
        out.cont = oa.cont + ob.cont
        out.fall = self.join(c, oa.fall, ob.fall, base)
        return out

    def contradiction(self, st):
        return False

    def join(self, c, sa, sb, base):
        if sa is None:
            return sb
        if sb is None:
            return sa
        frames = {}
        for f in set(sa.frames) | set(sb.frames):
            da, db = sa.frames.get(f), sb.frames.get(f)
            if da is db or db is None:
                frames[f] = da
            elif da is None:
                frames[f] = db
            else:
                d = {}
                for k in list(da) + [k for k in db if k not in da]:
                    va, vb = da.get(k, UNDEF), db.get(k, UNDEF)
                    d[k] = va if va is vb else mkphi(c, va, vb)
                frames[f] = d
        heap = Heap()
        ha, hb = sa.heap, sb.heap
        if ha is hb:
            heap = ha
        else:
            for k in list(ha) + [k for k in hb if k not in ha]:
                va, vb = ha.get(k), hb.get(k)
                if va is vb:
                    heap[k] = va
                    continue
                heap[k] = self.join_heap(c, k, va, vb)
                if heap[k] is None:
                    del heap[k]
        # conditions: keep the common prefix
        cond = []
        for x, y in zip(sa.cond, sb.cond):
            if x == y:
                cond.append(x)
            else:
                break
        st = State(frames, heap, tuple(cond))
        return st

    def join_heap(self, c, key, va, vb):
        b, n = key
        if n in ("items", "rest"):
            if va is None:
                va = self.base.heap.get(key)
            if vb is None:
                vb = self.base.heap.get(key)
            if va is None:
                return vb if n == "rest" or True else None
            if vb is None:
                return va
            if n == "rest":
                r = va
                for x in vb:
                    r = self.addrest(r, x)
                return r
            if b.pay.kind == "dict":
                da, db = dict(va), dict(vb)
                ks = [k for k, _ in va] + [k for k, _ in vb if k not in da]
                return tuple((k, mkphi(c, da.get(k, UNDEF), db.get(k, UNDEF))
                              if da.get(k) is not db.get(k) else da[k])
                             for k in ks)
            if len(va) == len(vb):
                return tuple(mkphi(c, x, y) for x, y in zip(va, vb))
            # different lengths: guard the surplus
            n_ = min(len(va), len(vb))
            out = [mkphi(c, x, y) for x, y in zip(va[:n_], vb[:n_])]
            longer, pol = (va, True) if len(va) > len(vb) else (vb, False)
            for x in longer[n_:]:
                out.append(mk("opt", c if pol else b_not(c), x))
            return tuple(out)
        if isinstance(n, str):
            dflt = None
            if va is None:
                va = self.base.heap.get(key)
            if vb is None:
                vb = self.base.heap.get(key)
            if n == "$content":
                dflt = b
            elif n.startswith("attr:") or b.op == "obj":
                dflt = UNDEF
            else:
                dflt = mk("attr", b, n)
            return mkphi(c, va if va is not None else dflt,
                         vb if vb is not None else dflt)
        return va

    # loops ---------------------------------------------------------------
    def s_For(self, s, st, fid):
        it = self.ev(s.iter, st, fid)
        seq = self.known_seq(it, st)
        if seq is not None and len(seq) <= MAX_UNROLL:
            return self.unrolled(s, seq, st, fid)
        if it.op == "phi":
            c = it.args[0]
            sa_, sb_ = (self.known_seq(it.args[1], st),
                        self.known_seq(it.args[2], st))
            if sa_ is not None and sb_ is not None and max(
                    len(sa_), len(sb_)) <= MAX_UNROLL:
                base = st.cond
                s1 = st.copy(fid).assume(c, True)
                s2 = st.copy(fid).assume(c, False)
                o1 = self.unrolled(s, sa_, s1, fid)
                o2 = self.unrolled(s, sb_, s2, fid)
                o = Out(self.join(c, o1.fall, o2.fall, base),
                        o1.rets + o2.rets, o1.brk + o2.brk,
                        o1.cont + o2.cont)
                return o
        return self.abstract_loop(
            s, st, fid,
            lambda s_: self.assign(s.target, self.elem_of(it, s_), s_, fid),
            it)

    def unrolled(self, s, seq, st, fid):
        out = Out()
        exits = []
        base = st.cond
        for x in seq:
            if x.op == "opt":
                # element present only under a condition
                c, x = x.args
                s1 = st.copy(fid).assume(c, True)
                s2 = st.copy(fid).assume(c, False)
                self.assign(s.target, x, s1, fid)
                o = self.exec_block(s.body, s1, fid)
                f = self.join_many([o.fall] + o.cont, base)
                exits.extend(o.brk)
                out.rets.extend(o.rets)
                st = self.join(c, f, s2, base)
                continue
            self.assign(s.target, x, st, fid)
            o = self.exec_block(s.body, st, fid)
            out.rets.extend(o.rets)
            exits.extend(o.brk)
            st = self.join_many([o.fall] + o.cont, base)
            if st is None:
                break
        if st is not None and s.orelse:
            o = self.exec_block(s.orelse, st, fid)
            out.rets.extend(o.rets)
            out.brk.extend(o.brk)
            out.cont.extend(o.cont)
            st = o.fall
        out.fall = self.join_many([st] + exits, base)
        return out

    def join_many(self, states, base):
        states = [x for x in states if x is not None]
        if not states:
            return None
        # first listed state is the default (fall-through); the others are
        # entered under the conditions they add to base
        cur = states[0]
        for o in states[1:]:
            c = self.path_cond(o.cond, base)
            cur = self.join(c, o, cur, base)
        return cur

    def path_cond(self, cond, base):
        n = 0
        for x, y in zip(cond, base):
            if x != y:
                break
            n += 1
        c = TRUE
        for k, pol in cond[n:]:
            c = b_and(c, k if pol else b_not(k))
        if is_const(c):
            return mk("opaque", fresh_id())
        return c

    def s_While(self, s, st, fid):
        return self.abstract_loop(s, st, fid, None, None)

    def abstract_loop(self, s, st, fid, bind_target, it):
        names = [n for n in assigned_names(s.body) if n in st.frames[fid]]
        base = st.cond
        pre = st.copy(fid)
        changed = None
        for attempt in (0, 1):
            cur = pre.copy(fid)
            mus = {}
            for n in sorted(names):
                iv = cur.frames[fid][n]
                m = mk("mu", fresh_id(), n)
                self.mu_init[m] = iv
                mus[n] = m
                cur.frames[fid][n] = m
            hmus = {}
            if changed:
                for key in changed:
                    b, n = key
                    if n == "items":
                        # fold known items into rest
                        items = self.hget(cur, key) or ()
                        rest = self.hget(cur, (b, "rest")) or ()
                        if b.pay.kind == "dict":
                            keys = changed[key]
                            new = []
                            for k, x in items:
                                if k in keys:
                                    m = mk("mu", fresh_id(), "item")
                                    self.mu_init[m] = x
                                    hmus[(b, "item", k)] = m
                                    new.append((k, m))
                                else:
                                    new.append((k, x))
                            cur.heap[key] = tuple(new)
                        else:
                            for x in items:
                                rest = self.addrest(rest, x)
                            for x in changed[key]:
                                rest = self.addrest(rest, x)
                            cur.heap[key] = ()
                            cur.heap[(b, "rest")] = rest
                    elif n == "rest":
                        rest = self.hget(cur, key) or ()
                        for x in changed[key]:
                            rest = self.addrest(rest, x)
                        cur.heap[key] = rest
                    else:
                        iv = self.hget(cur, key)
                        if iv is None:
                            iv = b if n == "$content" else mk("attr", b, n)
                        m = mk("mu", fresh_id(), str(n))
                        self.mu_init[m] = iv
                        hmus[key] = m
                        cur.heap[key] = m
            head = cur.copy(fid)
            rec = self.record
            if attempt == 0:
                self.record = False
            test = None
            if it is None:
                test = self.truth(self.ev(s.test, cur, fid), cur)
                head = cur.copy(fid)
                if not is_const(test):
                    cur.assume(test, True)
            else:
                cur.assume(mk("iter", fresh_id(), self.snapshot(it, cur)),
                           True)
                bind_target(cur)
            o = self.exec_block(s.body, cur, fid)
            self.record = rec
            end = self.join_many([o.fall] + o.cont, base)
            exits = list(o.brk)
            # heap changes
            if attempt == 0:
                changed = {}
                for stt in ([end] if end is not None else []) + exits:
                    for key, val in stt.heap.items():
                        if self.hget(head, key) is not val:
                            b, n = key
                            if b.op == "obj" and b.args[0] not in self._known_before(head, b):
                                continue
                            if n == "items":
                                if b.pay.kind == "dict":
                                    old = dict(self.hget(head, key) or ())
                                    ch = changed.setdefault(key, set())
                                    for k, x in val:
                                        if old.get(k) is not x:
                                            ch.add(k)
                                else:
                                    ch = changed.setdefault(key, [])
                                    for x in val:
                                        ch.append(x)
                            elif n == "rest":
                                changed.setdefault(key, []).extend(val)
                            elif isinstance(n, str):
                                changed[key] = True
                # values bound to mus of the first attempt must not leak
                if changed and not mus and False:
                    pass
                # rerun with changed heap (always, to record events once)
                for ch in changed.values():
                    pass
                # elements discovered in attempt 0 mention stale mus; drop
                for key in list(changed):
                    if isinstance(changed[key], list):
                        changed[key] = []
                continue
        # attempt 1 done: bind back edges
        for n, m in mus.items():
            back = end.frames[fid].get(n, m) if end is not None else m
            self.mu_back[m] = back
        for key, m in hmus.items():
            if len(key) == 3:
                items = dict((self.hget(end, (key[0], "items")) or ()) if end is not None else ())
                self.mu_back[m] = items.get(key[2], m)
            else:
                self.mu_back[m] = (end.heap.get(key, m) if end is not None
                                   else m)
        self.loop_iter = getattr(self, "loop_iter", {})
        for m in list(mus.values()) + list(hmus.values()):
            self.loop_iter[m] = it
            self.ctl[m] = (it if it is not None else test,)
        for b, _ in changed or ():
            self.ctl[b] = self.ctl.get(b, ()) + (
                it if it is not None else test,)
        # state after the loop: head values (covering zero or more
        # iterations); containers take the end-of-body summary
        after = head
        after.cond = base
        if end is not None:
            for key, val in end.heap.items():
                b, n = key
                if n in ("rest",) and b.op == "obj":
                    r = self.hget(after, key) or ()
                    for x in val:
                        r = self.addrest(r, x)
                    after.heap[key] = r
                elif n == "items" and b.op == "obj":
                    if b.pay.kind == "dict":
                        cur_i = dict(self.hget(after, key) or ())
                        new = list(self.hget(after, key) or ())
                        for k, x in val:
                            if k not in cur_i:
                                new.append((k, mkphi(mk("opaque", fresh_id()), x, UNDEF)))
                        after.heap[key] = tuple(new)
                    elif self.hget(after, key) is not None:
                        r = self.hget(after, (b, "rest")) or ()
                        for x in val:
                            if x not in (self.hget(after, key) or ()):
                                r = self.addrest(r, x)
                        after.heap[(b, "rest")] = r
                    else:
                        after.heap[key] = val
                elif key not in after.heap:
                    after.heap[key] = val
            # names first bound inside the body
            for n, v in end.frames[fid].items():
                if n not in after.frames[fid]:
                    after.frames[fid][n] = v
            for f, d in end.frames.items():
                if f not in after.frames:
                    after.frames[f] = d
        out = Out()
        out.rets = o.rets
        if s.orelse:
            o2 = self.exec_block(s.orelse, after, fid)
            out.rets = out.rets + o2.rets
            out.brk, out.cont = o2.brk, o2.cont
            after = o2.fall
        if it is None and is_const(test) and truth_const(test):
            # while True: only leaves through break
            after = None
        for b in exits:
            c = mk("opaque", fresh_id())
            self.ctl[c] = tuple(x for x, _ in b.cond if (x, _) not in base)
            b.cond = base
            after = self.join(c, b, after, base) if after is not None else b
        if after is not None:
            after.cond = base
        out.fall = after
        return out

    def _known_before(self, head, b):
        # objects existing before the loop have an entry in head.heap/base
        if (b, "items") in head.heap or (b, "items") in self.base.heap or \
                any(k[0] is b for k in head.heap):
            return {b.args[0]}
        return ()

    def elem_of(self, it, st):
        if it.op == "obj" and it.pay.kind in ("list", "set"):
            items = self.hget(st, (it, "items")) or ()
            rest = self.hget(st, (it, "rest")) or ()
            vals = list(items) + list(rest)
            if len(vals) == 1:
                v = vals[0]
                return v.args[1] if v.op == "opt" else v
            if vals:
                v = vals[0]
                for x in vals[1:]:
                    v = mkphi(mk("opaque", fresh_id()), x, v)
                return v
        if it.op == "zip":
            return mk("tuple", *[self.elem_of(x, st) for x in it.args])
        if it.op == "enumerate":
            return mk("tuple", mk("idx", it.args[0]),
                      self.elem_of(it.args[0], st))
        if it.op == "items":
            return mk("tuple", mk("keyof", it.args[0]),
                      mk("valof", it.args[0]))
        if it.op == "phi":
            return self.phi_map(it, lambda x: self.elem_of(x, st), st)
        if it.op == "maplist":
            return it.args[1]
        return mk("elem", self.snapshot(it, st))

    def s_Try(self, s, st, fid):
        base = st.cond
        pre = st.copy(fid)
        o = self.exec_block(s.body, st, fid)
        out = Out(None, list(o.rets), list(o.brk), list(o.cont))
        fall = o.fall
        if fall is not None and s.orelse:
            o2 = self.exec_block(s.orelse, fall, fid)
            out.rets += o2.rets
            out.brk += o2.brk
            out.cont += o2.cont
            fall = o2.fall
        states = [fall]
        nret = len(out.rets)
        hrets = []
        for h in s.handlers:
            exc = mk("exc", const(self._exc_names(h)), fresh_id())
            hs = pre.copy(fid)
            mid = o.fall
            if mid is not None:
                hs = self.join(mk("opaque", fresh_id()), pre.copy(fid),
                               mid.copy(fid), base)
            hs.cond = base
            hs.assume(exc, True)
            if h.name:
                hs.frames[fid][h.name] = exc
            oh = self.exec_block(h.body, hs, fid)
            hrets += oh.rets
            out.brk += oh.brk
            out.cont += oh.cont
            states.append(oh.fall)
        # handler returns come first: guarded by the exception condition
        out.rets = hrets + out.rets
        alive = [x for x in states if x is not None]
        cur = alive[0] if alive else None
        for x in alive[1:]:
            c = self.path_cond(x.cond, base)
            cur = self.join(c, x, cur, base)
        if cur is not None and len(alive) == 1 and fall is None:
            pass
        elif cur is not None and fall is not None:
            pass
        if s.finalbody:
            if cur is not None:
                of = self.exec_block(s.finalbody, cur, fid)
                out.rets += of.rets
                cur = of.fall
            else:
                fs = pre.copy(fid)
                self.exec_block(s.finalbody, fs, fid)
        out.fall = cur
        return out

    def _exc_names(self, h):
        return ast.unparse(h.type) if h.type is not None else "*"

    def s_With(self, s, st, fid):
        for it in s.items:
            v = self.ev(it.context_expr, st, fid)
            self.emit("with", v, (), st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", v), st, fid)
        o = self.exec_block(s.body, st, fid)
        return o

    # -- expressions -------------------------------------------------------
    def ev(self, e, st, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s" % type(e).__name__)
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        return const(e.value)

    def e_Name(self, e, st, fid):
        v = self.lookup(e.id, st, fid)
        if v.op == "phi":
            d = self.decided(v.args[0], st)
            if d is not None:
                return v.args[1] if d else v.args[2]
        return v

    def e_Attribute(self, e, st, fid):
        b = self.ev(e.value, st, fid)
        self.loc = (self.frames[fid].modname, e.lineno)
        self.emit("getattr", b, (e.attr,), st)
        return self.getattr(b, e.attr, st, e)

    def e_Subscript(self, e, st, fid):
        b = self.ev(e.value, st, fid)
        i = self.ev(e.slice, st, fid)
        self.loc = (self.frames[fid].modname, e.lineno)
        return self.subscript(b, i, st)

    def e_Slice(self, e, st, fid):
        f = lambda x: self.ev(x, st, fid) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st, fid):
        return mk("tuple", *self.ev_elts(e.elts, st, fid))

    def ev_elts(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fid)
                seq = self.known_seq(v, st)
                if seq is None:
                    out.append(mk("star", self.snapshot(v, st)))
                else:
                    out.extend(seq)
            else:
                out.append(self.ev(x, st, fid))
        return out

    def mklist(self, items, st, kind="list", rest=()):
        o = mk("obj", fresh_id())
        o.pay = ObjInfo()
        o.pay.kind = kind
        o.pay.cls = None
        o.pay.site = self.loc
        known = [x for x in items if x.op != "star"]
        stars = [x for x in items if x.op == "star"]
        if stars:
            r = tuple(rest)
            for x in items:
                r = self.addrest(r, mk("elem", x.args[0])
                                 if x.op == "star" else x)
            st.heap[(o, "items")] = ()
            st.heap[(o, "rest")] = r
        else:
            st.heap[(o, "items")] = tuple(known)
            st.heap[(o, "rest")] = tuple(rest)
        return o

    def mkdict(self, items, st, rest=()):
        o = mk("obj", fresh_id())
        o.pay = ObjInfo()
        o.pay.kind = "dict"
        o.pay.cls = None
        o.pay.site = self.loc
        st.heap[(o, "items")] = tuple(items)
        st.heap[(o, "rest")] = tuple(rest)
        return o

    def e_List(self, e, st, fid):
        return self.mklist(self.ev_elts(e.elts, st, fid), st)

    def e_Set(self, e, st, fid):
        return self.mklist(self.ev_elts(e.elts, st, fid), st, "set")

    def e_Dict(self, e, st, fid):
        items, rest = {}, []
        for k, v in zip(e.keys, e.values):
            val = self.ev(v, st, fid)
            if k is None:
                kv = self.known_dict(val, st)
                if kv is None:
                    rest.append(mk("valof", self.snapshot(val, st)))
                else:
                    items.update(kv)
            else:
                kk = self.ev(k, st, fid)
                if self.is_key(kk):
                    items[kk] = val
                else:
                    items[self.snapshot(kk, st)] = val
        return self.mkdict(list(items.items()), st, rest)

    def known_dict(self, v, st):
        if v.op == "obj" and v.pay.kind == "dict":
            if self.hget(st, (v, "rest")):
                return None
            return dict(self.hget(st, (v, "items")) or ())
        if v.op == "dictval" and not v.args[1]:
            return dict(v.args[0])
        return None

    def known_seq(self, v, st):
        """List of element values when the sequence is statically known."""
        if v.op == "tuple":
            if any(x.op == "star" for x in v.args):
                return None
            return list(v.args)
        if v.op == "obj" and v.pay.kind in ("list", "set"):
            if self.hget(st, (v, "rest")):
                return None
            return list(self.hget(st, (v, "items")) or ())
        if v.op == "obj" and v.pay.kind == "dict":
            if self.hget(st, (v, "rest")):
                return None
            return [k for k, _ in (self.hget(st, (v, "items")) or ())]
        if v.op == "listval" and not v.args[2]:
            return list(v.args[1])
        if v.op == "dictval" and not v.args[1]:
            return [k for k, _ in v.args[0]]
        if v.op == "const" and v.args[0] == "str" and len(v.args[1]) < 32:
            return [const(ch) for ch in v.args[1]]
        if v.op == "call" and is_ext(v.args[0], "range"):
            a = v.args[1]
            if all(is_const(x) and isinstance(cval(x), int) for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= MAX_UNROLL:
                    return [const(i) for i in r]
            return None
        if v.op == "zip":
            seqs = [self.known_seq(x, st) for x in v.args]
            if seqs and all(s is not None for s in seqs):
                n = min(len(s) for s in seqs)
                return [mk("tuple", *[s[i] for s in seqs]) for i in range(n)]
            return None
        if v.op == "enumerate":
            s = self.known_seq(v.args[0], st)
            if s is not None:
                start = v.args[1]
                if is_const(start):
                    return [mk("tuple", const(cval(start) + i), x)
                            for i, x in enumerate(s)]
            return None
        if v.op == "items":
            d = self.known_dict(v.args[0], st)
            if d is not None:
                return [mk("tuple", k, x) for k, x in d.items()]
            return None
        if v.op == "values":
            d = self.known_dict(v.args[0], st)
            return list(d.values()) if d is not None else None
        if v.op == "reversed":
            s = self.known_seq(v.args[0], st)
            return s[::-1] if s is not None else None
        if v.op == "slice":
            return None
        return None

    def subscript(self, b, i, st):
        if b.op == "phi":
            return self.phi_map(b, lambda x: self.subscript(x, i, st), st)
        if i.op == "phi" and b.op in ("obj", "tuple", "dictval"):
            return self.phi_map(i, lambda x: self.subscript(b, x, st), st)
        if b.op == "call" and is_ext(b.args[0], "numpy.s_", "numpy.index_exp"):
            return i
        if is_ext(b, "numpy.s_", "numpy.index_exp"):
            return i
        if b.op == "items" and False:
            pass
        seq = None
        if b.op in ("tuple", "obj", "listval") and not (
                b.op == "obj" and b.pay.kind in ("dict", "inst")):
            seq = self.known_seq(b, st)
        if seq is not None:
            if is_const(i) and isinstance(cval(i), int):
                k = cval(i)
                if -len(seq) <= k < len(seq):
                    x = seq[k]
                    return x.args[1] if x.op == "opt" else x
            if i.op == "slice" and all(
                    is_const(x) and (cval(x) is None or isinstance(
                        cval(x), int)) for x in i.args):
                r = seq[slice(*[cval(x) for x in i.args])]
                if b.op == "tuple":
                    return mk("tuple", *r)
                return self.mklist(r, st)
        if b.op == "const" and is_const(i):
            try:
                return const(cval(b)[cval(i)])
            except Exception:
                return UNKNOWN
        if b.op == "obj" and b.pay.kind == "dict":
            items = self.hget(st, (b, "items")) or ()
            rest = self.hget(st, (b, "rest")) or ()
            if self.is_key(i):
                for k, x in items:
                    if k is i:
                        if x.op == "phi" and x.args[2] is UNDEF:
                            return x.args[1]
                        return x
                for k, x in items:
                    if self.key_eq(k, i):
                        return x
            if not rest and 1 < len(items) <= 40 and all(
                    self.callable_term(x) for _, x in items):
                # a dispatch table: some entry, selected by the key
                v = items[-1][1]
                i = self.snapshot(i, st)
                for k, x in reversed(items[:-1]):
                    c = mk("cmp", "==", i, k)
                    d = self.decided(c, st)
                    v = mkphi(c, x, v) if d is None else (x if d else v)
                return v
            return mk("sub", self.snapshot(b, st), self.snapshot(i, st))
        if b.op == "dictval":
            for k, x in b.args[0]:
                if k is i or self.key_eq(k, i):
                    return x
        if b.op == "listval" and b.args[2] and not b.args[1] and \
                len(b.args[2]) == 1:
            if i.op != "slice":
                return b.args[2][0]
        if b.op == "obj" and b.pay.kind == "list":
            rest = self.hget(st, (b, "rest")) or ()
            items = self.hget(st, (b, "items")) or ()
            if i.op == "slice":
                return self.mklist((), st, "list", tuple(items) + tuple(
                    x for x in rest if x not in items))
            if rest or items:
                return self.elem_of(b, st)
        if b.op == "maplist" and i.op != "slice":
            return b.args[1]
        if b.op == "enumerate" or b.op == "zip":
            return mk("sub", b, i)
        if is_const(i) and isinstance(cval(i), str):
            k = self.kind(b)
            if k == "Dataset" or (k is None and self.hget(
                    st, (b, cval(i))) is not None):
                return self.getattr(b, cval(i), st)
        cls = self.cls_of(b, st)
        if cls is not None:
            r = self.class_lookup(cls, "__getitem__", st)
            if r is not None and r.op == "func":
                return self.call(r, (b, i), {}, st, None)
        bs = self.snapshot(b, st)
        return mk("sub", bs, self.snapshot(i, st))

    def callable_term(self, x):
        if x.op in ("func", "partial", "bound", "cls"):
            return True
        return x.op == "ext" and x.args[0].startswith(
            ("numpy.", "dask.", "operator.", "xarray.")) and \
            x.args[0].rsplit(".", 1)[-1] not in DTYPE_NAMES

    def key_eq(self, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            return type(x) in (int, float, bool) and type(y) in (
                int, float, bool) and x == y
        return False

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st, fid)
                if is_const(x) and v.format_spec is None and v.conversion == -1:
                    parts.append(const(str(cval(x))))
                else:
                    parts.append(self.snapshot(x, st))
            else:
                parts.append(const(v.value))
        if all(is_const(p) and isinstance(cval(p), str) for p in parts):
            return const("".join(cval(p) for p in parts))
        return mk("fstr", *parts)

    def e_FormattedValue(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_Lambda(self, e, st, fid):
        return self.mkfunc(e, st, fid, "<lambda>")

    def e_Starred(self, e, st, fid):
        return mk("star", self.ev(e.value, st, fid))

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def e_IfExp(self, e, st, fid):
        c = self.truth(self.ev(e.test, st, fid), st)
        d = self.decided(c, st)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st, fid)
        base = st.cond
        sa = st.copy(fid).assume(c, True)
        a = self.ev(e.body, sa, fid)
        sb = st.copy(fid).assume(c, False)
        b = self.ev(e.orelse, sb, fid)
        j = self.join(c, sa, sb, base)
        st.frames, st.heap = j.frames, j.heap
        return mkphi(c, a, b)

    def e_BoolOp(self, e, st, fid):
        is_and = isinstance(e.op, ast.And)
        vals = []
        sub = st
        base = st.cond
        forked = False
        result = None
        conds = []
        for i, x in enumerate(e.values):
            v = self.ev(x, sub, fid)
            t = self.truth(v, sub)
            d = self.decided(t, sub)
            last = i == len(e.values) - 1
            if d is not None and not last:
                if d != is_and:
                    vals.append((v, t, d))
                    break
                continue
            vals.append((v, t, d))
            if not last:
                sub = sub.copy(fid)
                forked = True
                sub.assume(t, is_and)
        if forked:
            # effects inside operands are rare; keep heap of the full path
            st.heap.update({k: v for k, v in sub.heap.items()
                            if k not in st.heap})
            for f, d in sub.frames.items():
                if f not in st.frames:
                    st.frames[f] = d
        if not vals:
            return TRUE if is_and else FALSE
        # all operands boolean-like? build and/or, else phi chain
        v = vals[-1][0]
        tv = vals[-1][1]
        boolish = all(self.boolish(x[0]) for x in vals)
        if boolish:
            acc = vals[-1][1]
            for x, t, d in reversed(vals[:-1]):
                acc = b_and(t, acc) if is_and else b_or(t, acc)
            return acc
        for x, t, d in reversed(vals[:-1]):
            v = mkphi(t, v, x) if is_and else mkphi(t, x, v)
        return v

    def boolish(self, v):
        if is_const(v):
            return isinstance(cval(v), bool)
        return v.op in ("cmp", "and", "or", "not", "isinst") or \
            self.kind(v) == "bool" or v.op in ("call", "truth", "opaque",
                                               "iter", "attr", "param")

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v, st))
        opn = {"Invert": "~", "USub": "-", "UAdd": "+"}[type(e.op).__name__]
        if is_const(v) and isinstance(cval(v), (int, float)):
            x = cval(v)
            return const(~x if opn == "~" else -x if opn == "-" else +x)
        if self.kind(v) == "Raster":
            uf = {"~": "invert", "-": "negative", "+": "positive"}[opn]
            return self.raster_ufunc(uf, [v], st, fid)
        if v.op == "phi":
            d = self.decided(v.args[0], st)
            if d is not None:
                v = v.args[1] if d else v.args[2]
        return mk("un", opn, self.snapshot(v, st))

    def raster_ufunc(self, uf, args, st, fid, out=None):
        r = next(a for a in args if self.kind(a) == "Raster")
        f = self.getattr(r, "__array_ufunc__", st)
        kw = {}
        if out is not None:
            kw["out"] = mk("tuple", out)
        return self.call(f, (ext("numpy." + uf), const("__call__"), *args),
                         kw, st, None, fid)

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        self.loc = (self.frames[fid].modname, e.lineno)
        return self.binop(_BIN[type(e.op)], a, b, st, fid)

    def binop(self, opn, a, b, st, fid, inplace=False):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                import operator as o
                f = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv,
                     "//": o.floordiv, "%": o.mod, "**": o.pow,
                     "&": o.and_, "|": o.or_, "^": o.xor, "<<": o.lshift,
                     ">>": o.rshift}[opn]
                if not (opn == "**" and isinstance(y, int) and abs(y) > 64):
                    return const(f(x, y))
            except Exception:
                pass
        ka, kb = self.kind(a), self.kind(b)
        if "Raster" in (ka, kb):
            return self.raster_ufunc(BIN_UFUNC[opn], [a, b], st, fid,
                                     out=a if inplace and ka == "Raster"
                                     else None)
        # sequences
        if opn == "+":
            sa, sb = None, None
            if ka in ("list", "tuple") or kb in ("list", "tuple"):
                sa, sb = self.known_seq(a, st), self.known_seq(b, st)
                if sa is not None and sb is not None:
                    if a.op == "tuple" or ka == "tuple":
                        return mk("tuple", *(sa + sb))
                    return self.mklist(sa + sb, st)
                if a.op == "obj" and b.op == "obj":
                    r = ()
                    for o_ in (a, b):
                        for x in (self.hget(st, (o_, "items")) or ()) + (
                                self.hget(st, (o_, "rest")) or ()):
                            r = self.addrest(r, x)
                    return self.mklist((), st, a.pay.kind, r)
        if opn == "*":
            for x, y in ((a, b), (b, a)):
                s = self.known_seq(x, st) if x.op in ("tuple", "obj",) else None
                if s is not None and is_const(y) and isinstance(cval(y), int) \
                        and len(s) * cval(y) <= 64:
                    r = s * cval(y)
                    return mk("tuple", *r) if x.op == "tuple" else \
                        self.mklist(r, st)
                if s is not None and x.op == "obj" and x.pay.kind == "list":
                    return self.mklist((), st, "list", tuple(dict.fromkeys(s)))
        if opn in ("|", "-", "&") and ka in ("set", "frozenset") :
            sa, sb = self.known_seq(a, st), self.known_seq(b, st)
            if sa is not None and sb is not None:
                if opn == "|":
                    r = list(dict.fromkeys(sa + sb))
                elif opn == "-":
                    r = [x for x in sa if x not in sb]
                else:
                    r = [x for x in sa if x in sb]
                return self.mklist(r, st, "set")
        return mk("bin", opn, self.snapshot(a, st), self.snapshot(b, st))

    def e_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)
        res = None
        for o_, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fid)
            self.loc = (self.frames[fid].modname, e.lineno)
            t = self.compare(_CMP[type(o_)], left, right, st, fid)
            res = t if res is None else b_and(res, t)
            left = right
        return res

    def compare(self, opn, a, b, st, fid=None):
        if opn in CMP_UFUNC and "Raster" in (self.kind(a), self.kind(b)):
            return self.raster_ufunc(CMP_UFUNC[opn], [a, b], st, fid)
        if opn in CMP_NEG:
            inner = self.compare(CMP_NEG[opn], a, b, st, fid)
            k = self.kind(inner)
            if k in ("DataArray", "dask", "numpy"):
                return mk("un", "~", inner)
            return b_not(inner)
        for v, o_ in ((a, b), (b, a)):
            if v.op == "phi":
                d = self.decided(v.args[0], st)
                if d is not None:
                    x = v.args[1] if d else v.args[2]
                    return self.compare(opn, x if v is a else a,
                                        x if v is b else b, st, fid)
        if opn == "is":
            if a is b:
                return TRUE
            if is_const(a) and is_const(b):
                return const(a is b)
            for x, y in ((a, b), (b, a)):
                if y is NONE:
                    if x.op == "phi":
                        return self.phi_map(
                            x, lambda t: self.compare("is", t, NONE, st), st,
                            self.phi_bool)
                    if x.op in ("func", "obj", "tuple", "cls", "ext", "bound",
                                "partial", "fstr", "mod", "listval", "bin",
                                "store", "cmp"):
                        if not is_ext(x, "None"):
                            return FALSE
                    k = self.kind(x)
                    if k is not None and k != "NoneType":
                        return FALSE
                    if x.op == "call" and self.call_nonnull(x):
                        return FALSE
                    if x.op == "snap":
                        return mk("cmp", "is", x.args[0], NONE)
            if a.op in ("func", "cls", "ext", "const", "obj") and b.op in (
                    "func", "cls", "ext", "const", "obj"):
                return FALSE
            if {a.op, b.op} & {"obj"} and {a.op, b.op} & {"param"}:
                return FALSE
            for x, y in ((a, b), (b, a)):
                if self.kind(x) in ("Raster", "Vector") and (
                        numpyish(y) or self.kind(y) in (
                            "float", "int", "bool", "numpy", "dask", "str",
                            "list", "tuple", "xr")):
                    return FALSE
            if a.uid > b.uid and b is not NONE:
                a, b = b, a
            if a is NONE:
                a, b = b, a
            return mk("cmp", "is", a, b)
        if opn == "in":
            seq = self.known_seq(b, st)
            if seq is not None:
                if is_ext(a) and any(x.op == "opt" for x in seq) and all(
                        is_ext(x.args[1] if x.op == "opt" else x)
                        for x in seq):
                    # known library objects, some present conditionally
                    seq = [x for x in seq if x.op != "opt" or x.args[1] is a]
                    if not seq:
                        return FALSE
                if is_const(a) or a.op in ("ext", "func", "cls") or \
                        self.is_key(a):
                    if any(x is a or self.key_eq(x, a) for x in seq):
                        return TRUE
                    if all(self.is_key(x) for x in seq):
                        if self.dtype_like(a) == any(
                                self.dtype_like(x) for x in seq) or not seq:
                            return FALSE
                        return FALSE
                if a.op == "phi":
                    return self.phi_map(
                        a, lambda t: self.compare("in", t, b, st), st,
                        self.phi_bool)
                if len(seq) <= 8:
                    acc = FALSE
                    for x in seq:
                        acc = b_or(acc, self.compare("==", a, x, st))
                    return acc
                return mk("cmp", "in", a, mk("listval", "set", tuple(
                    sorted(seq, key=lambda v: v.uid)), ()))
            if b.op == "obj":
                b = self.snapshot(b, st)
            if is_const(a) and is_const(b) and isinstance(cval(b), str) and \
                    isinstance(cval(a), str):
                return const(cval(a) in cval(b))
            return mk("cmp", "in", self.snapshot(a, st), b)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                import operator as o
                f = {"==": o.eq, "<": o.lt, "<=": o.le, ">": o.gt,
                     ">=": o.ge}[opn]
                return const(bool(f(x, y)))
            except Exception:
                pass
        if opn == "==":
            if a is b and a.op in ("ext", "func", "cls", "tuple") :
                return TRUE
            for x, y in ((a, b), (b, a)):
                if x.op == "phi" and (is_const(y) or y.op == "ext"):
                    ta = self.compare("==", x.args[1], y, st)
                    tb = self.compare("==", x.args[2], y, st)
                    if is_const(ta) or is_const(tb):
                        return self.phi_bool(x.args[0], ta, tb)
            if a.op in ("ext", "func", "cls") and b.op in (
                    "ext", "func", "cls") and self.dtype_like(a) == \
                    self.dtype_like(b) and not self.dtype_like(a):
                return const(a is b)
            if self.dtype_like(a) and self.dtype_like(b) and is_const(
                    self.dtype_name(a)) and is_const(self.dtype_name(b)):
                return const(self.dtype_name(a) is self.dtype_name(b))
            ka, kb = self.kind(a), self.kind(b)
            if is_const(a) and is_const(b):
                return const(False)
            if ("str" in (ka, kb)) and (NONE in (a, b)):
                return FALSE
            ta, tb = self.known_seq(a, st) if a.op in ("tuple",) else None, \
                self.known_seq(b, st) if b.op in ("tuple",) else None
            if ta is not None and tb is not None:
                if len(ta) != len(tb):
                    return FALSE
                acc = TRUE
                for x, y in zip(ta, tb):
                    acc = b_and(acc, self.compare("==", x, y, st))
                return acc
        a, b = self.snapshot(a, st), self.snapshot(b, st)
        if opn in (">", ">="):
            opn = {">": "<", ">=": "<="}[opn]
            a, b = b, a
        if opn == "==" and (is_const(a) and not is_const(b)):
            a, b = b, a
        return mk("cmp", opn, a, b)

    def dtype_like(self, v):
        if v.op == "call" and is_ext(v.args[0], "numpy.dtype"):
            return True
        return False

    def dtype_name(self, v):
        if self.dtype_like(v) and v.args[1] and is_const(v.args[1][0]):
            return v.args[1][0]
        return v

    NONNULL_METHODS = {"copy", "astype", "rechunk", "chunk", "map_blocks",
                       "map_overlap", "reshape", "ravel", "to_numpy"}

    def call_nonnull(self, v):
        f = v.args[0]
        if f.op == "attr" and f.args[1] in self.NONNULL_METHODS:
            return True
        if f.op == "ext" and (f.args[0].startswith("numpy.") or
                              f.args[0].startswith("dask.array.")):
            return True
        return False

    # comprehensions --------------------------------------------------------
    def e_ListComp(self, e, st, fid):
        return self.comp(e, st, fid, "list")

    def e_SetComp(self, e, st, fid):
        return self.comp(e, st, fid, "set")

    def e_GeneratorExp(self, e, st, fid):
        return self.comp(e, st, fid, "list")

    def e_DictComp(self, e, st, fid):
        return self.comp(e, st, fid, "dict")

    def comp(self, e, st, fid, kind):
        fr = Frame()
        fr.fid = fresh_id()
        fr.parent = fid
        fr.modname = self.frames[fid].modname
        fr.func = self.frames[fid].func
        fr.globals = set()
        fr.captured = False
        self.frames[fr.fid] = fr
        st.frames[fr.fid] = {}
        items, rest, srcs = [], [], []

        def emit_elt(guards):
            if kind == "dict":
                k = self.ev(e.key, st, fr.fid)
                v = self.ev(e.value, st, fr.fid)
                x = (k, v)
            else:
                x = self.ev(e.elt, st, fr.fid)
            return x

        def rec(gi, guard, exact):
            if gi == len(e.generators):
                x = emit_elt(guard)
                if exact:
                    if kind != "dict" and not is_const(guard):
                        x = mk("opt", guard, x)
                    elif kind == "dict" and not is_const(guard):
                        x = (x[0], mkphi(guard, x[1], UNDEF))
                    items.append(x)
                else:
                    rest.append(x if kind != "dict" else x[1])
                return
            g = e.generators[gi]
            it = self.ev(g.iter, st, fr.fid if gi else fid)
            seq = self.known_seq(it, st)
            if seq is not None and len(seq) <= MAX_UNROLL * 4:
                for x in seq:
                    gd = guard
                    saved = st.cond
                    if x.op == "opt":
                        gd = b_and(gd, x.args[0])
                        st.assume(x.args[0], True)
                        x = x.args[1]
                    self.assign(g.target, x, st, fr.fid)
                    ok = True
                    for cnd in g.ifs:
                        t = self.truth(self.ev(cnd, st, fr.fid), st)
                        d = self.decided(t, st)
                        if d is False:
                            ok = False
                            break
                        if d is None:
                            gd = b_and(gd, t)
                            st.assume(t, True)
                    if ok:
                        rec(gi + 1, gd, exact)
                    st.cond = saved
            else:
                saved = st.cond
                srcs.append(self.snapshot(it, st))
                self.assign(g.target, self.elem_of(it, st), st, fr.fid)
                gd = guard
                for cnd in g.ifs:
                    t = self.truth(self.ev(cnd, st, fr.fid), st)
                    gd = b_and(gd, t)
                    if not is_const(t):
                        st.assume(t, True)
                rec(gi + 1, gd, False)
                if not is_const(gd):
                    srcs.append(mk("filtered", gd))
                st.cond = saved

        rec(0, TRUE, True)
        if kind == "dict":
            d = {}
            for k, v in items:
                d[k] = v
            return self.mkdict(list(d.items()), st, rest)
        o = self.mklist(items, st, kind, rest)
        if srcs:
            st.heap[(o, "srcs")] = mk("tuple", *srcs)
        return o

    # -- calls --------------------------------------------------------------
    def e_Call(self, e, st, fid):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                not e.args:
            f = self.frames[fid].func
            selfv = None
            if isinstance(f, FuncInfo) and f.cls is not None:
                first = f.node.args.args[0].arg if f.node.args.args else None
                selfv = st.frames[fid].get(first) if first else None
                return mk("super", f.cls, selfv or NONE)
        fn = self.ev(e.func, st, fid)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                seq = self.known_seq(v, st)
                if seq is not None:
                    args.extend(seq)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st, fid))
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                d = self.known_dict(v, st)
                if d is not None:
                    for kk, x in d.items():
                        if is_const(kk):
                            kwargs[cval(kk)] = x
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.loc = (self.frames[fid].modname, e.lineno)
        return self.call(fn, tuple(args), kwargs, st, e, fid)

    def call(self, fn, args, kwargs, st, node, fid=None):
        assert isinstance(fn, V), fn
        for h in self.hooks:
            r = h(self, fn, args, kwargs, st, node)
            if r is not None:
                return r
        op = fn.op
        if op == "func":
            return self.call_func(fn, args, kwargs, st, node)
        if op == "bound":
            return self.call(fn.args[0], (fn.args[1],) + tuple(args), kwargs,
                             st, node, fid)
        if op == "partial":
            f, pa, pk = fn.args
            kw = dict(pk)
            kw.update(kwargs)
            return self.call(f, tuple(pa) + tuple(args), kw, st, node, fid)
        if op == "phi":
            c = fn.args[0]
            d = self.decided(c, st)
            if d is not None:
                return self.call(fn.args[1] if d else fn.args[2], args,
                                 kwargs, st, node, fid)
            recv = self.factor(fn, st)
            if recv is not None:
                return self.method_call(mk("attr", *recv), args, kwargs, st,
                                        node, fid)
            base = st.cond
            sa = State(dict(st.frames), st.heap.copy(), st.cond)
            sb = State(dict(st.frames), st.heap.copy(), st.cond)
            if fid is not None and fid in st.frames:
                sa.frames[fid] = dict(st.frames[fid])
                sb.frames[fid] = dict(st.frames[fid])
            a = self.call(fn.args[1], args, kwargs, sa.assume(c, True), node,
                          fid)
            b = self.call(fn.args[2], args, kwargs, sb.assume(c, False),
                          node, fid)
            j = self.join(c, sa, sb, base)
            st.frames, st.heap = j.frames, j.heap
            return mkphi(c, a, b)
        if op == "cls":
            return self.instantiate(fn, args, kwargs, st, node)
        if op == "deco":
            return self.decorate(fn, args[0], st, fid, node)
        if op == "ext":
            return self.ext_call(fn, args, kwargs, st, node, fid)
        if op == "attr":
            return self.method_call(fn, args, kwargs, st, node, fid)
        if op == "delayed":
            self.emit("delayed_call", fn.args[0],
                      (args, tuple(sorted(kwargs.items()))), st)
            return self.mkcall(fn, args, kwargs, st)
        if op == "obj" and fn.pay.kind == "inst":
            r = self.class_lookup(fn.pay.cls, "__call__", st)
            if r is not None:
                return self.call(r, (fn,) + tuple(args), kwargs, st, node, fid)
        return self.mkcall(fn, args, kwargs, st)

    def factor(self, fn, st):
        """phi(c, a.m, b.m) of library receivers -> (phi(c, a, b), m)."""
        names = set()
        bad = []

        def leaf(x):
            if x.op != "attr" or x.args[0].op in ("obj", "cls", "mod",
                                                  "func", "const"):
                bad.append(x)
                return x
            names.add(x.args[1])
            return x.args[0]

        r = self.phi_map(fn, leaf, st)
        if bad or len(names) != 1:
            return None
        return r, names.pop()

    def mkcall(self, fn, args, kwargs, st, pure=False):
        a = tuple(self.snapshot(x, st) for x in args)
        k = tuple(sorted(((n, self.snapshot(x, st))
                          for n, x in kwargs.items()), key=lambda t: t[0]))
        v = mk("call", fn, a, k, 0 if pure else fresh_id())
        cbs = [x for x in list(args) + list(kwargs.values())
               if x.op in ("func", "bound", "partial")]
        self.emit("call", v, (tuple(args), tuple(sorted(kwargs.items()))), st)
        for c in cbs:
            self.emit("callback", c, (v,), st)
        for x in list(args)[:1]:        # the function to run, chosen earlier
            if x.op == "phi":
                for c, conds in phi_leaves(x):
                    if c.op in ("func", "bound", "partial"):
                        s2 = State(st.frames, st.heap, st.cond + conds)
                        self.emit("callback", c, (v,), s2)
        return v

    def bind_args(self, info, args, kwargs, st, fnv):
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        star = [i for i, x in enumerate(args) if x.op == "star"]
        if star:
            i0 = star[0]
            head, src = args[:i0], args[i0].args[0]
            for n, v in zip(names, head):
                env[n] = v
            remaining = names[len(head):]
            if a.vararg and not remaining:
                env[a.vararg.arg] = mk("starargs", self.snapshot(src, st))
                k = self.param_kind.get(src)
                if k:
                    env[a.vararg.arg] = src
            else:
                for j, n in enumerate(remaining):
                    if n not in kwargs:
                        env[n] = self.subscript(src, const(j), st)
                if a.vararg:
                    env[a.vararg.arg] = mk("starargs", self.snapshot(src, st))
        else:
            for n, v in zip(names, args):
                env[n] = v
            extra = args[len(names):]
            if a.vararg:
                env[a.vararg.arg] = mk("tuple", *extra)
            elif extra:
                self.emit("bad_call", fnv, ("too many positional args",), st)
        kw = dict(kwargs)
        unknown_kw = kw.pop("**", None)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env and n not in (x.arg for x in a.posonlyargs):
                    self.emit("bad_call", fnv, ("duplicate arg " + n,), st)
                env[n] = kw.pop(n)
        # defaults
        nd = len(info.defaults)
        for n, d in zip(names[len(names) - nd:], info.defaults):
            if n not in env:
                env[n] = d
                if unknown_kw is not None:
                    env[n] = d
        for x, d in zip(a.kwonlyargs, info.kwdefaults):
            if x.arg not in env and d is not None:
                env[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if unknown_kw is not None:
                    env[n] = mk("sub", self.snapshot(unknown_kw, st),
                                const(n))
                elif not star:
                    self.emit("bad_call", fnv, ("missing arg " + n,), st)
                    env[n] = UNKNOWN
                else:
                    env[n] = UNKNOWN
        if a.kwarg:
            if unknown_kw is not None and not kw:
                env[a.kwarg.arg] = unknown_kw
            else:
                rest = ()
                if unknown_kw is not None:
                    rest = (mk("valof", self.snapshot(unknown_kw, st)),)
                env[a.kwarg.arg] = self.mkdict(
                    [(const(k), v) for k, v in kw.items()], st, rest)
        elif kw:
            self.emit("bad_call", fnv,
                      ("unexpected keyword " + ",".join(sorted(kw)),), st)
        return env

    def call_func(self, fn, args, kwargs, st, node):
        info = fn.pay
        depth = len(self.stack)
        rec = sum(1 for q, n, l in self.stack if n is info.node)
        # A path given where a raster is expected may name a batch script,
        # which reaches the whole API again.  The script interpreter is an
        # entry point of its own; seen from elsewhere it is a source of
        # rasters.
        nested = info.modname == PKG + ".batch" and depth and \
            not self.stack[-1][0].startswith(PKG + ".batch.")
        if nested:
            return self.mkcall(fn, args, kwargs, st)
        if depth > MAX_DEPTH or rec >= 2:
            self.opaque.append((info.qual, self.loc))
            return self.mkcall(fn, args, kwargs, st)
        self.n_inlined += 1
        self.inlined.add(info.qual)
        self.emit("enter", fn, (tuple(args), tuple(sorted(kwargs.items()))), st)
        fr = Frame()
        fr.fid = fresh_id()
        fr.parent = info.frame
        fr.modname = info.modname
        fr.func = info
        fr.globals = set()
        fr.captured = False
        self.frames[fr.fid] = fr
        env = self.bind_args(info, args, kwargs, st, fn)
        st.frames[fr.fid] = env
        saved_loc = self.loc
        base = st.cond
        self.stack.append((info.qual, info.node, saved_loc))
        try:
            if isinstance(info.node, ast.Lambda):
                v = self.ev(info.node.body, st, fr.fid)
                self.emit("leave", fn, (v,), st)
                return v
            work = State(st.frames, st.heap, st.cond)
            o = self.exec_block(info.node.body, work, fr.fid)
            rets = list(o.rets)
            if o.fall is not None:
                rets.append((o.fall.cond, NONE, o.fall))
            if not rets:
                v = mk("noreturn", info.qual)
                # everything raises: state after is dead, keep going with pre
                self.emit("leave", fn, (v,), st)
                return v
            c, v, s = rets[-1]
            for rc, rv, rs in reversed(rets[:-1]):
                pc = self.path_cond(rc, base)
                v = mkphi(pc, rv, v) if rv is not v else v
                s = self.join(pc, rs, s, base)
            st.frames, st.heap = s.frames, s.heap
            if len(rets) == 1:
                # facts established on every surviving path
                st.cond = rets[0][0]
                st.cond = st.cond[:]
            else:
                st.cond = base
            self.emit("leave", fn, (v,), st)
            return v
        finally:
            self.stack.pop()
            self.loc = saved_loc
            if not fr.captured:
                st.frames.pop(fr.fid, None)

    def instantiate(self, cls, args, kwargs, st, node):
        o = mk("obj", fresh_id())
        o.pay = ObjInfo()
        o.pay.kind = "inst"
        o.pay.cls = cls
        o.pay.site = self.loc
        init = self.class_lookup(cls, "__init__", st)
        self.emit("new", o, (cls, tuple(args), tuple(sorted(kwargs.items()))),
                  st)
        if init is not None and init.op == "func":
            self.call(init, (o,) + tuple(args), kwargs, st, node)
        else:
            fields = self.class_lookup(cls, "$fields", st)
            if fields is not None:
                names = [cval(x) for x in fields.args]
                for n, v in zip(names, args):
                    st.heap[(o, n)] = v
                for n, v in kwargs.items():
                    st.heap[(o, n)] = v
            else:
                st.heap[(o, "$args")] = mk("tuple", *args)
        return o

    # external calls --------------------------------------------------------
    def ext_call(self, fn, args, kwargs, st, node, fid):
        n = fn.args[0]
        h = getattr(self, "x_" + n.replace(".", "_"), None)
        if h is not None:
            r = h(args, kwargs, st, fid)
            if r is not None:
                return r
        if n in ("numba.jit", "numba.njit", "numba.vectorize",
                 "numba.guvectorize"):
            if args and args[0].op == "func":
                args[0].pay.flags.add("jit")
                return args[0]
            return mk("deco", "jit", fn, tuple(
                self.snapshot(a, st) for a in args),
                tuple(sorted((k, self.snapshot(v, st))
                             for k, v in kwargs.items())))
        if n in ("dask.delayed", "dask.delayed.delayed") and args and \
                args[0].op in ("func", "partial", "bound"):
            return mk("delayed", args[0])
        if n in ("functools.wraps",):
            return mk("deco", "identity", fn, (), ())
        if n.startswith("numba.extending.overload") or n in (
                "functools.lru_cache",):
            return mk("deco", "dropped", fn, (), ())
        if n.startswith("numpy.") and "." not in n[6:] and args and \
                n[6:] in UFUNC_NAMES and any(
                    self.kind(a) == "Raster" for a in args):
            return self.raster_ufunc(n[6:], list(args), st, fid)
        self.lib_writes(n, args, kwargs, st)
        return self.mkcall(fn, args, kwargs, st, pure=n in PURE_CALLS)

    def lib_writes(self, n, args, kwargs, st):
        """Library calls that write into one of their arguments."""
        out = kwargs.get("out")
        if out is None and n.startswith("numpy."):
            u = n[6:]
            if u in UFUNC_NAMES and u not in BINARY_UFUNCS and \
                    len(args) == 2:
                out = args[1]
            elif u in BINARY_UFUNCS and len(args) == 3:
                out = args[2]
            elif u in ("copyto", "put", "place", "putmask", "fill_diagonal",
                       "put_along_axis", "random.shuffle"):
                out = args[0] if args else None
            elif u.endswith(".at") and u[:-3] in UFUNC_NAMES and args:
                out = args[0]
            elif u == "nan_to_num" and "copy" in kwargs and args and \
                    not (is_const(kwargs["copy"]) and cval(kwargs["copy"])):
                out = args[0]
        if n in ("operator.setitem", "operator.delitem", "operator.iadd",
                 "operator.isub", "operator.imul", "operator.ior",
                 "operator.iand", "random.shuffle") and args:
            out = args[0]
        if out is None and n.startswith("scipy.ndimage") and \
                kwargs.get("output") is not None and \
                self.kind(kwargs["output"]) == "numpy":
            out = kwargs["output"]
        if out is not None and not (is_const(out)):
            outs = out.args if out.op == "tuple" else (out,)
            for o in outs:
                self.emit("mutcall", o, ("out=", args), st)

    def method_call(self, fn, args, kwargs, st, node, fid):
        b, m = fn.args
        if b.op == "obj" and b.pay.kind in ("list", "dict", "set"):
            r = self.container_method(b, m, args, kwargs, st, fid)
            if r is not None:
                return r
        if b.op == "const" and isinstance(cval(b), str):
            try:
                if all(is_const(a) for a in args) and m in (
                        "lower", "upper", "strip", "startswith", "endswith",
                        "replace", "lstrip", "rstrip"):
                    return const(getattr(cval(b), m)(*[cval(a) for a in args]))
                if m == "format" and all(is_const(a) for a in args) and not kwargs:
                    return const(cval(b).format(*[cval(a) for a in args]))
                if m == "split" and all(is_const(a) for a in args):
                    return self.mklist([const(x) for x in cval(b).split(
                        *[cval(a) for a in args])], st)
                if m == "join":
                    seq = self.known_seq(args[0], st)
                    if seq is not None and all(is_const(x) for x in seq):
                        return const(cval(b).join(cval(x) for x in seq))
            except Exception:
                pass
        k = self.kind(b)
        if k in ("dict", None) and m in ("items", "values", "keys") and not args:
            if b.op not in ("call",) or k == "dict":
                if m == "items":
                    return mk("items", self.snapshot(b, st))
                if m == "keys":
                    return mk("elemkeys", self.snapshot(b, st))
        if m in LIST_MUTATORS and k not in ("str", "int", "DataArray", "dask"):
            self.emit("mutcall", b, (m, args), st)
        if m in ("fill", "sort", "partition", "resize", "itemset", "put",
                 "setflags") and k not in ("DataArray", "dask", "list"):
            self.emit("mutcall", b, (m, args), st)
            if m == "fill":
                prev = self.hget(st, (b, "$content")) or b
                st.heap[(b, "$content")] = mk("store", prev,
                                              mk("slice", NONE, NONE, NONE),
                                              self.snapshot(args[0], st))
                return NONE
        if "inplace" in kwargs and is_const(kwargs["inplace"]) and cval(
                kwargs["inplace"]):
            self.emit("mutcall", b, (m + "(inplace=True)", args), st)
        if "out" in kwargs and not is_const(kwargs["out"]):
            o = kwargs["out"]
            for x in (o.args if o.op == "tuple" else (o,)):
                self.emit("mutcall", x, ("out=", args), st)
        bs = self.snapshot(b, st)
        f2 = mk("attr", bs, m) if bs is not b else fn
        return self.mkcall(f2, args, kwargs, st, pure=m in PURE_METHODS)

    def list_extend(self, lst, other, st):
        seq = self.known_seq(other, st)
        items = self.hget(st, (lst, "items")) or ()
        rest = self.hget(st, (lst, "rest")) or ()
        if seq is not None and not rest:
            st.heap[(lst, "items")] = items + tuple(seq)
            return
        for x in items:
            rest = self.addrest(rest, x)
        if seq is not None:
            for x in seq:
                rest = self.addrest(rest, x)
        else:
            rest = self.addrest(rest, self.elem_of(other, st))
        st.heap[(lst, "items")] = ()
        st.heap[(lst, "rest")] = rest

    def container_method(self, b, m, args, kwargs, st, fid):
        items = self.hget(st, (b, "items")) or ()
        rest = self.hget(st, (b, "rest")) or ()
        kind = b.pay.kind
        if m in LIST_MUTATORS:
            self.emit("mutcall", b, (m, args), st)
        if kind in ("list", "set"):
            if m in ("append", "add"):
                if rest:
                    st.heap[(b, "rest")] = self.addrest(rest, args[0])
                else:
                    st.heap[(b, "items")] = items + (args[0],)
                return NONE
            if m in ("extend", "update"):
                for a in args:
                    self.list_extend(b, a, st)
                return NONE
            if m == "insert" and not rest and is_const(args[0]):
                l = list(items)
                l.insert(cval(args[0]), args[1])
                st.heap[(b, "items")] = tuple(l)
                return NONE
            if m == "insert":
                st.heap[(b, "rest")] = self.addrest(rest, args[1])
                return NONE
            if m == "pop":
                if not rest and items and (
                        not args or (is_const(args[0]) and isinstance(
                            cval(args[0]), int))):
                    l = list(items)
                    try:
                        x = l.pop(*[cval(a) for a in args])
                    except IndexError:
                        return UNKNOWN
                    st.heap[(b, "items")] = tuple(l)
                    return x
                return self.elem_of(b, st)
            if m == "copy":
                return self.mklist(items, st, kind, rest)
            if m == "clear":
                st.heap[(b, "items")] = ()
                st.heap[(b, "rest")] = ()
                return NONE
            if m in ("remove", "discard"):
                st.heap[(b, "items")] = tuple(
                    x for x in items if x is not args[0])
                return NONE
            if m == "reverse":
                st.heap[(b, "items")] = tuple(reversed(items))
                return NONE
            if m == "sort":
                if all(is_const(x) for x in items) and not kwargs:
                    try:
                        st.heap[(b, "items")] = tuple(
                            sorted(items, key=cval))
                    except Exception:
                        pass
                return NONE
            if m == "index" and len(args) == 1:
                for j, x in enumerate(items):
                    if x is args[0]:
                        return const(j)
            return None
        # dict
        if m == "get":
            k = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            if k.op == "phi":
                d = self.decided(k.args[0], st)
                if d is not None:
                    return self.container_method(
                        b, m, (k.args[1] if d else k.args[2],) + tuple(
                            args[1:]), kwargs, st, fid)
            if self.is_key(k):
                for kk, x in items:
                    if kk is k:
                        return x if not (x.op == "phi" and x.args[2] is UNDEF)\
                            else mkphi(x.args[0], x.args[1], dflt)
                if not rest:
                    return dflt
            return mk("dget", self.snapshot(b, st), self.snapshot(k, st),
                      dflt)
        if m == "items":
            return mk("items", b)
        if m == "values":
            return mk("values", b)
        if m == "keys":
            seq = self.known_seq(b, st)
            return self.mklist(seq, st, "set") if seq is not None else None
        if m == "copy":
            return self.mkdict(items, st, rest)
        if m == "pop":
            k = args[0]
            if self.is_key(k):
                for kk, x in items:
                    if kk is k:
                        st.heap[(b, "items")] = tuple(
                            kv for kv in items if kv[0] is not k)
                        return x
                if not rest:
                    return args[1] if len(args) > 1 else UNKNOWN
            return mk("dget", self.snapshot(b, st), self.snapshot(k, st),
                      args[1] if len(args) > 1 else NONE)
        if m == "setdefault":
            k = args[0]
            for kk, x in items:
                if kk is k:
                    return x
            v = args[1] if len(args) > 1 else NONE
            if self.is_key(k) and not rest:
                st.heap[(b, "items")] = items + ((k, v),)
                return v
            if rest:
                r = rest[0]
                for x in rest[1:]:
                    r = mkphi(mk("opaque", fresh_id()), x, r)
                st.heap[(b, "rest")] = self.addrest(rest, v)
                return mkphi(mk("opaque", fresh_id()), r, v)
            st.heap[(b, "rest")] = self.addrest(rest, v)
            return v
        if m == "update":
            new = dict(items)
            for a in args:
                d = self.known_dict(a, st)
                if d is None:
                    st.heap[(b, "rest")] = self.addrest(
                        rest, mk("valof", self.snapshot(a, st)))
                else:
                    new.update(d)
            for k, x in kwargs.items():
                if k != "**":
                    new[const(k)] = x
            st.heap[(b, "items")] = tuple(new.items())
            return NONE
        if m == "clear":
            st.heap[(b, "items")] = ()
            return NONE
        return None

    # -- builtins ------------------------------------------------------------
    def x_isinstance(self, args, kw, st, fid):
        v, c = args
        classes = self.known_seq(c, st) if c.op in ("tuple", "obj") else [c]
        if classes is None:
            classes = [c]
        flat = []
        for x in classes:
            if x.op == "tuple":
                flat.extend(x.args)
            else:
                flat.append(x)
        return self.isinst(v, flat, st)

    def isinst(self, v, classes, st):
        if v.op == "phi":
            return self.phi_map(v, lambda x: self.isinst(x, classes, st), st,
                                self.phi_bool)
        if v.op == "const":
            pyt = {"int": int, "float": float, "str": str, "bool": bool,
                   "numbers.Number": (int, float), "tuple": tuple,
                   "numbers.Integral": int, "list": list, "dict": dict,
                   "slice": slice, "set": set, "bytes": bytes}
            x = cval(v)
            for c in classes:
                if c.op == "ext" and (
                        isinstance(x, pyt.get(c.args[0], ())) or
                        isinstance(x, str) and c.args[0] in _SEQ):
                    return TRUE
            return FALSE
        k = self.kind(v)
        if v.op == "listval":
            k = v.args[0]
        acc = FALSE
        for c in classes:
            acc = b_or(acc, self.isinst1(v, k, c, st))
        return acc

    def isinst1(self, v, k, c, st):
        cls = self.cls_of(v, st)
        if c.op == "cls":
            if cls is not None:
                work, seen = [cls], set()
                while work:
                    x = work.pop()
                    if x is c:
                        return TRUE
                    if x in seen or x.op != "cls":
                        continue
                    seen.add(x)
                    work.extend(x.pay.bases)
                return FALSE
            if k is not None:
                return FALSE
            return mk("isinst", v, c)
        if c.op == "ext":
            n = c.args[0]
            if cls is not None:
                return FALSE
            if k is not None and k.startswith("list["):
                k = "list"
            if k is None:
                if v.op in ("call",) and v.args[0].op == "cls":
                    return FALSE
                return mk("isinst", v, c)
            if n in KIND_ISA.get(k, ()):
                return TRUE
            if n in SCALAR_MAYBE.get(k, ()):
                return mk("isinst", v, c)
            if k not in KIND_ISA:
                return mk("isinst", v, c)
            return FALSE
        return mk("isinst", v, c)

    def x_len(self, args, kw, st, fid):
        seq = self.known_seq(args[0], st)
        if seq is not None and not any(x.op == "opt" for x in seq):
            return const(len(seq))
        if args[0].op == "const" and isinstance(cval(args[0]), str):
            return const(len(cval(args[0])))
        if args[0].op == "phi":
            a = self.x_len((args[0].args[1],), kw, st, fid)
            b = self.x_len((args[0].args[2],), kw, st, fid)
            if a is not None and b is not None:
                return mkphi(args[0].args[0], a, b)
        return None

    def x_range(self, args, kw, st, fid):
        return mk("call", ext("range"), tuple(
            self.snapshot(a, st) for a in args), (), 0)

    def x_zip(self, args, kw, st, fid):
        if any(a.op == "star" for a in args):
            return None
        return mk("zip", *[self.freeze_iter(a, st) for a in args])

    def freeze_iter(self, a, st):
        return a

    def x_enumerate(self, args, kw, st, fid):
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        return mk("enumerate", args[0], start)

    def x_reversed(self, args, kw, st, fid):
        return mk("reversed", args[0])

    def x_list(self, args, kw, st, fid):
        if not args:
            return self.mklist((), st)
        return self.to_container(args[0], st, "list")

    def x_set(self, args, kw, st, fid):
        if not args:
            return self.mklist((), st, "set")
        return self.to_container(args[0], st, "set")

    def x_frozenset(self, args, kw, st, fid):
        if not args:
            return self.mklist((), st, "set")
        return self.to_container(args[0], st, "set")

    def to_container(self, a, st, kind):
        seq = self.known_seq(a, st)
        if seq is not None:
            if kind == "set":
                seq = list(dict.fromkeys(seq))
            return self.mklist(seq, st, kind)
        if a.op == "phi":
            d = self.decided(a.args[0], st)
            if d is not None:
                return self.to_container(a.args[1] if d else a.args[2], st,
                                         kind)
        o = self.mklist((), st, kind, (self.elem_of(a, st),))
        src = self.hget(st, (a, "srcs")) if a.op == "obj" else None
        st.heap[(o, "srcs")] = src if src is not None else mk(
            "tuple", self.snapshot(a, st))
        return o

    def x_tuple(self, args, kw, st, fid):
        if not args:
            return mk("tuple")
        seq = self.known_seq(args[0], st)
        if seq is not None:
            if any(x.op == "opt" for x in seq):
                return self.to_container(args[0], st, "list")
            return mk("tuple", *seq)
        if args[0].op in ("obj",):
            return self.to_container(args[0], st, "list")
        return None

    def x_dict(self, args, kw, st, fid):
        items = {}
        if args:
            d = self.known_dict(args[0], st)
            if d is None:
                seq = self.known_seq(args[0], st)
                if seq is not None and all(
                        x.op == "tuple" and len(x.args) == 2 for x in seq):
                    d = {x.args[0]: x.args[1] for x in seq}
            if d is None:
                if kw:
                    o = self.mkdict([(const(k), v) for k, v in kw.items()
                                     if k != "**"], st,
                                    (mk("valof", self.snapshot(args[0], st)),))
                    return o
                o = self.mkdict([], st, (mk(
                    "valof", self.snapshot(args[0], st)),))
                return o
            items.update(d)
        for k, v in kw.items():
            if k == "**":
                return self.mkdict(list(items.items()), st, (mk(
                    "valof", self.snapshot(v, st)),))
            items[const(k)] = v
        return self.mkdict(list(items.items()), st)

    def x_getattr(self, args, kw, st, fid):
        o, n = args[0], args[1]
        if not is_const(n):
            return None
        name = cval(n)
        dflt = args[2] if len(args) > 2 else None
        if o.op == "phi":
            return self.phi_map(o, lambda x: self.x_getattr(
                (x,) + tuple(args[1:]), kw, st, fid), st)
        self.emit("getattr", o, (name,), st)
        if dflt is not None:
            h = self.has_attr(o, name, st)
            if h is False:
                return dflt
            if h is None:
                return mkphi(mk("hasattr", o, name),
                             self.getattr(o, name, st), dflt)
        return self.getattr(o, name, st)

    NO_ATTR = {
        "numpy": {"_masked", "xdata", "_ds", "xmask", "crs", "rio", "mask"},
        "dask": {"_masked", "xdata", "_ds", "xmask", "crs", "rio", "mask"},
        "int": {"*"}, "float": {"*"}, "scalar": {"*"}, "str": {"*"},
        "bool": {"*"},
        "tuple": {"*"}, "list": {"*"}, "NoneType": {"*"},
    }

    def has_attr(self, o, name, st):
        cls = self.cls_of(o, st)
        if cls is not None:
            if self.class_lookup(cls, name, st) is not None:
                return True
            if self.hget(st, (o, name)) is not None:
                return True
            return False
        k = self.kind(o)
        if k in ("int", "float", "scalar", "bool") and name in ("dtype",):
            return None
        na = self.NO_ATTR.get(k)
        if na and ("*" in na or name in na):
            return False
        if k in ("numpy", "dask", "DataArray") and name in (
                "dtype", "shape", "ndim", "size"):
            return True
        return None

    def x_hasattr(self, args, kw, st, fid):
        if is_const(args[1]):
            h = self.has_attr(args[0], cval(args[1]), st)
            if h is not None:
                return const(h)
            return mk("hasattr", args[0], cval(args[1]))
        return None

    def x_setattr(self, args, kw, st, fid):
        if is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], st)
            return NONE
        return None

    def x_any(self, args, kw, st, fid):
        seq = self.known_seq(args[0], st)
        if seq is not None:
            acc = FALSE
            for x in seq:
                if x.op == "opt":
                    acc = b_or(acc, b_and(x.args[0], self.truth(x.args[1],
                                                                st)))
                else:
                    acc = b_or(acc, self.truth(x, st))
            return acc
        if args[0].op == "obj":
            rest = self.hget(st, (args[0], "rest")) or ()
            items = self.hget(st, (args[0], "items")) or ()
            return mk("exists", tuple(self.truth(x, st)
                                      for x in items + rest))
        return None

    def x_all(self, args, kw, st, fid):
        seq = self.known_seq(args[0], st)
        if seq is not None:
            acc = TRUE
            for x in seq:
                if x.op == "opt":
                    acc = b_and(acc, b_or(b_not(x.args[0]),
                                          self.truth(x.args[1], st)))
                else:
                    acc = b_and(acc, self.truth(x, st))
            return acc
        if args[0].op == "obj":
            rest = self.hget(st, (args[0], "rest")) or ()
            items = self.hget(st, (args[0], "items")) or ()
            return mk("forall", tuple(self.truth(x, st)
                                      for x in items + rest))
        return None

    def x_type(self, args, kw, st, fid):
        v = args[0]
        cls = self.cls_of(v, st)
        if cls is not None:
            return cls
        k = self.kind(v)
        if k in ("int", "float", "str", "bool", "list", "tuple", "dict"):
            return ext(k)
        if k in ("dask",):
            return ext("dask.array.Array")
        if k == "DataArray":
            return ext("xarray.DataArray")
        return None

    def x_callable(self, args, kw, st, fid):
        if args[0].op in ("func", "bound", "partial", "cls"):
            return TRUE
        if self.kind(args[0]) not in (None, "func"):
            return FALSE
        return None

    def x_bool(self, args, kw, st, fid):
        if not args:
            return FALSE
        t = self.truth(args[0], st)
        if is_const(t):
            return t
        self.emit("force", args[0], ("bool",), st)
        return None

    def x_numpy_isnan(self, args, kw, st, fid):
        if len(args) != 1 or kw:
            return None
        v = args[0]
        if v.op == "phi":
            y = self.x_numpy_isnan((v.args[1],), kw, st, fid)
            return y if y is not None and y is self.x_numpy_isnan(
                (v.args[2],), kw, st, fid) else None
        while v.op == "call" and v.args[0].op == "attr" and \
                v.args[0].args[1] == "type" and len(v.args[1]) == 1:
            v = v.args[1][0]
        if is_const(v) and isinstance(cval(v), (int, float)):
            return const(cval(v) != cval(v))
        if v is ext("numpy.nan"):
            return TRUE
        return None

    def x_int(self, args, kw, st, fid):
        if args and is_const(args[0]) and len(args) == 1:
            try:
                return const(int(cval(args[0])))
            except Exception:
                return None
        return None

    def x_float(self, args, kw, st, fid):
        if args and is_const(args[0]):
            try:
                return const(float(cval(args[0])))
            except Exception:
                return None
        return None

    def x_str(self, args, kw, st, fid):
        if args and is_const(args[0]):
            return const(str(cval(args[0])))
        return None

    def x_sorted(self, args, kw, st, fid):
        seq = self.known_seq(args[0], st)
        if seq is not None and not kw and all(is_const(x) for x in seq):
            try:
                return self.mklist(sorted(seq, key=cval), st)
            except Exception:
                pass
        if args[0].op == "obj" or seq is not None:
            return self.to_container(args[0], st, "list")
        return None

    def x_map(self, args, kw, st, fid):
        seq = self.known_seq(args[1], st) if len(args) == 2 else None
        if seq is not None:
            return self.mklist([self.call(args[0], (x,), {}, st, None, fid)
                                for x in seq], st)
        if len(args) == 2:
            x = self.call(args[0], (self.elem_of(args[1], st),), {}, st,
                          None, fid)
            o = self.mklist((), st, "list", (x,))
            st.heap[(o, "srcs")] = mk("tuple", self.snapshot(args[1], st))
            return o
        return None

    def _minmax(self, args, kw, st, f):
        vals = args
        if len(args) == 1:
            vals = self.known_seq(args[0], st)
        if vals and not kw and all(is_const(x) and isinstance(
                cval(x), (int, float)) for x in vals):
            return const(f(cval(x) for x in vals))
        return None

    def x_min(self, args, kw, st, fid):
        return self._minmax(args, kw, st, min)

    def x_max(self, args, kw, st, fid):
        return self._minmax(args, kw, st, max)

    def x_next(self, args, kw, st, fid):
        if args[0].op == "obj":
            seq = self.known_seq(args[0], st)
            if seq:
                x = seq[0]
                return x if x.op != "opt" else (
                    mkphi(x.args[0], x.args[1], args[1])
                    if len(args) > 1 else x.args[1])
            if seq == [] and len(args) > 1:
                return args[1]
            return self.elem_of(args[0], st)
        return None

    def x_iter(self, args, kw, st, fid):
        return args[0]

    def x_functools_partial(self, args, kw, st, fid):
        return mk("partial", args[0], tuple(args[1:]),
                  tuple(sorted(kw.items())))

    def x_functools_reduce(self, args, kw, st, fid):
        seq = self.known_seq(args[1], st)
        if seq is not None:
            seq = [x.args[1] if x.op == "opt" else x for x in seq]
            if len(args) > 2:
                seq = [args[2]] + seq
            if not seq:
                return UNKNOWN
            acc = seq[0]
            for x in seq[1:]:
                acc = self.call(args[0], (acc, x), {}, st, None, fid)
            return acc
        m = mk("mu", fresh_id(), "reduce")
        el = self.elem_of(args[1], st)
        self.mu_init[m] = args[2] if len(args) > 2 else el
        self.mu_back[m] = self.call(args[0], (m, el), {}, st, None, fid)
        self.loop_iter = getattr(self, "loop_iter", {})
        self.loop_iter[m] = args[1]
        return m

    def x_copy_copy(self, args, kw, st, fid):
        a = args[0]
        if a.op == "obj" and a.pay.kind in ("list", "set", "dict"):
            return self.container_method(a, "copy", (), {}, st, fid)
        return None

    x_copy_deepcopy = x_copy_copy

    def x_collections_namedtuple(self, args, kw, st, fid):
        fields = self.known_seq(args[1], st)
        if fields is None and is_const(args[1]):
            fields = [const(x) for x in cval(args[1]).replace(
                ",", " ").split()]
        if fields is None:
            return None
        info = ClassInfo()
        info.name = cval(args[0])
        info.modname = self.loc[0]
        info.bases = []
        info.node = None
        cv = mk("cls", info.modname + "." + info.name)
        cv.pay = info
        st.heap[(cv, "attr:$fields")] = mk("tuple", *fields)
        return cv

    def x_numpy_dtype(self, args, kw, st, fid):
        a = args[0]
        if a.op == "ext":
            nm = {"bool": "bool", "int": "int64", "float": "float64"}.get(
                a.args[0], a.args[0].replace("numpy.", ""))
            nm = nm.rstrip("_")
            return mk("call", ext("numpy.dtype"), (const(nm),), (), 0)
        if is_const(a) and isinstance(cval(a), str):
            nm = DTYPE_STR.get(cval(a), cval(a))
            return mk("call", ext("numpy.dtype"), (const(nm),), (), 0)
        if self.kind(a) == "dtype":
            return a
        return None

    def x_dask_is_dask_collection(self, args, kw, st, fid):
        v = args[0]
        k = self.kind(v)
        if k == "dask":
            return TRUE
        if k in ("numpy", "int", "float", "list", "str", "scalar"):
            return FALSE
        if v.op == "snap":
            v = v.args[0]
        return mk("call", ext("dask.is_dask_collection"), (v,), (), 0)

    def x_operator_or_(self, args, kw, st, fid):
        return self.binop("|", args[0], args[1], st, fid)

    def x_operator_and_(self, args, kw, st, fid):
        return self.binop("&", args[0], args[1], st, fid)

    def x_operator_add(self, args, kw, st, fid):
        return self.binop("+", args[0], args[1], st, fid)

    def x_operator_sub(self, args, kw, st, fid):
        return self.binop("-", args[0], args[1], st, fid)

    def x_operator_mul(self, args, kw, st, fid):
        return self.binop("*", args[0], args[1], st, fid)

    def x_operator_truediv(self, args, kw, st, fid):
        return self.binop("/", args[0], args[1], st, fid)

    def x_operator_mod(self, args, kw, st, fid):
        return self.binop("%", args[0], args[1], st, fid)

    def x_operator_pow(self, args, kw, st, fid):
        return self.binop("**", args[0], args[1], st, fid)


class _QualHolder:
    def __init__(self, qual):
        self.qual = qual


def _as_load(n):
    if isinstance(n, ast.Name):
        return ast.Name(n.id, ast.Load(), lineno=n.lineno,
                        col_offset=n.col_offset)
    if isinstance(n, ast.Attribute):
        return ast.Attribute(n.value, n.attr, ast.Load(), lineno=n.lineno,
                             col_offset=n.col_offset)
    if isinstance(n, ast.Subscript):
        return ast.Subscript(n.value, n.slice, ast.Load(), lineno=n.lineno,
                             col_offset=n.col_offset)
    raise AnalysisError("aug target")


DTYPE_STR = {
    "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64",
    "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64",
    "f2": "float16", "f4": "float32", "f8": "float64", "f16": "float128",
    "bool": "bool", "?": "bool", "int": "int64", "float": "float64",
}

BINARY_UFUNCS = {
    "add", "subtract", "multiply", "true_divide", "divide", "floor_divide",
    "remainder", "mod", "power", "bitwise_and", "bitwise_or", "bitwise_xor",
    "left_shift", "right_shift", "equal", "not_equal", "less", "less_equal",
    "greater", "greater_equal", "logical_and", "logical_or", "logical_xor",
    "maximum", "minimum", "arctan2", "hypot", "fmod", "divmod", "fmax",
    "fmin", "copysign", "heaviside", "logaddexp", "nextafter", "ldexp",
    "float_power", "gcd", "lcm", "logaddexp2",
}
UFUNC_NAMES = {
    "add", "subtract", "multiply", "true_divide", "divide", "floor_divide",
    "remainder", "mod", "power", "bitwise_and", "bitwise_or", "bitwise_xor",
    "left_shift", "right_shift", "equal", "not_equal", "less", "less_equal",
    "greater", "greater_equal", "logical_and", "logical_or", "logical_not",
    "logical_xor", "isnan", "isfinite", "isinf", "sqrt", "exp", "log",
    "absolute", "negative", "positive", "invert", "maximum", "minimum",
    "sin", "cos", "tan", "floor", "ceil", "sign", "square", "abs",
    "rint", "trunc", "log2", "log10", "log1p", "exp2", "expm1", "cbrt",
    "reciprocal", "fabs", "conjugate", "signbit", "modf", "frexp", "spacing",
    "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh",
    "arccosh", "arctanh", "degrees", "radians", "deg2rad", "rad2deg",
} | BINARY_UFUNCS
