"""Shared driver: interprets all entry points once and keeps the events."""
import ast
import time

from .core import PKG, Interp
from .entries import public_entries, run_entry
from .values import V, children, is_const, cval, is_ext, mk, show


# keywords that dask's functions keep to themselves
LIBRARY_KW = {
    "depth", "boundary", "dtype", "meta", "chunks", "name", "token", "trim",
    "drop_axis", "new_axis", "enforce_ndim", "align_arrays", "allow_rechunk",
    "concatenate", "axis", "keepdims", "split_every", "combine", "aggregate",
    "chunk", "out", "weights", "output_size", "func", "args", "**", "binop",
    "ident", "x", "method", "preop", "transform_divisions",
    "align_dataframes", "clear_divisions",
}


class Run:
    __slots__ = ("entry", "value", "state", "events")


class Analysis:
    def __init__(self, root=None, private=False, only=None):
        t = time.time()
        self.ip = Interp(root)
        self.ip.n_module_events = len(self.ip.events)
        self.module_events = list(self.ip.events)
        self.runs = []
        self.unanalysed = []
        for e in public_entries(self.ip, private):
            if only is not None and not only(e):
                continue
            self.run(e)
        self.wall = time.time() - t

    def run(self, e):
        ip = self.ip
        r = Run()
        r.entry = e
        n0 = len(ip.events)
        try:
            r.value, r.state = run_entry(ip, e)
        except (Exception, RecursionError) as x:
            # an entry the interpreter cannot follow is left out and counted
            self.unanalysed.append((e.qual, repr(x)[:200]))
            ip.stack = []
            return None
        r.events = ip.events[n0:]
        self.runs.append(r)
        return r

    def by_name(self, qual):
        for r in self.runs:
            if r.entry.qual == qual:
                return r
        return None

    # -- callbacks -----------------------------------------------------------
    def callbacks(self):
        """Package functions handed to library code for later execution:
        [(func term, bound positional, bound keywords, library call, event,
        state)], one per function value, creation site and receiving call."""
        out = []
        seen = set()
        batches = [(r.events, r.state) for r in self.runs]
        batches.append((self.module_events, self.ip.new_state()))
        for evs, st in batches:
            for ev in evs:
                if ev.kind == "callback":
                    f = ev.target
                    how = callee_name(ev.data[0].args[0])
                elif ev.kind == "delayed_call":
                    f = ev.target
                    how = "dask.delayed"
                else:
                    continue
                pa, pk = (), ()
                while f.op in ("partial", "bound"):
                    if f.op == "bound":
                        pa = (f.args[1],) + pa
                        f = f.args[0]
                    else:
                        pa = tuple(f.args[1]) + pa
                        pk = tuple(f.args[2]) + pk
                        f = f.args[0]
                if f.op != "func":
                    continue
                key = (f.pay.node, how, ev.loc,
                       tuple(q for q, _ in ev.stack[1:]))
                if key in seen:
                    continue
                seen.add(key)
                out.append((f, pa, pk, how, ev, st))
        return out

    def run_callback(self, f, pa, pk, ev, st):
        """Interpret a callback with symbolic blocks; returns (value, events,
        state, block params, first fresh id)."""
        from .core import State, fresh_id
        ip = self.ip
        node = f.pay.node
        tag = "block:" + f.pay.qual
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(pa)
        kw = dict(pk)
        blocks = {}
        # keywords the library call passes on to the function
        if ev.kind == "callback":
            for k, v in ev.data[0].args[2]:
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    if k not in ("dtype", "meta", "name", "chunks"):
                        kw.setdefault(k, v)
                elif a.kwarg and k not in LIBRARY_KW:
                    kw.setdefault(k, v)
        nd = len(names) - len(f.pay.defaults)
        for i, n in enumerate(names):
            if i < len(args) or n in kw or i >= nd:
                continue
            kind = "numpy"
            if n in ("block_info", "block_id", "partition_info"):
                kind = None
            if n in ("df", "gdf", "dataframe", "features", "self"):
                kind = None
            p = ip.param(n, kind, tag)
            blocks[n] = p
            if len(args) == i:
                args.append(p)
            else:
                kw[n] = p
        for x, d in zip(a.kwonlyargs, f.pay.kwdefaults):
            if x.arg not in kw and d is None:
                kw[x.arg] = blocks[x.arg] = ip.param(x.arg, None, tag)
        if a.vararg:
            p = ip.param("*" + a.vararg.arg, "list[numpy]", tag)
            blocks["*" + a.vararg.arg] = p
            if len(args) >= len(names):
                args.append(mk("star", p))
        state = State(dict(st.frames), st.heap.copy(), ())
        first = fresh_id()
        n0 = len(ip.events)
        saved = ip.stack
        ip.stack = []
        try:
            v = ip.call(f, tuple(args), kw, state, None)
        finally:
            ip.stack = saved
        return v, ip.events[n0:], state, blocks, first


def callee_name(f):
    """Printable name of the function position of a call term."""
    if f.op == "ext":
        return f.args[0]
    if f.op == "attr":
        return "." + f.args[1]
    if f.op == "func":
        return f.pay.qual
    return show(f, 1)


def where(ev):
    """(function qualname, module, line) of an event."""
    q = ev.stack[-1][0] if ev.stack else ev.loc[0]
    return q, ev.loc[0], ev.loc[1]


def fpath(mod):
    p = mod.replace(".", "/")
    return p


def stack_str(ev):
    return " > ".join(q.replace(PKG + ".", "") for q, _ in ev.stack)
