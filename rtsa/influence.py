"""Which parameters a value may be computed from."""
import ast

from .values import children


class Influence:
    def __init__(self, ip):
        self.ip = ip
        self.objs = {}

    def heap_of(self, st):
        """{object: values stored in it} for a state."""
        k = id(st)
        r = self.objs.get(k)
        if r is None:
            d = {}
            for h in (self.ip.base.heap, st.heap):
                for (b, n), x in h.items():
                    d.setdefault(b, []).append(x)
            r = self.objs[k] = (st, d)
        return r[1]

    def params(self, t, st, values=False, settled=()):
        """Parameter terms t may depend on, through containers, objects,
        closures and loops, but not through the terms in `settled`."""
        ip = self.ip
        heap = self.heap_of(st)
        seen = set(settled)
        out = set()
        stack = list(t) if isinstance(t, (list, tuple, set)) else [t]

        def push(x):
            if isinstance(x, tuple):
                for y in x:
                    push(y)
            elif x is not None and not isinstance(x, (str, int, float)):
                stack.append(x)

        while stack:
            x = stack.pop()
            if x in seen or not hasattr(x, "op"):
                continue
            seen.add(x)
            if x.op == "param":
                out.add(x)
            elif x.op == "func":
                for n in free_names(x.pay.node):
                    v = ip.lookup(n, st, x.pay.frame)
                    if v.op not in ("unbound", "mod", "ext", "cls") and \
                            not (v.op == "func" and v in seen):
                        stack.append(v)
                for d in x.pay.defaults + x.pay.kwdefaults:
                    push(d)
            elif x.op == "mu":
                for d in (ip.mu_init, ip.mu_back):
                    if x in d:
                        stack.append(d[x])
            push(ip.ctl.get(x))
            for y in heap.get(x, ()):
                push(y)
            stack.extend(children(x))
        return seen if values else out


def settled(events):
    """Conditions that have one outcome wherever the code returns, because
    the other one raises."""
    out = {}
    for e in events:
        if e.kind != "raise" or not e.cond:
            continue
        cond = []
        for c, pol in e.cond:
            while c.op == "not":
                c, pol = c.args[0], not pol
            cond.append((c, pol))
        if all(out.get(c) is pol for c, pol in cond[:-1]):
            c, pol = cond[-1]
            if c.op not in ("const", "param"):
                out.setdefault(c, not pol)
    return set(out)


_free = {}


def free_names(node):
    r = _free.get(node)
    if r is None:
        a = node.args
        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r.add(n.id)
        r -= own
        _free[node] = r
    return r
