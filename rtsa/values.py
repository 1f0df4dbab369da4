"""Hash-consed value terms of the abstract interpreter.

A value is an immutable node ``V(op, args)``.  Equal (op, args) pairs are the
same Python object, so must-equality of values is identity.
"""
import itertools

_table = {}
_counter = itertools.count(1)


class V:
    __slots__ = ("op", "args", "uid", "pay", "__weakref__")

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid
        self.pay = None

    def __repr__(self):
        return show(self, 3)


def mk(op, *args):
    key = (op, args)
    v = _table.get(key)
    if v is None:
        v = V(op, args, next(_counter))
        _table[key] = v
    return v


def fresh_id():
    return next(_counter)


def const(x):
    if isinstance(x, float) and x != x:
        return mk("const", "float", "nan")
    return mk("const", type(x).__name__, x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")
UNKNOWN = mk("unknown")


def is_const(v):
    return v.op == "const"


def cval(v):
    if v.args[0] == "float" and v.args[1] == "nan":
        return float("nan")
    return v.args[1]


def ext(name):
    return mk("ext", name)


def is_ext(v, *names):
    return v.op == "ext" and (not names or v.args[0] in names)


def show(v, depth=3):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ", ".join(show(a, depth) for a in v) + ")"
        return repr(v)
    op, a = v.op, v.args
    if op == "const":
        return repr(cval(v))
    if op == "ext":
        return a[0]
    if op == "param":
        return a[1]
    if op == "func":
        return "<fn %s>" % v.pay.name
    if op == "cls":
        return "<cls %s>" % a[0]
    if op == "obj":
        return "<%s#%d>" % (v.pay.kind if v.pay else "obj", a[0])
    if op == "mod":
        return "<mod %s>" % a[0]
    if depth <= 0:
        return "..."
    d = depth - 1
    if op == "attr":
        return "%s.%s" % (show(a[0], depth), a[1])
    if op == "sub":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "call":
        parts = [show(x, d) for x in a[1]]
        parts += ["%s=%s" % (k, show(x, d)) for k, x in a[2]]
        return "%s(%s)" % (show(a[0], depth), ", ".join(parts))
    if op == "phi":
        return "if(%s ? %s : %s)" % tuple(show(x, d) for x in a)
    if op in ("bin", "cmp"):
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "not":
        return "not %s" % show(a[0], d)
    if op == "un":
        return "%s%s" % (a[0], show(a[1], d))
    if op == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if op == "elem":
        return "each(%s)" % show(a[0], d)
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


def children(v):
    """All V nodes directly referenced by v."""
    out = []

    def rec(a):
        if isinstance(a, V):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    for a in v.args:
        rec(a)
    return out


def walk(v, seen=None):
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))
