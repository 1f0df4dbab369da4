"""Exact rational functions over named symbols, and their evaluation from
value terms.  Functions without a rule become uninterpreted atoms that are
equal when their arguments are."""
from fractions import Fraction

from .values import cval, is_const


class Unknown(Exception):
    pass


class P:
    """Polynomial: {((symbol, exponent), ...): coefficient}"""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def const(c):
        return P({(): Fraction(c)})

    @staticmethod
    def sym(s):
        return P({((s, 1),): Fraction(1)})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return P(t)

    def __neg__(self):
        return P({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                m = dict(a)
                for s, e in b:
                    m[s] = m.get(s, 0) + e
                c = x * y
                # t2 is the square root of two
                e = m.get("t2", 0)
                if e >= 2:
                    c *= 2 ** (e // 2)
                    m["t2"] = e % 2
                k = tuple(sorted((s, e) for s, e in m.items() if e))
                t[k] = t.get(k, 0) + c
        if len(t) > 4000:
            raise Unknown("too large")
        return P(t)

    def __eq__(self, o):
        return self.t == o.t

    __hash__ = None

    def syms(self):
        return {s for k in self.t for s, _ in k}


class R:
    """num / den"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or P.const(1)

    def __add__(self, o):
        if self.d == o.d:
            return R(self.n + o.n, self.d)
        return R(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return R(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return R(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if not o.n.t:
            raise Unknown("division by zero")
        return R(self.n * o.d, self.d * o.n)

    def __eq__(self, o):
        return self.n * o.d == o.n * self.d

    __hash__ = None

    def __pow__(self, k):
        r = num(1)
        for _ in range(k):
            r = r * self
        return r

    def syms(self):
        return self.n.syms() | self.d.syms()

    def zero(self):
        return not self.n.t

    def constant(self):
        """Fraction, or None"""
        if not self.n.t:
            return Fraction(0)
        if len(self.d.t) != len(self.n.t):
            return None
        k = next(iter(self.n.t))
        if k not in self.d.t:
            return None
        c = self.n.t[k] / self.d.t[k]
        return c if self == num(c) else None


def num(c):
    return R(P.const(Fraction(c).limit_denominator(10 ** 12)
                     if isinstance(c, float) else Fraction(c)))


def sym(s):
    return R(P.sym(s))


class Alg:
    """Evaluates terms; `leaf(t)` gives the value of terms that are not
    arithmetic (an R), or None."""

    def __init__(self, leaf):
        self.leaf = leaf
        self.atoms = []             # (name, function, [args])
        self.memo = {}

    def atom(self, fn, args):
        for n, f, a in self.atoms:
            if f == fn and len(a) == len(args) and all(
                    x == y for x, y in zip(a, args)):
                return sym(n)
        n = "%s#%d" % (fn, len(self.atoms))
        self.atoms.append((n, fn, args))
        return sym(n)

    def app(self, r):
        """(function, args) if the value is a single atom"""
        if isinstance(r, R) and len(r.n.t) == 1 and r.d == P.const(1):
            (k, c), = r.n.t.items()
            if c == 1 and len(k) == 1 and k[0][1] == 1:
                for n, f, a in self.atoms:
                    if n == k[0][0]:
                        return f, a
        return None

    def sqrt(self, x):
        """Square root; of c * s**2 exactly, with t2 for sqrt(2)."""
        if len(x.n.t) == 1 and len(x.d.t) == 1:
            (k, c), = x.n.t.items()
            (kd, cd), = x.d.t.items()
            c = c / cd
            for f, extra in ((Fraction(1), None), (Fraction(2), "t2")):
                y = c / f
                a, b = isqrt(y.numerator), isqrt(y.denominator)
                if a is not None and b is not None and not any(
                        e % 2 for _, e in k + kd):
                    r = R(P({tuple((s, e // 2) for s, e in k):
                             Fraction(a, b)}),
                          P({tuple((s, e // 2) for s, e in kd):
                             Fraction(1)}))
                    return r * sym(extra) if extra else r
        return self.atom("sqrt", [x])

    def ev(self, t):
        if t not in self.memo:
            self.memo[t] = self._ev(t)
        r = self.memo[t]
        if r is None:
            raise Unknown()
        return r

    def _ev(self, t):
        r = self.leaf(t)
        if r is not None:
            return r
        if is_const(t):
            c = cval(t)
            if isinstance(c, bool) or not isinstance(c, (int, float)) or \
                    c != c or c in (float("inf"), float("-inf")):
                raise Unknown("constant")
            return num(c)
        if t.op == "ext":
            if t.args[0].rsplit(".", 1)[-1] == "pi":
                return sym("pi")
            raise Unknown(t.args[0])
        if t.op == "bin":
            o = t.args[0]
            a = self.ev(t.args[1])
            b = self.ev(t.args[2])
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o == "*":
                return a * b
            if o == "/":
                return a / b
            if o == "**":
                c = b.constant()
                if c is not None and c.denominator == 1 and 0 <= c <= 8:
                    return a ** int(c)
                if c == Fraction(1, 2):
                    return self.sqrt(a)
            raise Unknown(o)
        if t.op == "un" and t.args[0] in ("-", "+"):
            a = self.ev(t.args[1])
            return -a if t.args[0] == "-" else a
        if t.op == "call":
            f = t.args[0]
            if f.op != "ext" or not t.args[1] or t.args[2]:
                raise Unknown("call")
            n = f.args[0].rsplit(".", 1)[-1]
            a = [self.ev(x) for x in t.args[1]]
            if n == "sqrt":
                return self.sqrt(a[0])
            if n in ("float", "float64"):
                return a[0]
            if n == "square":
                return a[0] * a[0]
            if n == "negative":
                return -a[0]
            if n in ("radians", "deg2rad"):
                return a[0] * sym("pi") / num(180)
            if n in ("degrees", "rad2deg"):
                return a[0] * num(180) / sym("pi")
            if n == "hypot":
                return self.sqrt(a[0] * a[0] + a[1] * a[1])
            if n in ("power", "pow"):
                c = a[1].constant()
                if c is not None and c.denominator == 1 and 0 <= c <= 8:
                    return a[0] ** int(c)
                if c == Fraction(1, 2):
                    return self.sqrt(a[0])
                raise Unknown("power")
            n = {"atan": "arctan", "atan2": "arctan2"}.get(n, n)
            if n in ("sin", "cos", "tan", "arctan", "arctan2", "arcsin",
                     "arccos"):
                return self.atom(n, a)
            raise Unknown(n)
        raise Unknown(t.op)


def isqrt(n):
    from math import isqrt as q
    if n < 0:
        return None
    r = q(n)
    return r if r * r == n else None
