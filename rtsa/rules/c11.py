"""C11: the surface operations compute the geometry they are named after.

Each kernel's formula, as extracted by the interpreter, is evaluated exactly
(rtsa/poly.py) with the 3x3 window replaced by a surface whose slope, aspect,
curvature or area is known, as polynomials over symbolic gradients and cell
sizes.
"""
from ..analysis import Analysis
from ..influence import Influence
from ..poly import Alg, R, Unknown, num, sym
from ..values import cval, is_const, show, walk
from .c08 import call, noreturn


class Need(Exception):
    def __init__(self, cond):
        self.cond = cond


class Window:
    """Terms of a kernel as exact functions of the window around the cell
    being written."""

    def __init__(self, ip, base, index, z, rx, ry, params):
        self.ip, self.base, self.z = ip, base, z
        self.rx, self.ry, self.params = rx, ry, params
        self.choice = {}
        self.index = index
        self.alg = Alg(self.leaf)
        self.ialg = Alg(self.ileaf)
        self.centre = [self.ialg.ev(x) for x in index]

    def ileaf(self, t):
        return sym("i%d" % t.uid) if t.op in (
            "elem", "mu", "param", "idx") else None

    def cell(self, t):
        """(row offset, column offset) if t reads the window"""
        if t.op == "phi":
            a, b = self.cell(t.args[1]), self.cell(t.args[2])
            return a if a == b else None
        if t.op != "sub":
            return None
        b, i = t.args
        if not self.is_block(b) or i.op != "tuple":
            return None
        i = i.args[-2:]
        if len(i) != 2:
            return None
        try:
            d = [(self.ialg.ev(x) - c).constant()
                 for x, c in zip(i, self.centre)]
        except Unknown:
            return None
        if any(x is None or x.denominator != 1 for x in d):
            return None
        return int(d[0]), int(d[1])

    def is_block(self, b):
        while b.op in ("sub", "phi"):
            if b.op == "phi":
                return self.is_block(b.args[1]) and self.is_block(b.args[2])
            b = b.args[0]
        return b in self.base

    def resolution(self, t):
        """0/1 and whether made positive, if t is a cell size"""
        if t.op == "phi":
            a = self.resolution(t.args[1])
            return a if a and a == self.resolution(t.args[2]) else None
        if t.op != "sub" or not is_const(t.args[1]) or \
                cval(t.args[1]) not in (0, 1, -1, -2):
            return None
        b, positive = t.args[0], False
        while True:
            if b.op == "phi":
                b = b.args[1]
            elif b.op == "call" and b.args[0].op == "ext" and b.args[1] and \
                    b.args[0].args[0].rsplit(".", 1)[-1] in (
                        "abs", "absolute", "asarray", "array", "fabs"):
                if "a" != b.args[0].args[0].rsplit(".", 1)[-1][:1] or \
                        "abs" in b.args[0].args[0]:
                    positive = True
                b = b.args[1][0]
            elif b.op == "call" and b.args[0].op == "attr" and \
                    b.args[0].args[1] == "resolution":
                return cval(t.args[1]) % 2, positive
            else:
                return None

    def leaf(self, t):
        c = self.cell(t)
        if c is not None:
            return self.z(*c)
        r = self.resolution(t)
        if r is not None:
            k, positive = r
            v = self.ry if k else self.rx
            return -v if positive and k else v
        if t.op == "call" and t.args[0].op == "ext" and t.args[1] and \
                t.args[0].args[0].rsplit(".", 1)[-1] in ("abs", "absolute"):
            r = self.resolution(t.args[1][0])
            if r is not None:
                return -self.ry if r[0] else self.rx
        if t in self.params:
            return sym(self.params[t])
        if t.op == "phi":
            if t.args[0] in self.choice:
                return self.alg.ev(t.args[1] if self.choice[t.args[0]]
                                   else t.args[2])
            raise Need(t.args[0])
        return None

    def paths(self, t, known):
        """[(conditions, value)]; a value is None where it has no rule."""
        out = []

        def go(choice):
            if len(out) > 64:
                return
            self.choice = choice
            self.alg.memo = {}
            try:
                out.append((dict(choice), self.alg.ev(t)))
            except Unknown:
                out.append((dict(choice), None))
            except Need as n:
                go({**choice, n.cond: True})
                go({**choice, n.cond: False})
        go(dict(known))
        return out

    def value(self, t, choice):
        self.choice = choice
        self.alg.memo = {}
        try:
            return self.alg.ev(t)
        except (Unknown, Need):
            return None


def plane(rx, ry):
    p, q, s = sym("p"), sym("q"), sym("s")
    return lambda dr, dc: p + q * rx * num(dc) + s * ry * num(dr)


def kernels(A, ip, q):
    """[(stores, blocks, params)] of the block functions an entry runs."""
    out = []
    runs = [r for r in A.runs if r.entry.qual == q]
    if not runs:
        return out
    saved = A.runs, A.module_events
    A.runs = runs
    A.module_events = []
    try:
        for f, pa, pk, how, cev, st in A.callbacks():
            if "map_" not in str(how):
                continue
            try:
                v, evs, s2, blocks, _ = A.run_callback(f, pa, pk, cev, st)
            except Exception:
                ip.stack = []
                continue
            st2 = [x for x in evs if x.kind == "setitem" and
                   x.data[0].op == "tuple" and len(x.data[0].args) == 2 and
                   any(c.op == "iter" for c, _ in x.cond)]
            if st2:
                out.append((st2, set(blocks.values())))
    finally:
        A.runs, A.module_events = saved
    return out


def run(rep, root, thorough):
    A = Analysis(root, only=lambda e: e.qual.startswith("surface."))
    ip = A.ip
    I = Influence(ip)
    entries = {r.entry.qual: r.entry for r in A.runs}
    stats = {"formulas": 0, "paths": 0, "paths not judged": 0}

    def each(q, z, rx, ry, judge):
        e = entries.get(q)
        if e is None:
            return
        names = {p: n for n, p in e.params + e.kwonly}
        seen = False
        for stores, base in kernels(A, ip, q):
            for x in stores:
                known = {c: p for c, p in x.cond if c.op != "iter"}
                try:
                    W = Window(ip, base, x.data[0].args, z, rx, ry, names)
                except Unknown:
                    continue
                for choice, v in W.paths(x.data[1], known):
                    stats["paths"] += 1
                    if v is None:
                        stats["paths not judged"] += 1
                        continue
                    seen = True
                    why = judge(W, choice, v, names)
                    rep.ob(why is None, {"operation": q,
                                         "formula at": "%s:%d" % x.loc})
                    if why:
                        rep.add("formula", "%s|%s" % (q, why[0]),
                                "%s: %s" % (q, why[1]),
                                where="%s:%d" % x.loc, entry=q,
                                path="when " + ", ".join(
                                    "%s%s" % ("" if b else "not ",
                                              show(c, 3)[:60])
                                    for c, b in choice.items()
                                    if c.op not in ("iter",)))
        stats["formulas"] += seen

    q, s, pi = sym("q"), sym("s"), sym("pi")
    rx, ry = sym("rx"), sym("ry")
    deg = num(180) / pi

    def slope(W, choice, v, names):
        g = W.alg.sqrt(q * q + s * s)
        rise = g
        angle = W.alg.atom("arctan", [g]) * deg
        for c, pol in choice.items():
            if flag(c, names) == "degrees":
                want = angle if pol else rise
                return None if v == want else (
                    "plane", "the slope of a plane with gradient (q, s) is "
                    "not its %s" % ("angle in degrees" if pol else
                                    "rise over run"))
        return None if v == rise or v == angle else (
            "plane", "the slope of a plane is neither its angle nor its "
            "rise over run")

    each("surface.slope", plane(rx, ry), rx, ry, slope)

    def aspect(W, choice, v, names):
        c = v.constant()
        flat = [k for k, pol in choice.items() if zero_test(W, k)]
        if c is not None:
            return None if c == -1 else (
                "flat", "flat cells get %s, not -1" % c)
        a = W.alg.atom("arctan2", [-s, -q]) * deg
        for k, pol in choice.items():
            if k.op != "cmp" or k.args[0] not in ("<", "<="):
                continue
            l = W.value(k.args[1], choice)
            r = W.value(k.args[2], choice)
            if l is None or r is None:
                continue
            if l == a and r == num(90):
                low = pol
            elif r == a and l == num(90):
                low = not pol
            else:
                continue
            want = num(90) - a if low else num(450) - a
            return None if v == want else (
                "compass", "the compass direction is not %s - the angle of "
                "the downslope direction" % (90 if low else 450))
        if v == num(90) - a or v == num(450) - a:
            return None
        return ("plane", "the aspect of a plane with gradient (q, s) is not "
                "computed from arctan2(-s, -q)")

    each("surface.aspect", plane(num(1), num(-1)), num(1), num(-1), aspect)

    def curv_flat(W, choice, v, names):
        return None if v.zero() else (
            "plane", "the curvature of a plane is not zero")

    each("surface.curvature", plane(rx, ry), rx, ry, curv_flat)
    L = sym("L")
    al, be, ga = sym("alpha"), sym("beta"), sym("gamma")

    def bowl(dr, dc):
        x, y = L * num(dc), -L * num(dr)
        return al * x * x + be * y * y + ga * x * y

    def curv(W, choice, v, names):
        want = num(-200) * (al + be)
        return None if v == want else (
            "bowl", "the curvature of alpha x^2 + beta y^2 + gamma x y is "
            "not -200 (alpha + beta)")

    each("surface.curvature", bowl, L, -L, curv)

    def shade(W, choice, v, names):
        c = v.constant()
        if c is not None:
            return None if c == 0 else ("dark", "a constant %s" % c)
        e = W.alg
        z = (num(90) - sym("altitude")) * pi / num(180)
        a = (num(450) - sym("azimuth")) * pi / num(180)
        sl = e.atom("arctan", [e.sqrt(q * q + s * s)])
        t = e.atom("arctan2", [-s, -q])
        cands = [t, t + num(2) * pi, t - num(2) * pi]
        if any(zero_test(W, k) == "q" for k in choice):
            cands += [pi / num(2), num(3) * pi / num(2), -pi / num(2)]
            sign = [signed(W, k, pol) for k, pol in choice.items()]
            if "s<0" in sign and "s>0" not in sign:
                cands = cands[:3] + [pi / num(2)]
            elif "s>0" in sign and "s<0" not in sign:
                cands = cands[:3] + [num(3) * pi / num(2), -pi / num(2)]
        cs = lambda x: e.atom("cos", [x])
        sn = lambda x: e.atom("sin", [x])
        for t in cands:
            want = num(255) * (cs(z) * cs(sl) +
                               sn(z) * sn(sl) * cs(a - t))
            if v == want:
                return None
        return ("plane", "the shade of a plane is not 255 (cos z cos slope + "
                "sin z sin slope cos(azimuth - aspect))")

    each("surface.hillshade", plane(rx, ry), rx, ry, shade)

    def flat_area(W, choice, v, names):
        return None if v == L * L or v.constant() == 0 else (
            "flat", "the surface area of a flat cell is not its area")

    z0 = sym("p")
    each("surface.surface_area_3d", lambda dr, dc: z0, L, -L, flat_area)

    def cells(dr, dc):
        return sym("z%d,%d" % (dr, dc)) if (dr, dc) != (9, 9) else None

    def area(W, choice, v, names):
        return triangles(W, v, L)

    each("surface.surface_area_3d", cells, L, -L, area)
    trig(rep, A, I, entries)
    rep.counts.update(stats)
    rep.floor("formulas judged", stats["formulas"], 2)
    rep.explanation = (
        "The formula each surface kernel stores is extracted from the source "
        "and evaluated exactly over polynomials with the window replaced by "
        "a plane, a paraboloid or a flat or arbitrary surface; the result "
        "has to be the known slope, aspect, curvature, shade or area, for "
        "every gradient, cell size and sun position.")
    rep.assumptions = [
        "rasters are north up: the y resolution is negative",
        "a formula that uses operations without an algebraic rule is not "
        "judged"]


def flag(c, names):
    for x in walk(c):
        if x in names and names[x] == "degrees":
            return "degrees"
    return None


def zero_test(W, c):
    """"q"/"s" if the condition compares that gradient with zero"""
    if c.op == "cmp" and c.args[0] in ("==", "!="):
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if is_const(b) and cval(b) == 0:
                v = W.value(a, {})
                if isinstance(v, R):
                    for n in "qs":
                        if v == sym(n) or v == -sym(n):
                            return n
    return None


def signed(W, c, pol):
    """"s>0"/"s<0" if the condition says so (weak inequalities count)"""
    if c.op != "cmp" or c.args[0] not in ("<", "<="):
        return None
    a, b = W.value(c.args[1], {}), W.value(c.args[2], {})
    if a is None or b is None:
        return None
    d = b - a
    if d == sym("s"):
        up = True
    elif d == -sym("s"):
        up = False
    else:
        return None
    if not pol:
        # not (0 < s) is s <= 0: no strict sign
        return None
    return "s>0" if up else "s<0"


def triangles(W, v, L):
    """The area is the sum of the areas of the eight triangles between the
    cell and two consecutive neighbours, by Heron's formula on half the
    distances between the cells."""
    e = W.alg
    atoms = {n: (f, a) for n, f, a in e.atoms}
    if len(v.d.t) != 1:
        return None
    areas = []
    for k, c in v.n.t.items():
        if len(k) != 1 or k[0][1] != 1 or k[0][0] not in atoms or \
                atoms[k[0][0]][0] != "sqrt":
            return None         # another form
        areas.append((c, atoms[k[0][0]][1][0]))
    ring = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1),
            (0, -1)]
    # every side: sqrt(|d|^2 L^2 + (u - v)^2)
    used = {s for _, a in areas for s in a.syms()} & set(atoms)
    sides = {}
    for n in used:
        f, a = atoms[n]
        zs = sorted(x for x in a[0].syms() if x.startswith("z"))
        if f != "sqrt" or len(zs) != 2:
            return ("sides", "a side does not join two cells")
        u, w = [tuple(int(y) for y in x[1:].split(",")) for x in zs]
        d2 = (u[0] - w[0]) ** 2 + (u[1] - w[1]) ** 2
        diff = sym(zs[0]) - sym(zs[1])
        if not a[0] == num(d2) * L * L + diff * diff:
            return ("sides", "the distance between the cells %s and %s is "
                    "not sqrt(%d L^2 + dz^2)" % (u, w, d2))
        sides[frozenset((u, w))] = n
    want = []
    for i in range(8):
        a, b = ring[i], ring[(i + 1) % 8]
        tri = [frozenset(x) for x in (((0, 0), a), ((0, 0), b), (a, b))]
        if any(x not in sides for x in tri):
            return ("triangles", "the triangle between the cell and its "
                    "neighbours %s and %s is missing" % (a, b))
        x, y, z = [sym(sides[t]) / num(2) for t in tri]
        si = (x + y + z) / num(2)
        want.append(si * (si - x) * (si - y) * (si - z))
    if len(areas) != 8:
        return ("triangles", "%d triangles instead of 8" % len(areas))
    for w in want:
        hit = [i for i, (c, a) in enumerate(areas) if a == w]
        if not hit:
            return ("triangles", "a triangle's area is not Heron's formula "
                    "on its three sides")
        if R(v.n) / R(v.d) is None:
            return None
        areas.pop(hit[0])
    return None


def trig(rep, A, I, entries):
    ip = A.ip
    from .c09 import base
    for q, fn, other in (("surface.northing", "cos", "sin"),
                         ("surface.easting", "sin", "cos")):
        e = entries.get(q)
        if e is None:
            continue
        free = {n for n, _ in e.params + e.kwonly}
        v, st, evs = call(ip, e, free, {})
        if v is None or noreturn(v):
            continue
        names = {base(x.args[0]) for x in I.params(v, st, values=True)
                 if x.op == "ext"}
        if not names & {fn, other}:
            continue
        ok = fn in names and other not in names
        rep.ob(ok, {"operation": q, "is": "%s of the aspect" % fn})
        if not ok:
            rep.add("formula", q, "%s is not the %s of the aspect" % (q, fn),
                    where="%s:%d" % (e.modname, e.node.lineno), entry=q)
        ok = bool(names & {"radians", "deg2rad", "pi"})
        rep.ob(ok)
        if not ok:
            rep.add("formula", q + "|degrees", "%s takes the %s of degrees "
                    "as radians" % (q, fn), where="%s:%d" % (
                        e.modname, e.node.lineno), entry=q)
    e = entries.get("surface.tpi")
    if e is not None:
        free = {n for n, _ in e.params + e.kwonly}
        v, st, evs = call(ip, e, free, {})
        if v is not None and not noreturn(v):
            dem = dict(e.params).get("dem") or e.params[0][1]
            for x in I.params(v, st, values=True):
                if x.op == "call" and x.args[0].op == "ext" and \
                        base(x.args[0].args[0]) == "subtract" and \
                        len(x.args[1]) == 2:
                    far = [any(y.op == "call" and y.args[0].op == "attr" and
                               y.args[0].args[1] in ("map_overlap",
                                                     "map_blocks")
                               or y.op == "ext" and "ndfilters" in y.args[0]
                               for y in walk(a)) for a in x.args[1]]
                    if far[0] != far[1]:
                        rep.ob(far[1], {"operation": "surface.tpi"})
                        if not far[1]:
                            rep.add("formula", "surface.tpi",
                                    "tpi subtracts the cell from its "
                                    "neighbourhood's mean", entry=e.qual,
                                    where="%s:%d" % (e.modname,
                                                     e.node.lineno))
