"""C14: rows go with y and columns with x.

Every function of the package is interpreted over its syntax tree with the
axis each value belongs to (rtsa/axes.py): sources are shapes, chunks, block
locations, coordinates, resolutions, bounds and affine coefficients; the rule
is that a value along one axis is never used where the other axis is meant:
as an array index, in the shape of an array or grid, as a coefficient or
operand of a transform, as a coordinate or coordinate pair, as an overlap of
an axis, as an argument of a function that uses it along the other axis, or
in a difference with a value along the other axis; and that the functions
documented to return a pair return it in that order.
"""
import ast
import os

from ..axes import Axes


def modules(root):
    out = {}
    base = os.path.join(root, "raster_tools")
    for d, dirs, fs in os.walk(base):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                m = os.path.relpath(p, base)[:-3].replace(os.sep, ".")
                with open(p, encoding="utf-8") as fd:
                    out[m] = ast.parse(fd.read())
    return out


def run(rep, root, thorough):
    mods = modules(root)
    A = Axes(mods)
    A.run()
    names = {"Y": "rows (y)", "X": "columns (x)"}
    for (q, what, ax), (line, mod, fn, v, want, w) in A.findings.items():
        rep.add("axis", "%s|%s|%s" % (q, what, ax),
                "%s: a value along the %s is used where one along the %s "
                "belongs" % (what, names[v], names[want]),
                where="raster_tools/%s.py:%d" % (mod.replace(".", "/"), line),
                entry=fn)
    fns = set()
    for i, (q, line, col, what, ax) in enumerate(sorted(A.checked)):
        fns.add(q)
        ok = (q, what, ax) not in A.findings
        rep.ob(ok, {"function": q, "line": line, "use": what,
                    "axis": names[ax]} if i % 30 == 0 else None)
    rep.counts["functions"] = len(A.defs)
    rep.counts["functions with uses of an axis quantity"] = len(fns)
    rep.floor("uses of an axis quantity", len(A.checked), 150)
    rep.explanation = __doc__.split("\n\n", 1)[1].strip()
    rep.assumptions = [
        "a three-dimensional array is laid out band, y, x and a "
        "two-dimensional one y, x (the layout the constructors enforce)",
        "quantities whose axis the interpretation cannot tell are not judged",
    ]
