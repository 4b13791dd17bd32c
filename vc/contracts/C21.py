"""C21: bounding rectangles and hulls are exact."""
import z3
from vc.core import I, R, to_real
from vc.harness import *
from vc.shims import lib
from vc.values import zi

C = "pointpats.centrography."
TRUSTED = ["Qhull: the hull's vertices are points of the input, in counterclockwise order around all of them", "GEOS: convex_hull, envelope and minimum_rotated_rectangle of a geometry enclose it; the first has vertices of its input only, the second is the rectangle of the coordinate extremes", "numpy min and max"]
P = z3.Function("P", I, I, R)


def forms(n):
    yield "array", lambda: sarray("P", (n, 2))
    yield "list", lambda: points_list("P", n)[0]


def extremes(r, n):
    for q, (c, up) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1)]):
        v = T(lift(r[q]))
        nm = f"{'greatest' if up else 'least'} {'xy'[c]}"
        forall(f"{nm} is a bound", [(0, n)], lambda i: P(i, z3.IntVal(c)) <= v if up else P(i, z3.IntVal(c)) >= v)
        attained(f"{nm} is attained", n, lambda i: P(i, z3.IntVal(c)) == v)


def same_points(name, env, op, n):
    """the named GEOS operation on exactly the points of the pattern"""
    if not (isinstance(env, lib.Env) and env.op == op):
        fail(f"{name} is not the {op} of the points")
    X = env.of()
    dims(name + ": the points enclosed", X, (n, 2))
    each(name + ": x of the points", 0, n, lambda i: T(X.el(i, z3.IntVal(0))) == P(i, z3.IntVal(0)))
    each(name + ": y of the points", 0, n, lambda i: T(X.el(i, z3.IntVal(1))) == P(i, z3.IntVal(1)))


for _f in ("array", "list"):
    @contract("C21", f"minimum_bounding_rectangle[{_f}]", [C + "minimum_bounding_rectangle"])
    def _(E, f=_f):
        n = sint("n", 1)
        r = mod("centrography").minimum_bounding_rectangle(dict(forms(n))[f]())
        extremes(pair("rectangle", r, 4), n)

    @contract("C21", f"bbox[{_f}]", ["pointpats.geometry.bbox"])
    def _(E, f=_f):
        n = sint("n", 1)
        r = mod("geometry").bbox(dict(forms(n))[f]())
        dims("box", r, (4,))
        extremes([r.el(q) for q in range(4)], n)

    @contract("C21", f"hull[{_f}]", [C + "hull"])
    def _(E, f=_f):
        n = sint("n", 3)
        r = mod("centrography").hull(dict(forms(n))[f]())
        hs = E.ghost.get("hulls", [])
        ensure("the hull is computed", bool(hs))
        h, v = hs[-1], E.ghost["hull_vertices"][-1]
        X, m = h.points, h.nvert
        # contract of Qhull: every point of its input lies left of (or on) every edge
        at = lambda i: [T(X.el(v(i), z3.IntVal(c))) for c in (0, 1)]
        nxt = lambda i: z3.If(i + 1 < m, i + 1, z3.IntVal(0))
        nin = zi(X._shape[0])
        left = z3.Function("left_of_edge", I, I, z3.BoolSort())
        edge = lambda i, k: z3.And(*[lib.turn(at(i), at(nxt(i)), [T(X.el(k, z3.IntVal(c))) for c in (0, 1)]) >= 0])
        i, k = z3.Ints("hi hk")
        E.assume(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < m, 0 <= k, k < nin), left(i, k)), patterns=[left(i, k)]), "Qhull: the hull encloses its input")
        E.assume(z3.ForAll([i, k], left(i, k) == edge(i, k), patterns=[left(i, k)]))
        ensure("the hull of all the points", nin == zi(n))
        M = zi(r._shape[0])
        ensure("two coordinates for every corner", r.ndim == 2 and z3.And(M == m, zi(r._shape[1]) == 2))
        forall("the corners are points of the pattern", [(0, M)], lambda q: z3.And(0 <= v(q), v(q) < zi(n), *[T(r.el(q, z3.IntVal(c))) == P(v(q), z3.IntVal(c)) for c in (0, 1)]))
        c = lambda q: [T(r.el(q, z3.IntVal(d))) for d in (0, 1)]
        enclosed = lambda q, k: lib.turn(c(q), c(nxt(q)), [P(k, z3.IntVal(d)) for d in (0, 1)]) >= 0
        forall("every point is on the inner side of every edge", [(0, M), (0, n)], lambda q, k: z3.Or(z3.Not(left(q, k)), enclosed(q, k)))
        forall("for every edge and every point", [(0, M), (0, n)], lambda q, k: left(q, k))

    @contract("C21", f"minimum_rotated_rectangle[{_f}]", [C + "minimum_rotated_rectangle", C + "_get_mrr_angle"])
    def _(E, f=_f):
        n = sint("n", 3)
        rectangle(E, n, mod("centrography").minimum_rotated_rectangle(dict(forms(n))[f]()))
        r = pair("rectangle and angle", mod("centrography").minimum_rotated_rectangle(dict(forms(n))[f](), return_angle=True), 2)
        rectangle(E, n, r[0])
        a = T(lift(r[1]))
        ensure("an angle below a right angle", z3.And(a >= 0, a < 90))


def rectangle(E, n, r):
    dims("corners", r, (4, 2))
    c = [[T(r.el(i, d)) for d in (0, 1)] for i in range(4)]
    k = z3.Int("point")
    p = [P(k, z3.IntVal(d)) for d in (0, 1)]
    around = lambda s: z3.And(*[s * lib.turn(a, b, p) >= 0 for a, b in zip(c, c[1:] + c[:1])])
    ensure("every point lies on the inner side of all four sides",
           z3.Or(*[z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), around(s)), patterns=[p[0]]) for s in (1, -1)]))


@contract("C21", "GeoSeries", [C + "minimum_bounding_rectangle", C + "hull", C + "minimum_rotated_rectangle", C + "_get_mrr_angle"])
def _(E):
    n = sint("n", 3)
    M = mod("centrography")
    g = lib.GeoSeries(sarray("P", (n, 2)))
    same_points("bounding rectangle", M.minimum_bounding_rectangle(g), "envelope", n)
    same_points("hull", M.hull(g), "convex_hull", n)
    same_points("rotated rectangle", M.minimum_rotated_rectangle(g), "minimum_rotated_rectangle", n)
    r = pair("rectangle and angle", M.minimum_rotated_rectangle(g, return_angle=True), 2)
    same_points("rotated rectangle with its angle", r[0], "minimum_rotated_rectangle", n)
    a = T(lift(r[1]))
    ensure("an angle below a right angle", z3.And(a >= 0, a < 90))
