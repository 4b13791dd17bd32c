"""C24: hull helpers agree on area, extent, containment and centre."""
import z3
from vc.harness import *
from vc.shims import lib, np_

TRUSTED = ["numpy min/max/mean/abs as specified in vc/shims/np_.py", "shapely and scipy geometries: area, bounds, covered points and centroid are fixed values of the geometry (vc/shims/lib.py)", "floats are real numbers"]
G = "pointpats.geometry."


def box():
    b = sarray("box", (4,))
    return b, [T(b.el(i)) for i in range(4)]


@contract("C24", "area[bbox]", [G + "area"])
def _(E):
    b, (x0, y0, x1, y1) = box()
    r = mod("geometry").area(b)
    p = (x1 - x0) * (y1 - y0)
    same_number("|width x height|", r, z3.If(p >= 0, p, -p))


@contract("C24", "area[list]", [G + "area"])
def _(E):
    b, (x0, y0, x1, y1) = box()
    r = mod("geometry").area(VList([b[0], b[1], b[2], b[3]]))
    p = (x1 - x0) * (y1 - y0)
    same_number("|width x height|", r, z3.If(p >= 0, p, -p))


@contract("C24", "area[polygon]", [G + "area"])
def _(E):
    g = lib.Polygon("hull")
    same_number("area of the polygon", mod("geometry").area(g), g.area.z)


@contract("C24", "bbox[bbox]", [G + "bbox"])
def _(E):
    b, _ = box()
    r = mod("geometry").bbox(b)
    vector("its box is itself", r, 4, lambda i: T(b.el(i)))


def extremes(E, r, P, n):
    dims("box", r, (4,))
    for q, (c, up) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1)]):
        v = T(r.el(q))
        nm = f"{'greatest' if up else 'least'} {'xy'[c]}"
        forall(f"{nm} is a bound", [(0, n)], lambda i: P(i, z3.IntVal(c)) <= v if up else P(i, z3.IntVal(c)) >= v)
        attained(f"{nm} is attained", n, lambda i: P(i, z3.IntVal(c)) == v)


P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())


def pts_variants():
    yield "array", lambda n: sarray("P", (n, 2))
    yield "list", lambda n: points_list("P", n)[0]


for _vn, _mk in pts_variants():
    @contract("C24", f"bbox[points {_vn}]", [G + "bbox"])
    def _(E, mk=_mk):
        n = sint("n", 1)
        extremes(E, mod("geometry").bbox(mk(n)), P, n)

    @contract("C24", f"prepare_hull[absent, {_vn}]", [G + "prepare_hull", G + "bbox"])
    def _(E, mk=_mk):
        n = sint("n", 1)
        extremes(E, mod("geometry").prepare_hull(mk(n)), P, n)
        extremes(E, mod("geometry").prepare_hull(mk(n), "bbox"), P, n)


@contract("C24", "bbox[polygon]", [G + "bbox"])
def _(E):
    g = lib.Polygon("hull")
    r = mod("geometry").bbox(g)
    dims("box", r, (4,))
    for i in range(4):
        same_number(f"bound {i}", r.el(i), g.bounds[i].z)


@contract("C24", "bbox[convex hull]", [G + "bbox"])
def _(E):
    n = sint("n", 3)
    X = sarray("P", (n, 2))
    h = lib.ConvexHull(X)
    r = mod("geometry").bbox(h)
    v = h.vertices
    m = v._shape[0]
    dims("box", r, (4,))
    for q, (c, up) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1)]):
        x = T(r.el(q))
        at = lambda i: P(v.el(i).z, z3.IntVal(c))
        forall(f"bound {q} bounds the hull vertices", [(0, m)], lambda i: at(i) <= x if up else at(i) >= x)
        attained(f"bound {q} is attained", m, lambda i: at(i) == x)


@contract("C24", "contains[bbox]", [G + "contains"])
def _(E):
    b, (x0, y0, x1, y1) = box()
    x, y = sreal("x"), sreal("y")
    r = mod("geometry").contains(b, x, y)
    same_truth("contained exactly if xmin <= x <= xmax and ymin <= y <= ymax", r, z3.And(x0 <= x.z, x.z <= x1, y0 <= y.z, y.z <= y1))


@contract("C24", "contains[polygon]", [G + "contains"])
def _(E):
    g = lib.Polygon("hull")
    x, y = sreal("x"), sreal("y")
    r = mod("geometry").contains(g, x, y)
    same_truth("contained exactly if the polygon covers the point", r, g.vc_contains_point(x, y))


@contract("C24", "contains[convex hull]", [G + "contains"])
def _(E):
    n = sint("n", 3)
    h = lib.ConvexHull(sarray("P", (n, 2)))
    x, y = sreal("x"), sreal("y")
    r = mod("geometry").contains(h, x, y)
    same_truth("contained exactly if a simplex of the triangulated hull holds the point", r, lib.in_convex_hull(h, x, y))


@contract("C24", "centroid[bbox]", [G + "centroid"])
def _(E):
    b, (x0, y0, x1, y1) = box()
    r = mod("geometry").centroid(b)
    dims("centre", r, (2,))
    same_number("midpoint x", r.el(0), (x0 + x1) / 2)
    same_number("midpoint y", r.el(1), (y0 + y1) / 2)


@contract("C24", "centroid[points]", [G + "centroid", "pointpats.centrography.mean_center"])
def _(E):
    n = sint("n", 1)
    r = mod("geometry").centroid(sarray("P", (n, 2)))
    dims("centre", r, (2,))
    for c in (0, 1):
        same_number(f"mean of column {c}", r.el(c), Sum(n, lambda j: P(j, c)) / z3.ToReal(zi(n)))


@contract("C24", "prepare_hull[ready-made]", [G + "prepare_hull"])
def _(E):
    n = sint("n", 3)
    X = sarray("P", (n, 2))
    M = mod("geometry")
    for nm, h in [("bounding box", box()[0]), ("polygon", lib.Polygon("hull")), ("multipolygon", lib.MultiPolygon(name="mhull")), ("geometry", lib.Geometry("ghull")), ("convex hull", lib.ConvexHull(X))]:
        r = M.prepare_hull(X, h)
        ensure(f"{nm} passes through unchanged", r is h)


@contract("C24", "area[convex hull]", [G + "area"])
def _(E):
    n = sint("n", 3)
    h = lib.ConvexHull(sarray("P", (n, 2)))
    same_number("area of the hull", mod("geometry").area(h), h.volume.z)


@contract("C24", "prepare_hull[convex]", [G + "prepare_hull"])
def _(E):
    n = sint("n", 3)
    h = mod("geometry").prepare_hull(sarray("P", (n, 2)), "convex")
    if not isinstance(h, lib.ConvexHull):
        fail("a convex hull", type(h).__name__)
    dims("hull of the coordinates", h.points, (n, 2))
    forall("hull of the coordinates", [(0, n), (0, 2)], lambda i, c: T(h.points.el(i, c)) == P(i, c))


@contract("C24", "centroid[polygon]", [G + "centroid"])
def _(E):
    g = lib.Polygon("hull")
    r = mod("geometry").centroid(g)
    dims("centre", r, (2,))
    same_number("x of the polygon's centroid", r.el(0), g.centroid.x.z)
    same_number("y of the polygon's centroid", r.el(1), g.centroid.y.z)
