"""C07: K counts exactly the pairs closer than d; L is its root transform."""
import z3
from vc.harness import *
from vc.shims import lib, np_
from vc.contracts import common
from vc.contracts.common import nearest

TRUSTED = ["scipy pdist and numpy triu_indices_from enumerate the pairs i < j (vc/shims)", "numpy comparison, sum, sqrt, linspace as specified in vc/shims/np_.py", "floats are real numbers", "pi is a fixed positive number"]
D = "pointpats.distance_statistics."
FUN = [D + "k", D + "_prepare", "pointpats.geometry.prepare_hull", "pointpats.geometry.bbox", "pointpats.geometry.area"]
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())
DM = z3.Function("D", z3.IntSort(), z3.IntSort(), z3.RealSort())


def box_area(E, n):
    col = lambda c: SArr((n,), lambda ix: Sc(P(ix[0], z3.IntVal(c)), "f"), "f")
    lo, hi = [[T(which(col(c))) for c in (0, 1)] for which in (np_.amin, np_.amax)]
    p = (hi[0] - lo[0]) * (hi[1] - lo[1])
    A = z3.If(p >= 0, p, -p)
    E.assume(A > 0, "the bounding box of the events has a positive area (precondition)")
    return A


def eucl(i, j):
    dx, dy = P(i, 0) - P(j, 0), P(i, 1) - P(j, 1)
    return sqrt_term(dx * dx + dy * dy)


def k_spec(E, n, A, d, dist):
    N = z3.ToReal(zi(n))
    pairs = Sum(n, lambda i: Sum(n, lambda j: dist(i, j) < d, lo=i + 1))
    return 2 * pairs / N / (N / A)


def supports(m):
    s = sarray("s", (m,))
    yield "array", s, m, lambda q: T(s.el(q))
    a, b = sreal("a"), sreal("b")
    yield "stop", (b,), 20, lambda q: z3.ToReal(q) * b.z / 19
    yield "start, stop", (a, b), 20, lambda q: a.z + z3.ToReal(q) * (b.z - a.z) / 19
    c = sint("c", 2)
    yield "start, stop, number", (a, b, c), c, lambda q: a.z + z3.ToReal(q) * (b.z - a.z) / z3.ToReal(c.z - 1)


def data(kind, n):
    X = sarray("P", (n, 2))
    if kind == "coordinates":
        return X, {}, eucl
    if kind == "list":
        return points_list("P", n)[0], {}, eucl
    if kind == "geoseries":
        return lib.GeoSeries(X), {}, eucl
    if kind == "full matrix":
        return X, dict(distances=sarray("D", (n, n))), DM
    if kind == "condensed matrix":
        d = lib.pair_dom(n)
        v = SArr((d,), lambda ix: Sc(DM(*ix[0]), "f"), "f", frozen="D")
        return X, dict(distances=v), DM


def _k(kind, which):
    @contract("C07", f"k[{kind}; support {which}]", FUN)
    def _(E):
        n, m = sint("n", 2), sint("m", 1)
        A = box_area(E, n)
        X, kw, dist = data(kind, n)
        for nm, s, size, at in supports(m):
            if nm != which:
                continue
            r = mod("distance_statistics").k(X, support=s, **kw)
            vector("support", r[0], size, at)
            if dims("statistic", r[1], (size,)):
                forall("K(d)", [(0, size)], lambda q: T(r[1].el(q)) == k_spec(E, n, A, at(q), dist))


for _kind in ("coordinates", "list", "geoseries", "full matrix", "condensed matrix"):
    _k(_kind, "array")
for _which in ("stop", "start, stop", "start, stop, number"):
    _k("coordinates", _which)


for _lin in (False, True):
    for _kind in ("coordinates", "full matrix", "condensed matrix"):
        @contract("C07", f"l[{_kind}, linearized={_lin}]", [D + "l"] + FUN)
        def _(E, lin=_lin, kind=_kind):
            n, m = sint("n", 2), sint("m", 1)
            A = box_area(E, n)
            X, kw, dist = data(kind, n)
            s = sarray("s", (m,))
            r = mod("distance_statistics").l(X, support=s, linearized=lin, **kw)
            vector("support", r[0], m, lambda q: T(s.el(q)))
            if dims("statistic", r[1], (m,)):
                pi = T(np_.pi)
                forall("L(d)", [(0, m)], lambda q: T(r[1].el(q)) == sqrt_term(k_spec(E, n, A, T(s.el(q)), dist) / pi) - (T(s.el(q)) if lin else 0))


@contract("C07", "l[default options]", [D + "l"] + FUN)
def _(E):
    n, m = sint("n", 2), sint("m", 1)
    A = box_area(E, n)
    s = sarray("s", (m,))
    r = pair("result", mod("distance_statistics").l(sarray("P", (n, 2)), support=s))
    vector("L(d), not linearized", r[1], m, lambda q: sqrt_term(k_spec(E, n, A, T(s.el(q)), eucl) / T(np_.pi)))


for _sup in ("default", "count"):
    @contract("C07", f"k[coordinates; support {_sup}]", FUN + ["pointpats.geometry.build_best_tree"])
    def _(E, sup=_sup):
        n = sint("n", 2)
        A = box_area(E, n)
        nn = nearest(E, n, eucl)
        top = T(np_.amax(SArr((n,), lambda ix: Sc(nn(ix[0]), "f"), "f")))
        size = 20 if sup == "default" else sint("c", 2)
        with by_contract(geometry__k_neighbors=common.k_neighbors):
            r = pair("result", mod("distance_statistics").k(sarray("P", (n, 2)), support=None if sup == "default" else size))
        grid = lambda q: z3.ToReal(q) * top / (z3.ToReal(zi(size)) - 1)
        vector("support: an even grid up to the largest nearest-neighbour distance", r[0], size, grid)
        vector("K(d)", r[1], size, lambda q: k_spec(E, n, A, grid(q), eucl))
