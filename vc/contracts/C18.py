"""C18: centres and standard distance equal their definitions."""
import z3
from vc.harness import *
from vc.shims import lib

TRUSTED = ["numpy reductions, sqrt and median as specified in vc/shims/np_.py", "floats are real numbers"]


def _variants():
    yield "array", lambda n: sarray("P", (n, 2))
    yield "list", lambda n: points_list("P", n)[0]
    yield "geoseries", lambda n: lib.GeoSeries(sarray("P", (n, 2)))


P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())


def each(fname):
    def deco(f):
        for vn, mk in _variants():
            def run(E, f=f, mk=mk, vn=vn):
                n = sint("n", 1)
                f(E, mod("centrography"), mk(n), n, vn)
            contract("C18", f"centrography.{fname}[{vn}]", [f"pointpats.centrography.{fname}"])(run)
        return f
    return deco


def xy(r, vn):
    if vn == "geoseries":
        return r.x, r.y
    return r[0], r[1]


@each("mean_center")
def _(E, M, pts, n, vn):
    r = M.mean_center(pts)
    if vn != "geoseries":
        dims("centre", r, (2,))
    for c, v in enumerate(xy(r, vn)):
        same_number(f"mean of column {c}", v, Sum(n, lambda j: P(j, c)) / z3.ToReal(zi(n)))


@each("weighted_mean_center")
def _(E, M, pts, n, vn):
    w = sarray("w", (n,))
    W = Sum(n, lambda j: T(w.el(j)))
    E.assume(W != 0, "the weights do not sum to zero (precondition)")
    r = M.weighted_mean_center(pts, w)
    for c, v in enumerate(xy(r, vn)):
        same_number(f"weighted mean of column {c}", v, Sum(n, lambda j: T(w.el(j)) * P(j, c)) / W)


@each("std_distance")
def _(E, M, pts, n, vn):
    r = M.std_distance(pts)
    N = z3.ToReal(zi(n))
    mx, my = (Sum(n, lambda j: P(j, c)) / N for c in (0, 1))
    ms = Sum(n, lambda j: (P(j, 0) - mx) * (P(j, 0) - mx) + (P(j, 1) - my) * (P(j, 1) - my)) / N
    ensure("square is the mean squared distance", T(r) * T(r) == ms)
    ensure("not negative", T(r) >= 0)


@each("manhattan_median")
def _(E, M, pts, n, vn):
    r = M.manhattan_median(pts)
    from vc.shims import np_
    for c, v in enumerate(xy(r, vn)):
        med = np_.median(SArr((n,), lambda ix: Sc(P(ix[0], z3.IntVal(c)), "f"), "f"))
        same_number(f"median of column {c}", v, med.z)


@contract("C18", "centrography.dtot[array]", ["pointpats.centrography.dtot"])
def _(E):
    n = sint("n", 1)
    _dtot(E, sarray("P", (n, 2)), n)


@contract("C18", "centrography.dtot[list]", ["pointpats.centrography.dtot"])
def _(E):
    n = sint("n", 1)
    _dtot(E, points_list("P", n)[0], n)


def _dtot(E, pts, n):
    c = sarray("c", (2,))
    cx, cy = T(c.el(0)), T(c.el(1))
    if isinstance(pts, VList):
        c = VList([c[0], c[1]])
    r = mod("centrography").dtot(c, pts)
    same_number("sum of the Euclidean distances", r, Sum(n, lambda j: sqrt_term((P(j, 0) - cx) * (P(j, 0) - cx) + (P(j, 1) - cy) * (P(j, 1) - cy))))


@contract("C18", "translation", ["pointpats.centrography.mean_center", "pointpats.centrography.weighted_mean_center", "pointpats.centrography.std_distance"])
def _(E):
    """lemma over the contracts above: run the real functions on P and on P + t"""
    n = sint("n", 1)
    t = [sreal("tx"), sreal("ty")]
    Q = SArr((n, 2), lambda ix: Sc(P(*ix) + z3.If(ix[1] == 0, t[0].z, t[1].z), "f"), "f", frozen="Q")
    A = sarray("P", (n, 2))
    M = mod("centrography")
    w = sarray("w", (n,))
    E.assume(Sum(n, lambda j: T(w.el(j))) != 0, "the weights do not sum to zero (precondition)")
    for nm, f in (("mean_center", lambda p: M.mean_center(p)), ("weighted_mean_center", lambda p: M.weighted_mean_center(p, w))):
        a, b = f(A), f(Q)
        for c in (0, 1):
            same_number(f"{nm} is translated, column {c}", b.el(c), T(a.el(c)) + t[c].z)
    a, b = M.std_distance(A), M.std_distance(Q)
    ensure("std_distance is unchanged", T(a) * T(a) == T(b) * T(b))


@contract("C18", "centrography.dtot[geoseries]", ["pointpats.centrography.dtot"])
def _(E):
    n = sint("n", 1)
    cx, cy = sreal("cx"), sreal("cy")
    r = mod("centrography").dtot(lib.Point(cx, cy), lib.GeoSeries(sarray("P", (n, 2))))
    same_number("sum of the Euclidean distances", r, Sum(n, lambda j: sqrt_term((P(j, 0) - cx.z) * (P(j, 0) - cx.z) + (P(j, 1) - cy.z) * (P(j, 1) - cy.z))))
