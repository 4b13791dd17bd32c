"""C10: nearest neighbours are truly nearest and never the point itself."""
import z3
from vc.harness import *
from vc.shims import lib, np_
from vc.contracts import common
from vc.contracts.common import nearest

TRUSTED = ["KDTree/BallTree.query(x, k): k different rows, sorted by exact distance, none left out is closer (vc/shims/lib.py)", "pandas frames as columns over rows (vc/shims/pd_.py)", "floats are real numbers"]
G = "pointpats.geometry."
PP = "pointpats.pointpattern.PointPattern."
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())


def euclid(n):
    X = sarray("P", (n, 2))
    return lib.distfn(X, X)


def neighbours(E, D, N, n, k):
    """D, N are (n, k): the statement of the property"""
    dims("distances", D, (n, k))
    dims("indices", N, (n, k))
    nz, kz = zi(n), zi(k)
    eucl = euclid(n)
    ix = lambda i, c: zi(N.el(i, c).z)
    forall("an index of another point", [(0, n), (0, k)], lambda i, c: z3.And(ix(i, c) >= 0, ix(i, c) < nz, ix(i, c) != i))
    forall("different points", [(0, n), (0, k), (0, k)], lambda i, c, d: z3.Implies(c < d, ix(i, c) != ix(i, d)))
    i, j = z3.Ints("ei ej")
    dx, dy = P(i, 0) - P(j, 0), P(i, 1) - P(j, 1)
    ensure("the distance is Euclidean", eucl(i, j) == sqrt_term(dx * dx + dy * dy))
    forall("exact distances", [(0, n), (0, k)], lambda i, c: T(D.el(i, c)) == eucl(i, ix(i, c)))
    forall("non-decreasing distances", [(0, n), (0, k), (0, k)], lambda i, c, d: z3.Implies(c < d, T(D.el(i, c)) <= T(D.el(i, d))))
    c = z3.Int(fresh_name("c"))
    forall("no point left out is closer", [(0, n), (0, n)], lambda i, j: z3.Implies(z3.And(i != j, z3.Not(z3.Exists([c], z3.And(c >= 0, c < kz, ix(i, c) == j)))), eucl(i, j) >= T(D.el(i, kz - 1))))


for _tree in ("scipy", "sklearn"):
    for _k in (1, 2, "any"):
        @contract("C10", f"k_neighbors[{_tree}, k={_k}]", [G + "k_neighbors", G + "build_best_tree"])
        def _(E, tree=_tree, k=_k):
            n = sint("n", 2)
            if k == "any":
                k = sint("k", 1)
                E.assume(k.z < n.z)
            else:
                E.assume(n.z > k)
            X = sarray("P", (n, 2))
            t = lib.KDTree(X) if tree == "scipy" else mod("geometry").build_best_tree(X, "euclidean")
            r = pair("result", mod("geometry").k_neighbors(t, X, k))
            neighbours(E, r[0], r[1], n, k)


for _cols in (2, 4):
    @contract("C10", f"PointPattern.knn[{_cols} columns]", [PP + "knn", PP + "__init__", PP + "tree"])
    def _(E, cols=_cols):
        n, k = sint("n", 2), sint("k", 1)
        E.assume(k.z < n.z)
        with by_contract(geometry__k_neighbors=common.k_neighbors):
            pp = mod("pointpattern").PointPattern(sarray("P", (n, cols)))
            r = pair("result", pp.knn(k))
        neighbours(E, r[1], r[0], n, k)


@contract("C10", "PointPattern.knn[default, after other queries]", [PP + "knn", PP + "__init__", PP + "tree"])
def _(E):
    n = sint("n", 4)
    with by_contract(geometry__k_neighbors=common.k_neighbors):
        pp = mod("pointpattern").PointPattern(points_list("P", n)[0])
        pp.knn(3), pp.nnd, pp.min_nnd
        r = pair("result", pp.knn())
    neighbours(E, r[1], r[0], n, 1)


@contract("C10", "PointPattern nearest-neighbour summaries", [PP + p for p in ("nnd", "min_nnd", "max_nnd", "mean_nnd", "knn", "__init__")])
def _(E):
    n = sint("n", 2)
    d = nearest(E, n, euclid(n))
    with by_contract(geometry__k_neighbors=common.k_neighbors):
        pp = mod("pointpattern").PointPattern(sarray("P", (n, 2)))
        v = pp.nnd
        lo, hi, mean = pp.min_nnd, pp.max_nnd, pp.mean_nnd
    dims("nnd", v, (n, 1))
    forall("nnd", [(0, n)], lambda i: T(v.el(i, 0)) == d(i))
    forall("min_nnd is a lower bound", [(0, n)], lambda i: T(lo) <= d(i))
    attained("min_nnd is attained", n, lambda i: T(lo) == d(i))
    forall("max_nnd is an upper bound", [(0, n)], lambda i: T(hi) >= d(i))
    attained("max_nnd is attained", n, lambda i: T(hi) == d(i))
    same_number("mean_nnd", mean, Sum(n, lambda i: d(i)) / z3.ToReal(zi(n)))
