"""Contracts of helper functions that callers are checked against (each verified on its own, see C10)."""
import z3
from vc.core import I, R
from vc.harness import *
from vc.shims import lib
from vc.shims.lib import same_rows
from vc.values import arr, dim, same_dim


def k_neighbors(tree, coordinates, k, **kwargs):
    """pointpats.geometry.k_neighbors (verified in C10): row i lists k different other indices, none left out is closer, sorted by distance"""
    if kwargs:
        raise Unsupported("k_neighbors options")
    E = eng()
    A, X = tree.data, arr(coordinates)
    n, kz = zi(X._shape[0]), zi(k)
    if not same_dim(A._shape[0], X._shape[0]) or not same_rows(A, X):
        raise Unsupported("k_neighbors: the tree holds other points than the coordinates")
    E.defined(z3.And(kz >= 1, kz <= n - 1), "k_neighbors: 1 <= k <= n - 1 (precondition)")
    ds = lib.distfn(X, A)
    with E.quiet():
        ix = E.fresh_fun("nb", [I, I], I)
        i, c, d, j = (z3.Int(fresh_name(q)) for q in "icdj")
        row = z3.And(i >= 0, i < n)
        E.assume(z3.ForAll([i, c], z3.Implies(z3.And(row, c >= 0, c < kz), z3.And(ix(i, c) >= 0, ix(i, c) < n, ix(i, c) != i)), patterns=[ix(i, c)]), "contract of k_neighbors (verified in C10)")
        E.assume(z3.ForAll([i, c, d], z3.Implies(z3.And(row, 0 <= c, c < d, d < kz), z3.And(ix(i, c) != ix(i, d), ds(i, ix(i, c)) <= ds(i, ix(i, d)))), patterns=[z3.MultiPattern(ix(i, c), ix(i, d))]))
        left = lambda i, j: z3.And(*[z3.Implies(z3.And(q >= 0, q < kz), ix(i, q) != j) for q in [z3.IntVal(t) for t in range(k)]]) if isinstance(k, int) else None
        if isinstance(k, int):
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(row, j >= 0, j < n, j != i, left(i, j)), ds(i, j) >= ds(i, ix(i, kz - 1)))))
        else:
            inv = E.fresh_fun("place", [I, I], I)
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(row, j >= 0, j < n, j != i), z3.Or(z3.And(inv(i, j) >= 0, inv(i, j) < kz, ix(i, inv(i, j)) == j), ds(i, j) >= ds(i, ix(i, kz - 1)))), patterns=[inv(i, j)]))
        nearest = None
        if isinstance(k, int) and k == 1:
            for g in E.ghost.get("nearest", []):
                if same_dim(g["n"], X._shape[0]):
                    a, b = z3.Int(fresh_name("a")), z3.Int(fresh_name("b"))
                    from vc import sums
                    if sums._in_scope(E, [a, b], [a >= 0, a < n, b >= 0, b < n], lambda: bool(E.valid(E.unfold(ds(a, b)) == E.unfold(g["dist"](a, b)), 1500))):
                        nearest = g["d"]
                        E.assume(z3.ForAll([i], z3.Implies(row, ds(i, ix(i, 0)) == nearest(i)), patterns=[ix(i, 0)]))
                        break
    if nearest is None:
        D = SArr((X._shape[0], dim(kz)), lambda q: Sc(ds(q[0], ix(q[0], q[1])), "f"), "f")
    else:
        D = SArr((X._shape[0], 1), lambda q: Sc(nearest(q[0]), "f"), "f")
    N = SArr((X._shape[0], dim(kz)), lambda q: Sc(ix(q[0], q[1]), "i"), "i")
    return D, N


def nearest(E, n, dist, rows=None, self_excluded=True, name="nearest"):
    """ghost: the distance from i (0 <= i < rows) to the nearest (other) event, dist(i, nn(i)) for a nearest index nn(i)"""
    nn = z3.Function(name, z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("gi gj")
    N = zi(n)
    row = z3.And(i >= 0, i < (zi(rows) if rows is not None else N))
    ok = lambda a, b: a != b if self_excluded else z3.BoolVal(True)
    E.assume(z3.ForAll([i], z3.Implies(row, z3.And(nn(i) >= 0, nn(i) < N, ok(nn(i), i))), patterns=[nn(i)]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(row, j >= 0, j < N, ok(j, i)), dist(i, nn(i)) <= dist(i, j))))
    d = lambda i: dist(i, nn(i))
    if self_excluded and rows is None:
        E.ghost.setdefault("nearest", []).append(dict(n=n, dist=dist, d=d))
    if not self_excluded and rows is not None:
        E.ghost.setdefault("nearest_to", []).append(dict(n=n, rows=rows, dist=dist, d=d))
    return d
