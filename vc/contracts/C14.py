"""C14: global Knox test: observed and expected tables from the pairs of close events, p-value over permutations of the times."""
import z3
from vc.core import I, R, Unsupported
from vc.harness import *
from vc.shims import lib
from vc import sums
from vc.values import sqrt, zi
from vc.contracts.C16 import data, order, ind, pairs_sum, number

M = "pointpats.spacetime."
TRUSTED = ["scipy KDTree ball queries, numpy as specified in vc/shims", "random permutations are arbitrary bijections", "scipy.stats.poisson is a function of its arguments", "floats are real numbers"]


def spec(n, D, G, d, tau):
    near_s = lambda i, j: D(i, j) <= d.z
    near_t = lambda i, j: G(i, j) <= tau.z
    N = z3.ToReal(zi(n))
    P = N * (N - 1) / 2
    half = lambda f: Sum(n, lambda i: Sum(n, lambda j: ind(z3.And(i != j, f(i, j))))) / 2
    ns, nt, nst = half(near_s), half(near_t), half(lambda i, j: z3.And(near_s(i, j), near_t(i, j)))
    stat_of = lambda q: half(lambda i, j: z3.And(near_s(i, j), near_t(q(i), q(j))))
    return P, ns, nt, nst, stat_of


def even(E, n, f):
    """the ordered pairs of distinct events are twice the unordered ones, f being symmetric"""
    A = Sum(n, lambda i: Sum(n, lambda j: ind(z3.And(i != j, f(i, j)))))
    up = Sum(n, lambda i: Sum(n, lambda j: ind(z3.And(i < j, f(i, j)))))
    lo, up2 = sums.exchange(E, z3.IntVal(0), zi(n), z3.IntVal(0), zi(n), lambda i, j: ind(z3.And(j < i, f(i, j))))
    lemma("pairs (i, j) and (j, i) alike", up == up2)
    lemma("ordered pairs are twice the unordered pairs", A == up + lo)
    m = z3.Int("pairs")  # a sum of zeros and ones is an integer
    E.assume(up == z3.ToReal(m))
    lemma("an integer number of pairs", z3.ToInt(A) == 2 * m)


def tables(o, e, P, ns, nt, nst):
    for name, t in (("observed", o), ("expected", e)):
        dims(name, t, (2, 2))
    O, X = (lambda i, j: T(o.el(i, j))), (lambda i, j: T(e.el(i, j)))
    ensure("observed: close in space and time", O(0, 0) == nst)
    ensure("observed: close in space only", O(0, 1) == ns - nst)
    ensure("observed: close in time only", O(1, 0) == nt - nst)
    ensure("observed: close in neither", O(1, 1) == P - ns - nt + nst)
    ensure("observed: all pairs", O(0, 0) + O(0, 1) + O(1, 0) + O(1, 1) == P)
    ensure("expected: product form", X(0, 0) == ns * nt / P)
    ensure("expected: space margin", X(0, 0) + X(0, 1) == ns)
    ensure("expected: time margin", X(0, 0) + X(1, 0) == nt)
    ensure("expected: all pairs", X(0, 0) + X(0, 1) + X(1, 0) + X(1, 1) == P)


def simulated(E, n, R, nst, stat_of, p, sim, keep):
    at = order(E, n)
    c = Sum(R, lambda r: ind(stat_of(at(r)) >= nst))
    ensure("p-value", number(p) == (c + 1) / (z3.ToReal(zi(R)) + 1))
    ensure("p-value in (0, 1]", z3.And(number(p) > 0, number(p) <= 1))
    if keep:
        dims("kept statistics", sim, (R,))
        forall("kept statistics are the permutations' numbers of pairs", [(0, R)], lambda r: T(sim.el(r)) == stat_of(at(r)))


for _R in (None, "R"):
    for _keep in (False, True):
        _nm = f"{'permutations' if _R else 'no permutations'}{', keep' if _keep else ''}"

        @contract("C14", f"Knox[{_nm}]", [M + "Knox.__init__", M + "_knox"])
        def _(E, R=_R, keep=_keep):
            n, S, Tm, D, G = data(E)
            R = R and sint("R", 1)
            d, tau = sreal("delta"), sreal("tau")
            E.assume(z3.And(d.z >= 0, tau.z >= 0))
            k = mod("spacetime").Knox(S, Tm, d, tau, permutations=R or 0, keep=keep)
            P, ns, nt, nst, stat_of = spec(n, D, G, d, tau)
            even(E, n, lambda i, j: z3.And(D(i, j) <= d.z, G(i, j) <= tau.z))
            ensure("number of space-time pairs", z3.And(number(k.nst) == nst, number(k.statistic_) == nst))
            tables(k.observed, k.expected, P, ns, nt, nst)
            if R is None:
                ensure("no permutation drawn", not E.ghost.get("draws"))
                ensure("no p-value", not hasattr(k, "p_sim"))
            else:
                simulated(E, n, R, nst, stat_of, k.p_sim, getattr(k, "sim", None), keep)
                ensure("statistics kept only on request", hasattr(k, "sim") == keep)
