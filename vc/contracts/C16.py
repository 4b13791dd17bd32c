"""C16: classic space-time tests: statistics from their definitions, p-values over permutations of the times against the places."""
import z3
from vc.core import I, R, Unsupported
from vc.harness import *
from vc.shims import lib
from vc import sums
from vc.values import sqrt, zi

M = "pointpats.spacetime."
TRUSTED = ["scipy KDTree pairs, libpysal distance_matrix, numpy as specified in vc/shims", "KNN.from_array lists each event's k nearest others", "random permutations are arbitrary bijections", "pearsonr by its definition", "floats are real numbers"]


def data(E):
    n = sint("n", 3)
    S, Tm = sarray("S", (n, 2)), sarray("t", (n, 1))
    s = z3.Function("S", I, I, R)
    t0 = z3.Function("t", I, I, R)
    D = lambda i, j: lib.dist(S, i, S, j)
    G = lambda i, j: z3.If(t0(i, 0) >= t0(j, 0), t0(i, 0) - t0(j, 0), t0(j, 0) - t0(i, 0))
    return n, S, Tm, D, G


def order(E, n):
    """the permutation of iteration r, as drawn by the code: i -> position in the original order"""
    ds = [d for d in E.ghost.get("draws", []) if d["kind"] in ("shuffle", "permutation") and len(d["gens"]) == 1]
    if not ds:
        raise Unsupported("no permutation drawn in the loop over the permutations")
    d = ds[-1]
    if any(q["kind"] not in ("shuffle", "permutation") for q in E.ghost["draws"]):
        raise Unsupported("other random numbers")
    ensure("the times are reordered", zi(d["n"]) == zi(n))
    (g,), p = d["gens"], d["perm"]

    def at(r):
        return lambda i: z3.substitute(p(i), (g, r))
    return at


def ind(c):
    return z3.If(c, z3.RealVal(1), z3.RealVal(0))


def pairs_sum(n, f):
    """sum over i < j"""
    return Sum(n, lambda i: Sum(n, lambda j: z3.If(i < j, f(i, j), z3.RealVal(0))))


def number(x):
    if isinstance(x, SArr) and x.ndim:
        ensure("one number", z3.And(*[zi(d) == 1 for d in x._shape]))
    return T(x)


def p_of(stat_of, stat, n, R, two_sided=False):
    Rr = z3.ToReal(zi(R))
    c = Sum(R, lambda r: ind(stat_of(r) >= stat))
    if two_sided:
        c = z3.If(Rr - c < c, Rr - c, c)
    return (c + 1) / (Rr + 1)


def judge(E, name, out, R, n, stat, stat_of, two_sided=False, bare=True):
    if R is None:
        v = out if bare else out["stat"]
        ensure(f"{name}: statistic", number(v) == stat)
        if not bare:
            ensure("no p-value without permutations", not ("pvalue" in out))
        ensure("no permutation drawn", not E.ghost.get("draws"))
        return
    ensure(f"{name}: statistic", number(out["stat"]) == stat)
    at = order(E, n)
    ensure(f"{name}: p-value", number(out["pvalue"]) == p_of(lambda r: stat_of(at(r)), stat, n, R, two_sided))
    ensure(f"{name}: p-value in (0, 1]", z3.And(number(out["pvalue"]) > 0, number(out["pvalue"]) <= 1))


for _R in (None, "R"):
    @contract("C16", f"knox[{'permutations' if _R else 'no permutations'}]", [M + "knox"])
    def _(E, R=_R):
        n, S, Tm, D, G = data(E)
        R = R and sint("R", 1)
        d, tau = sreal("delta"), sreal("tau")
        E.assume(z3.And(d.z >= 0, tau.z >= 0))
        out = mod("spacetime").knox(S, Tm, d, tau, permutations=R or 0)
        # |a - b| <= tau where (a - b)^2 <= tau^2
        sq = lambda i, j: (t0(i, 0) - t0(j, 0)) * (t0(i, 0) - t0(j, 0)) <= tau.z * tau.z
        t0 = z3.Function("t", I, I, z3.RealSort())
        forall("the times are close where their squared difference is at most tau squared", [(0, n), (0, n)], lambda i, j: (G(i, j) <= tau.z) == sq(i, j))
        stat_of = lambda q: pairs_sum(n, lambda i, j: ind(z3.And(D(i, j) <= d.z, sq(q(i), q(j)))))
        stat = stat_of(lambda i: i)
        judge(E, "Knox", out, R, n, stat, stat_of, two_sided=True, bare=False)

    for _opt in ("default", "given"):
        @contract("C16", f"mantel[{'permutations' if _R else 'no permutations'}, {_opt} transformation]", [M + "mantel", M + "_shuffle_matrix"])
        def _(E, R=_R, opt=_opt):
            n, S, Tm, D, G = data(E)
            R = R and sint("R", 1)
            kw = {}
            sc = tc = z3.RealVal(1)
            f = g = lambda x: 1 / x
            if opt == "given":
                a, b = sreal("scon"), sreal("tcon")
                E.assume(z3.And(a.z > 0, b.z > 0))
                kw = dict(scon=a, spow=-2.0, tcon=b, tpow=-3.0)
                sc, tc, f, g = a.z, b.z, (lambda x: 1 / (x * x)), (lambda x: 1 / (x * x * x))
            out = mod("spacetime").mantel(S, Tm, permutations=R or 0, **kw)
            N = z3.ToReal(zi(n)) * (z3.ToReal(zi(n)) - 1) / 2
            lower = lambda h: Sum(n, lambda i: sums.mk_sum(E, z3.IntVal(0), i, lambda j: h(i, j)))

            def corr(x, y):
                mx, my = lower(x) / N, lower(y) / N
                cov = lower(lambda i, j: (x(i, j) - mx) * (y(i, j) - my))
                dev = lambda x, m: sqrt(Sc(lower(lambda i, j: (x(i, j) - m) * (x(i, j) - m)), "f")).z
                return cov / (dev(x, mx) * dev(y, my))
            y = lambda i, j: f(D(i, j) + sc)
            x_of = lambda q: lambda i, j: g(G(q(i), q(j)) + tc)
            stat_of = lambda q: corr(x_of(q), y)
            judge(E, "Mantel", out, R, n, stat_of(lambda i: i), stat_of)

    @contract("C16", f"modified_knox[{'permutations' if _R else 'no permutations'}]", [M + "modified_knox", M + "_shuffle_matrix"])
    def _(E, R=_R):
        n, S, Tm, D, G = data(E)
        R = R and sint("R", 1)
        d, tau = sreal("delta"), sreal("tau")
        E.assume(z3.And(d.z >= 0, tau.z >= 0))
        out = mod("spacetime").modified_knox(S, Tm, d, tau, permutations=R or 0)
        other = lambda i, j: i != j

        def stat_of(q):
            both = Sum(n, lambda i: Sum(n, lambda j: ind(z3.And(other(i, j), D(i, j) <= d.z, G(q(i), q(j)) <= tau.z))))
            ns = lambda i: Sum(n, lambda j: ind(z3.And(other(i, j), D(i, j) <= d.z)))
            nt = lambda i: Sum(n, lambda j: ind(z3.And(other(i, j), G(q(i), q(j)) <= tau.z)))
            return (both - Sum(n, lambda i: ns(i) * nt(i)) / (z3.ToReal(zi(n)) - 1)) / 2
        judge(E, "modified Knox", out, R, n, stat_of(lambda i: i), stat_of)

    @contract("C16", f"jacquez[{'permutations' if _R else 'no permutations'}]", [M + "jacquez"])
    def _(E, R=_R):
        n, S, Tm, D, G = data(E)
        R = R and sint("R", 1)
        k = sint("k", 1, None)
        E.assume(k.z < n.z)
        out = mod("spacetime").jacquez(S, Tm, k, permutations=R or 0)
        near = {"space": [], "time": [], "permuted": []}
        for q in E.ghost.get("knn", []):
            ensure("the number of neighbours asked for", zi(q["k"]) == k.z)
            gens = [s for s in E.indices if False]
            if same_data(q["data"], S):
                near["space"].append(q)
            elif same_data(q["data"], Tm):
                near["time"].append(q)
            else:
                near["permuted"].append(q)
        ensure("neighbours in space and in time", bool(near["space"]) and bool(near["time"]))
        if not near["space"] or not near["time"]:
            raise Unsupported("neighbours of other data")
        s, t = near["space"][-1]["near"], near["time"][-1]["near"]
        shared = lambda a, b: Sum(n, lambda i: Sum(n, lambda j: ind(z3.And(a(i, j), b(i, j)))))
        stat = shared(s, t)
        if R is None:
            return judge(E, "Jacquez", out, None, n, stat, None)
        ensure("neighbours of the permuted times", bool(near["permuted"]))
        if not near["permuted"]:
            return
        at = order(E, n)
        q = near["permuted"][-1]
        g = [d for d in E.ghost["draws"] if len(d["gens"]) == 1][-1]["gens"][0]
        i = z3.Int("i")
        ensure("the neighbours of the times reordered", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), T(q["data"].el(i, 0)) == z3.Function("t", I, I, z3.RealSort())(at(g)(i), 0))))
        stat_at = lambda r: shared(s, lambda i, j: z3.substitute(q["near"](i, j), (g, r)))
        ensure("Jacquez: statistic", number(out["stat"]) == stat)
        ensure("Jacquez: p-value", number(out["pvalue"]) == p_of(stat_at, stat, n, R))
        ensure("Jacquez: p-value in (0, 1]", z3.And(number(out["pvalue"]) > 0, number(out["pvalue"]) <= 1))
