"""C06: F and G are the cumulative distributions of their distances."""
import z3
from vc.harness import *
from vc.shims import lib, np_
from vc.contracts import common
from vc.contracts.common import nearest

TRUSTED = ["numpy histogram, cumsum, linspace, where, min/max as specified in vc/shims/np_.py", "KDTree.query returns the k nearest, sorted by distance (vc/shims/lib.py)", "floats are real numbers"]
D = "pointpats.distance_statistics."
GFUN = [D + "g", D + "_prepare", "pointpats.geometry.build_best_tree", "pointpats.geometry.k_neighbors", "pointpats.geometry.prepare_hull", "pointpats.geometry.bbox"]
FFUN = [D + "f", D + "_prepare", "pointpats.geometry.prepare_hull", "pointpats.geometry.bbox"]
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())
DM = z3.Function("D", z3.IntSort(), z3.IntSort(), z3.RealSort())
D1 = z3.Function("D1", z3.IntSort(), z3.RealSort())


def eucl(i, j):
    dx, dy = P(i, 0) - P(j, 0), P(i, 1) - P(j, 1)
    return sqrt_term(dx * dx + dy * dy)


def increasing_support(E, m):
    s = sarray("s", (m,))
    b = lambda q: T(s.el(q))
    p, q = z3.Ints("sp sq")
    E.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < zi(m)), b(p) < b(q)), patterns=[z3.MultiPattern(b(p), b(q))]), "the support increases (precondition)")
    return s, b


def cdf(name, E, r, b, m, n, d, lemmas=False):
    """r = (support, values): values are the cumulative shares of the distances d(0..n-1) covered by the support"""
    sup, val = pair(name, r)
    vector("support", sup, m, b)
    dims(name, val, (m,))
    M = zi(m)
    same_number(f"{name} starts at 0", val.el(0), 0)
    below = lambda q: Sum(n, lambda i: z3.Or(d(i) < b(q), z3.And(q == M - 1, d(i) <= b(q))))
    if lemmas:  # for an arbitrary function d: the counts of the statement are differences of cumulative counts
        counts_lemmas(E, b, m, n, d, below)
    each(f"{name} at each later value is their share", 1, m, lambda q: T(val.el(q)) == (below(q) - below(z3.IntVal(0))) / (below(M - 1) - below(z3.IntVal(0))))


def counts_lemmas(E, b, m, n, d, below):
    M = zi(m)
    ensure("covered distances", below(M - 1) - below(z3.IntVal(0)) == covered(b, m, n, d))
    forall("distances in the intervals up to each value", [(1, m)], lambda q: below(q) - below(z3.IntVal(0)) == Sum(n, lambda i: z3.And(b(0) <= d(i), z3.Or(d(i) < b(q), z3.And(q == M - 1, d(i) <= b(q))))))


def covered(b, m, n, d):
    return Sum(n, lambda i: z3.And(b(0) <= d(i), d(i) <= b(zi(m) - 1)))


def some_covered(E, b, m, n, d, lemmas=False):
    c = covered(b, m, n, d)
    M = zi(m)
    below = lambda q: Sum(n, lambda i: z3.Or(d(i) < b(q), z3.And(q == M - 1, d(i) <= b(q))))
    E.assume(c > 0, "the support covers a distance (precondition)")
    if lemmas:
        lemma("covered distances", below(M - 1) - below(z3.IntVal(0)) == c)
    else:  # proved for an arbitrary function d in the contracts with given distances
        E.assume(below(M - 1) - below(z3.IntVal(0)) == c)


@contract("C06", "f[given distances]", FFUN)
def _(E):
    n, m, p = sint("n", 2), sint("m", 2), sint("p", 1)
    s, b = increasing_support(E, m)
    d = lambda i: D1(i)
    some_covered(E, b, m, p, d, True)
    r = mod("distance_statistics").f(sarray("P", (n, 2)), support=s, distances=sarray("D1", (p,)))
    cdf("F", E, r, b, m, p, d, lemmas=True)


@contract("C06", "g[given distances]", GFUN)
def _(E):
    n, m = sint("n", 2), sint("m", 2)
    s, b = increasing_support(E, m)
    d = lambda i: D1(i)
    some_covered(E, b, m, n, d)
    r = mod("distance_statistics").g(sarray("P", (n, 2)), support=s, distances=sarray("D1", (n,)))
    cdf("G", E, r, b, m, n, d, lemmas=True)


@contract("C06", "g[coordinates]", GFUN)
def _(E):
    n, m = sint("n", 2), sint("m", 2)
    s, b = increasing_support(E, m)
    d = nearest(E, n, eucl)
    some_covered(E, b, m, n, d)
    with by_contract(geometry__k_neighbors=common.k_neighbors):
        r = mod("distance_statistics").g(sarray("P", (n, 2)), support=s)
    cdf("G", E, r, b, m, n, d)


@contract("C06", "g[full matrix]", GFUN)
def _(E):
    n, m = sint("n", 2), sint("m", 2)
    s, b = increasing_support(E, m)
    d = nearest(E, n, DM)
    known_extremum(d)
    some_covered(E, b, m, n, d)
    r = mod("distance_statistics").g(sarray("P", (n, 2)), support=s, distances=sarray("D", (n, n)))
    cdf("G", E, r, b, m, n, d)


def grids(E, top):
    """the other forms of support: (name, argument, number of values, value)"""
    a, b = sreal("a"), sreal("b")
    yield "stop", (b,), 20, lambda q: z3.ToReal(q) * b.z / 19, [b.z > 0]
    yield "start, stop", (a, b), 20, lambda q: a.z + z3.ToReal(q) * (b.z - a.z) / 19, [a.z < b.z]
    c = sint("c", 2)
    yield "start, stop, number", (a, b, c), c, lambda q: a.z + z3.ToReal(q) * (b.z - a.z) / z3.ToReal(c.z - 1), [a.z < b.z]
    if top is not None:
        yield "default", None, 20, lambda q: z3.ToReal(q) * top / 19, [top > 0]
        yield "count", c, c, lambda q: z3.ToReal(q) * top / z3.ToReal(c.z - 1), [top > 0]


def _grid(fun, which):
    @contract("C06", f"{fun}[support {which}]", GFUN if fun == "g" else FFUN)
    def _(E):
        n, p = sint("n", 2), sint("p", 1)
        N = n if fun == "g" else p
        d = lambda i: D1(i)
        top = None
        if which in ("default", "count"):
            nn = nearest(E, n, eucl)
            with E.quiet():
                top = T(np_.amax(SArr((n,), lambda ix: Sc(nn(ix[0]), "f"), "f")))
            E.assume(z3.BoolVal(True), "not all events coincide (precondition)")
        for nm, s, m, at, pre in grids(E, top):
            if nm != which:
                continue
            b = lambda q: at(z3.IntVal(q) if isinstance(q, int) else q)
            for q in pre:
                E.assume(q, "the support increases (precondition)")
            some_covered(E, b, m, N, d)
            with by_contract(geometry__k_neighbors=common.k_neighbors):
                r = getattr(mod("distance_statistics"), fun)(sarray("P", (n, 2)), support=s, distances=sarray("D1", (N,)))
            cdf(fun.upper(), E, r, b, m, N, d)


for _f in ("f", "g"):
    for _w in ("stop", "start, stop", "start, stop, number", "default", "count"):
        _grid(_f, _w)


@contract("C06", "f[distance matrix]", FFUN)
def _(E):
    n, m, p = sint("n", 2), sint("m", 2), sint("p", 1)
    s, b = increasing_support(E, m)
    d = nearest(E, n, lambda i, j: DM(j, i), rows=p, self_excluded=False)
    known_extremum(d)
    some_covered(E, b, m, p, d)
    r = mod("distance_statistics").f(sarray("P", (n, 2)), support=s, distances=sarray("D", (n, p)))
    cdf("F", E, r, b, m, p, d)


@contract("C06", "f[simulated reference points]", FFUN)
def _(E):
    n, m = sint("n", 2), sint("m", 2)
    s, b = increasing_support(E, m)
    Rf = z3.Function("reference", z3.IntSort(), z3.IntSort(), z3.RealSort())

    def dist(i, j):
        dx, dy = Rf(i, 0) - P(j, 0), Rf(i, 1) - P(j, 1)
        return sqrt_term(dx * dx + dy * dy)
    d = nearest(E, n, dist, rows=1000, self_excluded=False)
    some_covered(E, b, m, 1000, d)
    asked = []

    def poisson(hull, intensity=None, size=None, rng=None):
        """contract of random.poisson (C01): the requested number of points in the hull"""
        asked.append((hull, intensity, size))
        if not (isinstance(size, tuple) and len(size) == 2 and size[1] == 1 and intensity is None and rng is None):
            raise Unsupported("poisson called in another way")
        return SArr((size[0], 2), lambda ix: Sc(Rf(ix[0], ix[1]), "f"), "f")
    with by_contract(random__poisson=poisson):
        r = mod("distance_statistics").f(sarray("P", (n, 2)), support=s)
    cdf("F", E, r, b, m, 1000, d)
