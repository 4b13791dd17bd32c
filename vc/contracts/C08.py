"""C08: J is the ratio of the complements of G and F, cut where undefined."""
import z3
from vc.harness import *
from vc.shims import lib, np_

TRUSTED = ["numpy isnan, isinf, argmax, any, slicing, allclose and division as specified in vc/shims/np_.py", "f and g return their values at the support asked for (verified in C06)", "floats are real numbers"]
D = "pointpats.distance_statistics."
FUN = [D + "j", D + "_truncate"]
F, G, S = (z3.Function(q, z3.IntSort(), z3.RealSort()) for q in ("F", "G", "s"))


def setting(E, form):
    n, m = sint("n", 2), sint("m", 2)
    P = sarray("P", (n, 2))
    s = sarray("s", (m,))
    hull = sarray("hull", (4,))
    given = {"array": s, "list": None, "count": 15, "symbolic count": m, "default": None, "stop": (sreal("stop"),)}[form]
    calls = []

    def stat(which, fn):
        def f(coordinates, support=None, distances=None, metric="euclidean", hull=None, edge_correction=None):
            calls.append((which, coordinates, support, distances, metric, hull))
            # the support: the array given, or one determined by the coordinates and the description (C06)
            return (support if isinstance(support, SArr) else sarray("s", (m,))), SArr((m,), lambda ix: Sc(fn(ix[0]), "f"), "f")
        return f
    E.assume(z3.And(F(0) == 0, G(0) == 0), "F and G start at 0 (verified in C06)")
    return n, m, P, s, hull, given, calls, dict(distance_statistics__f=stat("f", F), distance_statistics__g=stat("g", G))


def value(name, v, i):
    """v, the value at i, is (1 - G) / (1 - F), not a number where both are 1"""
    nan, inf = v.sp if v.sp else (z3.BoolVal(False), z3.BoolVal(False))
    return z3.And(z3.Implies(F(i) != 1, z3.And(z3.Not(nan), z3.Not(inf), T(v) == (1 - G(i)) / (1 - F(i)))),
                  z3.Implies(z3.And(F(i) == 1, G(i) == 1), nan),
                  z3.Implies(z3.And(F(i) == 1, G(i) != 1), z3.And(inf, z3.Not(nan))))


def check_calls(E, calls, P, given, hull, dists):
    ensure("F and G are both computed", {c[0] for c in calls} == {"f", "g"})
    for which, coords, support, dist, metric, h in calls:
        ensure(f"{which} of the coordinates given", same_data(coords, P))
        ensure(f"{which} at the support given", same_data(support, given))
        ensure(f"{which} with the metric given", metric == "euclidean")
        if which == "f":
            ensure("F of the reference distances given", same_data(dist, dists[1] if dists else None))
            ensure("F in the hull given", same_data(h, hull))
        else:
            ensure("G of the neighbour distances given", same_data(dist, dists[0] if dists else None))


for _form in ("array", "count", "symbolic count", "default", "stop"):
    for _cut in (True, False, "default"):
        @contract("C08", f"j[support {_form}, { {True: 'truncated', False: 'full'}.get(_cut, 'default')}]", FUN)
        def _(E, form=_form, cut=_cut):
            n, m, P, s, hull, given, calls, stubs = setting(E, form)
            dists = (sarray("gd", (n,)), sarray("fd", (sint("p", 1),))) if form == "array" else None
            with by_contract(**stubs):
                r = pair("result", mod("distance_statistics").j(P, support=given, distances=dists, hull=hull, **({} if cut == "default" else {"truncate": cut})))
            check_calls(E, calls, P, given, hull, dists)
            sup, val = r
            if not isinstance(val, SArr) or val.ndim != 1:
                fail("values", "not a vector")
            L = zi(val._shape[0])
            dims("support", sup, (val._shape[0],))
            M = zi(m)
            if cut:
                ensure("a prefix of the series", z3.And(L >= 0, L <= M))
                lemma_forall("every value returned is finite", [(0, L)], lambda i: F(i) != 1)
                ensure("cut at the first undefined or infinite value", z3.Or(L == M, F(L) == 1))
            else:
                ensure("the full series", L == M)
            forall("support", [(0, L)], lambda i: T(sup.el(i)) == S(i))
            forall("(1 - G) / (1 - F)", [(0, L)], lambda i: value("J", val.el(i), i))


@contract("C08", "_truncate[with p-values and simulations]", [D + "_truncate"])
def _(E):
    m, r = sint("m", 2), sint("r", 1)
    sup, p, sims = sarray("s", (m,)), sarray("p", (m,)), sarray("sims", (r, m))
    bad = z3.Function("bad", z3.IntSort(), z3.BoolSort())
    V = z3.Function("V", z3.IntSort(), z3.RealSort())
    inf = z3.Function("infinite", z3.IntSort(), z3.BoolSort())
    v = SArr((m,), lambda ix: Sc(V(ix[0]), "f", (z3.And(bad(ix[0]), z3.Not(inf(ix[0]))), z3.And(bad(ix[0]), inf(ix[0])))), "f")
    out = pair("result", mod("distance_statistics")._truncate(sup, v, p, sims, None), 5)
    L = zi(out[0]._shape[0])
    M = zi(m)
    ensure("a prefix of the series", z3.And(L >= 0, L <= M))
    forall("every value returned is finite", [(0, L)], lambda i: z3.Not(bad(i)))
    ensure("cut at the first undefined or infinite value", z3.Or(L == M, bad(L)))
    vector("support", out[0], dim(L), lambda i: T(sup.el(i)))
    vector("statistic", out[1], dim(L), lambda i: V(i))
    vector("p-values", out[2], dim(L), lambda i: T(p.el(i)))
    dims("simulations", out[3], (r, dim(L)))
    forall("simulations", [(0, r), (0, L)], lambda k, i: T(out[3].el(k, i)) == T(sims.el(k, i)))
    ensure("what is absent stays absent", out[4] is None)
