"""C04: point process objects realize the promised number of points in their window."""
import z3
from vc.core import I, R, fresh_name
from vc.harness import *
from vc.shims import lib
from vc.shims.rng import draw_fun
from vc.values import Seq, Part, VDict, arr, dim, lift, plain_dom, zi
from vc.whiles import rows

PR = "pointpats.process."
FUN = [PR + "PointProcess.__init__"]
TRUSTED = ["every draw of numpy's generators is arbitrary within its range (vc/shims/rng.py)", "the window's own containment test decides what lies in it (libpysal)", "partial correctness: termination of the rejection loops is not proved", "floats are real numbers"]


def window():
    W = mod("window").Window
    ring = VList([(sreal(f"wx{q}"), sreal(f"wy{q}")) for q in range(4)])
    w = W(VList([ring]))
    return w, lambda x, y: w.contains_point((Sc(x, "f"), Sc(y, "f"))).z


@contract("C04", "runif_in_circle", [PR + "runif_in_circle"])
def _(E):
    n, r, c = sint("n", 0), sreal("radius"), (sreal("cx"), sreal("cy"))
    E.assume(r.z >= 0)
    with rows(E, near=lambda x, y: x * x + y * y <= r.z * r.z):
        p = mod("process").runif_in_circle(n, radius=r, center=c)
    dims("points", p, (n, 2))
    forall("within the radius", [(0, n)], lambda j: (lambda x, y: x * x + y * y <= r.z * r.z)(T(p.el(j, z3.IntVal(0))) - c[0].z, T(p.el(j, z3.IntVal(1))) - c[1].z))


class Bare:
    """a process whose window is set, its realizations not yet drawn"""


def bare(cls, **attrs):
    P = getattr(mod("process"), cls)
    o = object.__new__(P)
    for k, v in attrs.items():
        setattr(o, k, v)
    return o


def anything(n):
    """whatever realize returns: some number of rows of two numbers"""
    E = eng()
    k = E.fresh("rows", I)
    E.assume(k >= 0)
    f = draw_fun("raw", [I, I], R)[0]
    return SArr((dim(k), 2), lambda ix: Sc(f(*ix), "f"), "f")


@contract("C04", "draw", [PR + "PointProcess.draw", "pointpats.window.Window.filter_contained"])
def _(E):
    w, inside = window()
    n = sint("n", 0)
    o = bare("PoissonPointProcess", window=w, realize=anything)
    with rows(E, inside=inside):
        p = o.draw(VDict({"n": n}))
    dims("realization", p, (n, 2))
    forall("every point lies in the window", [(0, n)], lambda j: inside(T(p.el(j, z3.IntVal(0))), T(p.el(j, z3.IntVal(1)))))


@contract("C04", "draw, Poisson realizations", [PR + "PointProcess.draw", PR + "PoissonPointProcess.realize", "pointpats.window.Window.filter_contained", "pointpats.window.Window.bbox"])
def _(E):
    w, inside = window()
    n = sint("n", 0)
    o = bare("PoissonPointProcess", window=w)
    with rows(E, inside=inside):
        p = o.draw(VDict({"n": n}))
    dims("realization", p, (n, 2))
    forall("every point lies in the window", [(0, n)], lambda j: inside(T(p.el(j, z3.IntVal(0))), T(p.el(j, z3.IntVal(1)))))


def circle(n, radius, center):
    """contract of runif_in_circle (verified above): n rows of two"""
    f = draw_fun("circle", [I, I], R)[0]
    gs = eng().generics()
    return SArr((n, 2), lambda ix: Sc(f(*ix), "f"), "f")


for _keep in (False, True):
    @contract("C04", f"draw, cluster realizations[{'parents kept' if _keep else 'children only'}]", [PR + "PointProcess.draw", PR + "PoissonClusterPointProcess.realize", "pointpats.window.Window.filter_contained", "pointpats.window.Window.bbox"])
    def _(E, keep=_keep):
        w, inside = window()
        n = sint("n", 1)
        o = bare("PoissonClusterPointProcess", window=w, radius=sreal("radius"), children=sint("children", 1), keep=keep)
        E.assume(z3.And(n.z >= o.children.z))
        with rows(E, inside=inside), by_contract(process__runif_in_circle=circle):
            p = o.draw(VDict({"n": n}))
        dims("realization", p, (n, 2))
        forall("every point lies in the window", [(0, n)], lambda j: inside(T(p.el(j, z3.IntVal(0))), T(p.el(j, z3.IntVal(1)))))


class Drawn:
    """contract of draw (verified above): as many points of the window as the parameter says"""

    def __init__(self, E, inside):
        self.E, self.inside = E, inside
        self.f = E.fresh_fun("realized", [I, I, I], R)

    def __call__(self, parameter):
        E = self.E
        gs = E.generics()
        n = parameter["n"]
        ensure("a number of points is asked for", T(lift(n)) >= 0)
        k = E.ghost["round"] = gs[0] if gs else z3.IntVal(E.ghost.get("round_no", -1) + 1)
        if not gs:
            E.ghost["round_no"] = k.as_long()
        j = z3.Int(fresh_name("j"))
        with E.quiet():
            E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), self.inside(self.f(k, j, z3.IntVal(0)), self.f(k, j, z3.IntVal(1)))), patterns=[self.f(k, j, z3.IntVal(0))]))
        return SArr((n, 2), lambda ix: Sc(self.f(k, *ix), "f"), "f")


def process(E, cls, samples, conditioning, as_pp):
    w, inside = window()
    drawn = Drawn(E, inside)
    P = getattr(mod("process"), cls)
    base = mod("process").PointProcess
    n = sint("n", 1)
    old = base.draw
    base.draw = lambda self, parameter: drawn(parameter)
    kw = dict(conditioning=conditioning) if conditioning is not None else {}
    if as_pp:
        kw["asPP"] = True
    try:
        if cls == "PoissonPointProcess":
            o = P(w, n, samples, **kw)
        else:
            parents, radius = sint("parents", 1), sreal("radius")
            o = P(w, n, parents, radius, samples, **kw)
    finally:
        base.draw = old
    S = samples if isinstance(samples, int) else samples
    for nm, table in (("realizations", o.realizations), ("parameters", o.parameters)):
        ks = as_seq(table.keys()) if hasattr(table, "keys") else None
        ensure(f"{nm}: as many as asked for", ks.length() == S if isinstance(ks.length(), int) and isinstance(S, int) else zi(ks.length()) == zi(S))
    rounds = [(0, S)]

    def size(s):
        return T(lift(o.parameters[Sc(s, "i")]["n"]))

    if not conditioning:
        forall("the parameter is the number asked for", rounds, lambda s: size(s) == n.z)
    elif cls == "PoissonPointProcess":
        d = [q for q in E.ghost["draws"] if q["kind"] == "poisson"]
        ensure("the numbers of points are drawn once", len(d) == 1)
        forall("the parameter is the number drawn", rounds, lambda s: size(s) == d[0]["fun"](s))
    else:
        d = [q for q in E.ghost["draws"] if q["kind"] == "poisson"]
        ensure("the numbers of parents are drawn once", len(d) == 1)
        forall("the parameter is the number drawn, times the children", rounds, lambda s: size(s) == d[0]["fun"](s) * zi(o.children))
    forall("keys are 0 .. samples - 1: as many points as the parameter says", rounds, lambda s: zi(points_of(o.realizations[Sc(s, "i")], as_pp, w)._shape[0]) == size(s))
    forall("two coordinates", rounds, lambda s: zi(points_of(o.realizations[Sc(s, "i")], as_pp, w)._shape[1]) == 2)
    s, j = z3.Int(fresh_name("sample")), z3.Int(fresh_name("j"))
    with E.scope([s], [s >= 0, s < zi(S)]):
        m = size(s)
        p = points_of(o.realizations[Sc(s, "i")], as_pp, w)
        with E.scope([j], [j >= 0, j < m]):
            ensure("every point lies in the window", inside(T(p.el(j, z3.IntVal(0))), T(p.el(j, z3.IntVal(1)))))


def rings(v):
    v = list(v)
    return v if isinstance(v[0][0], (tuple, VList)) else [v]


def points_of(v, as_pp, w):
    if as_pp:
        a, b = v.window.vertices, w.vertices
        ensure("a point pattern in the window", z3.And(*[T(x) == T(y) for r, q in zip(rings(a), rings(b), strict=True) for p, o in zip(r, q, strict=True) for x, y in zip(p, o, strict=True)]))
        v = v.points.values
    return arr(v)


for _c in ("PoissonPointProcess", "PoissonClusterPointProcess"):
    for _q in (None, True):
        for _p in (False, True):
            @contract("C04", f"{_c}[{'conditioning' if _q else 'fixed number'}{', asPP' if _p else ''}]", FUN + [PR + _c + ".__init__", PR + _c + ".setup"])
            def _(E, c=_c, q=_q, p=_p):
                process(E, c, sint("samples", 1), q, p)
