"""C01: simulated patterns lie in the hull and have the requested size."""
import contextlib
import z3
from vc.core import I, R, B
from vc import harness
from vc.harness import *
from vc.core import fresh_name
from vc.shims import lib
from vc.shims.rng import draw_fun
from vc.values import arr, lift, num, zi
from vc.whiles import rows

RD = "pointpats.random."
TRUSTED = ["every draw of numpy's generators is arbitrary within its range (vc/shims/rng.py)", "the hull's own containment test decides what lies in it (shapely, Qhull; geometry.contains verified in C24)", "partial correctness: termination of the rejection loops is not proved", "floats are real numbers"]
GEO = ["pointpats.geometry.contains", "pointpats.geometry.bbox", "pointpats.geometry.area", "pointpats.geometry.prepare_hull"]
P = z3.Function("P", I, I, R)


def box_hull(E):
    b = [sreal(nm) for nm in ("xmin", "ymin", "xmax", "ymax")]
    E.assume(z3.And(b[0].z < b[2].z, b[1].z < b[3].z))
    z = [q.z for q in b]
    f = z3.Function("bounds", I, R)
    for i in range(4):
        E.assume(f(i) == z[i])
    h = SArr((4,), lambda ix: Sc(f(ix[0]), "f"), "f", frozen="hull")
    return h, lambda x, y: z3.And(z[0] <= x, x <= z[2], z[1] <= y, y <= z[3]), (z[2] - z[0]) * (z[3] - z[1])


def hull_of(E, kind):
    """(hull, containment, area)"""
    if kind == "box":
        return box_hull(E)
    if kind == "points":
        n = sint("npoints", 3)
        X = sarray("P", (n, 2))
        with E.quiet():
            lo, hi = [T(X[:, c].min()) for c in (0, 1)], [T(X[:, c].max()) for c in (0, 1)]
        E.assume(z3.And(lo[0] < hi[0], lo[1] < hi[1]), "the points are not on one vertical or horizontal line (precondition)")
        return X, (lambda x, y: z3.And(lo[0] <= x, x <= hi[0], lo[1] <= y, y <= hi[1])), (hi[0] - lo[0]) * (hi[1] - lo[1])
    if kind == "convex hull":
        h = lib.ConvexHull(sarray("P", (sint("npoints", 3), 2)))
        return h, (lambda x, y: lib.in_convex_hull(h, Sc(x, "f"), Sc(y, "f"))), h.volume.z
    g = lib.Polygon("hull") if kind == "polygon" else lib.MultiPolygon(name="mhull")
    b = [lift(q).z for q in g.bounds]
    E.assume(z3.And(T(g.area) > 0, b[0] < b[2], b[1] < b[3]), "the hull has an area (precondition)")
    return g, (lambda x, y: g.vc_contains_point(Sc(x, "f"), Sc(y, "f"))), T(g.area)


def judge(E, r, inside, n_obs, n_sim, name="pattern"):
    """n_sim None: one replication"""
    if n_sim is None:
        dims(name, r, (n_obs, 2))
        forall(f"{name}: every point lies in the hull", [(0, n_obs)], lambda j: inside(T(r.el(j, z3.IntVal(0))), T(r.el(j, z3.IntVal(1)))))
    else:
        dims(name, r, (n_sim, n_obs, 2))
        forall(f"{name}: every point of every replication lies in the hull", [(0, n_sim), (0, n_obs)], lambda s, j: inside(T(r.el(s, j, z3.IntVal(0))), T(r.el(s, j, z3.IntVal(1)))))


def sizes(E, area, intensity=True):
    """(name, arguments, observations, replications or None)"""
    n, m = sint("n", 1), sint("m", 2)
    yield "size", dict(size=n), n, None
    yield "size and replications", dict(size=(n, m)), n, m
    yield "default", {}, 100, None
    if intensity:
        lam = sreal("intensity")
        E.assume(lam.z > 0)
        k = z3.ToInt(area * lam.z)
        yield "intensity", dict(intensity=lam), Sc(k, "i"), None
        yield "intensity and replications", dict(intensity=lam, size=m), Sc(k, "i"), m


SIZES = ["size", "size and replications", "default", "intensity", "intensity and replications"]
KINDS = ["box", "points", "polygon", "multipolygon", "convex hull"]

for _k in KINDS:
    @contract("C01", f"parse_size_and_intensity[{_k}]", [RD + "parse_size_and_intensity", "pointpats.geometry.area"])
    def _(E, k=_k):
        hull, inside, area = hull_of(E, k)
        if k == "points":
            hull = mod("geometry").prepare_hull(hull)
        for s, kw, n, m in sizes(E, area):
            r = pair("numbers and intensity", mod("random").parse_size_and_intensity(hull, **kw), 3)
            ensure(f"{s}: observations", T(lift(r[0])) == T(lift(n)))
            ensure(f"{s}: replications", T(lift(r[1])) == T(lift(1 if m is None else m)))


class Parsed:
    """contract of parse_size_and_intensity (verified above): the requested numbers, or 100, or int(area x intensity)"""

    def __init__(self, E):
        self.E = E

    def __call__(self, hull, intensity=None, size=None):
        E = self.E
        if size is None:
            n, m = (self.by_intensity(hull, intensity) if intensity is not None else 100), 1
        elif isinstance(size, tuple):
            ensure("no intensity beside a pair of numbers", intensity is None)
            n, m = size
        else:
            n, m = (size, 1) if intensity is None else (self.by_intensity(hull, intensity), size)
        lam = Sc(E.fresh("intensity"), "f")
        return n, m, lam

    def by_intensity(self, hull, intensity):
        n = Sc(self.E.fresh("int_area_times_intensity", I), "i")
        self.E.assume(n.z >= self.E.ghost.get("least", 0))
        self.asked = (hull, intensity, n)
        return n


def simulate(E, fn, kind, size, intensity=True, **kw):
    hull, inside, area = hull_of(E, kind)
    parsed = Parsed(E)
    kws, n, m = next((b, c, d) for a, b, c, d in sizes(E, area, intensity) if a == size)
    with by_contract(random__parse_size_and_intensity=parsed), rows(E, inside=inside):
        r = getattr(mod("random"), fn)(hull, **kws, **kw)
    if "intensity" in kws:
        h, lam, n = parsed.asked
        same_number("the intensity asked for", lam, T(kws["intensity"]))
        if kind == "points":
            vector("the bounding box of the points is the hull whose area counts", h, 4, lambda i: T(mod("geometry").bbox(hull).el(i)))
        else:
            ensure("the area is that of the hull", h is hull)
    judge(E, r, inside, n, m)


for _k in KINDS:
    for _s in SIZES:
        @contract("C01", f"poisson[{_k}, {_s}]", [RD + "poisson", *GEO])
        def _(E, k=_k, s=_s):
            simulate(E, "poisson", k, s)


def covariance(E, how):
    if how == "default":
        return {}
    if how == "number":
        v = sreal("cov")
        E.assume(v.z > 0)
        return dict(cov=v)
    V = sarray("cov", (2, 2))
    E.assume(z3.And(T(V.el(0, 0)) > 0, T(V.el(1, 1)) > 0), "a covariance matrix has positive variances (precondition)")
    return dict(cov=V)


for _k in KINDS:
    for _s in SIZES[:3]:
        for _c in ("default", "number", "matrix") if _s == "size" else ("default",):
            @contract("C01", f"normal[{_k}, {_s}, covariance {_c}]", [RD + "normal", *GEO, "pointpats.geometry.centroid"])
            def _(E, k=_k, s=_s, c=_c):
                simulate(E, "normal", k, s, intensity=False, **covariance(E, c))


@contract("C01", "normal[box, a covariance per replication, given centre]", [RD + "normal", *GEO])
def _(E):
    hull, inside, area = hull_of(E, "box")
    n, m = sint("n", 1), sint("m", 2)
    V = sarray("cov", (m, 2, 2))
    i = z3.Int("ci")
    E.assume(z3.ForAll([i], z3.And(*[T(V.el(i, z3.IntVal(c), z3.IntVal(c))) > 0 for c in (0, 1)]), patterns=[T(V.el(i, z3.IntVal(0), z3.IntVal(0)))]), "a covariance matrix has positive variances (precondition)")
    with rows(E, inside=inside):
        r = mod("random").normal(hull, center=(sreal("cx"), sreal("cy")), cov=V, size=(n, m))
    judge(E, r, inside, n, m)


class InHull:
    """contract of poisson (verified above) for one replication: that many points of the hull"""

    def __init__(self, E, hull, inside):
        self.E, self.hull, self.inside = E, hull, inside

    def rows(self, n):
        E = self.E
        f = draw_fun("sim", [I, I], R)[0]
        j = z3.Int(fresh_name("j"))
        nz = zi(n)
        with E.quiet():
            E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nz), self.inside(f(j, z3.IntVal(0)), f(j, z3.IntVal(1)))), patterns=[f(j, z3.IntVal(0))]), "the simulated points lie in the hull")
        return SArr((n, 2), lambda ix: Sc(f(*ix), "f"), "f")

    def __call__(self, hull, intensity=None, size=None, rng=None, **kw):
        ensure("simulated in the same hull", hull is self.hull or same_bounds(hull, self.hull))
        ensure("no intensity beside a size", intensity is None)
        ensure("a number of points is asked for", T(lift(size)) >= 0)
        return self.rows(size)


def same_bounds(a, b):
    if isinstance(a, SArr) and isinstance(b, SArr) and a._shape == b._shape == (4,):
        return z3.And(*[T(a.el(z3.IntVal(i))) == T(b.el(z3.IntVal(i))) for i in range(4)])
    return False


class Circle(InHull):
    """contract of _uniform_circle (verified below)"""

    def __call__(self, n, radius=1.0, center=(0.0, 0.0), hull=None, rng=None, **kw):
        ensure("the points of a cluster are confined to the hull", hull is self.hull or same_bounds(hull, self.hull))
        ensure("a positive number of points is asked for", T(lift(n)) >= 1)
        return self.rows(n)


@contract("C01", "_uniform_circle[no hull]", [RD + "_uniform_circle"])
def _(E):
    n, r, c = sint("n", 1), sreal("radius"), (sreal("cx"), sreal("cy"))
    E.assume(r.z > 0)
    with rows(E, near=lambda x, y: x * x + y * y <= r.z * r.z):
        p = mod("random")._uniform_circle(n, radius=r, center=c)
    dims("points", p, (n, 2))
    forall("within the radius", [(0, n)], lambda j: (lambda x, y: x * x + y * y <= r.z * r.z)(T(p.el(j, z3.IntVal(0))) - c[0].z, T(p.el(j, z3.IntVal(1))) - c[1].z))


for _k in KINDS[:1] + KINDS[2:]:
    @contract("C01", f"_uniform_circle[{_k}]", [RD + "_uniform_circle", *GEO])
    def _(E, k=_k):
        hull, inside, area = hull_of(E, k)
        n, r, c = sint("n", 1), sreal("radius"), (sreal("cx"), sreal("cy"))
        E.assume(r.z > 0)
        with rows(E, near=lambda x, y: x * x + y * y <= r.z * r.z, inside=lambda x, y: inside(x + c[0].z, y + c[1].z)):
            p = mod("random")._uniform_circle(n, radius=r, center=c, hull=hull)
        dims("points", p, (n, 2))
        forall("within the radius", [(0, n)], lambda j: (lambda x, y: x * x + y * y <= r.z * r.z)(T(p.el(j, z3.IntVal(0))) - c[0].z, T(p.el(j, z3.IntVal(1))) - c[1].z))
        forall("in the hull", [(0, n)], lambda j: inside(T(p.el(j, z3.IntVal(0))), T(p.el(j, z3.IntVal(1)))))


class Near(InHull):
    """contract of normal (verified above) around a given centre"""

    def __call__(self, hull, center=None, cov=None, size=None, rng=None, **kw):
        return InHull.__call__(self, hull, size=size)


for _k in KINDS:
    for _s in SIZES:
        if _s != "size" and _k not in ("box", "polygon"):
            continue
        for _n in (2, 3):
            if _n == 3 and (_k != "box" or _s != "size"):
                continue
            for _r in ("default", "number", "one per cluster") if _s == "size" and _k == "box" else ("default",):
                @contract("C01", f"cluster_poisson[{_k}, {_s}, {_n} clusters, radius {_r}]", [RD + "cluster_poisson", *GEO])
                def _(E, k=_k, s=_s, ns=_n, r=_r):
                    clusters(E, "cluster_poisson", k, s, ns, **radius(E, r, ns))

            if "intensity" not in _s:
                for _r in ("default", "number") if _s == "size" and _k == "box" else ("default",):
                    @contract("C01", f"cluster_normal[{_k}, {_s}, {_n} clusters, covariance {_r}]", [RD + "cluster_normal", *GEO])
                    def _(E, k=_k, s=_s, ns=_n, r=_r):
                        clusters(E, "cluster_normal", k, s, ns, **({} if r == "default" else covariance(E, r)))


def radius(E, how, ns):
    if how == "default":
        return {}
    if how == "number":
        v = sreal("radius")
        E.assume(v.z > 0)
        return dict(cluster_radius=v)
    return dict(cluster_radius=[sreal(f"radius{i}") for i in range(ns)])


def clusters(E, fn, kind, size, ns, **kw):
    E.ghost["by_cases"] = E.ghost["opaque_pdist"] = True  # whatever the distances between the centres
    hull, inside, area = hull_of(E, kind)
    parsed = Parsed(E)
    kws, n, m = next((b, c, d) for a, b, c, d in sizes(E, area, fn == "cluster_poisson") if a == size)
    if isinstance(n, Sc):
        E.assume(n.z >= ns, "as many points as clusters (documented precondition)")
    if kind == "points":
        used = mod("geometry").prepare_hull(hull)
    else:
        used = hull
    stubs = dict(random__poisson=InHull(E, used, inside))
    if fn == "cluster_poisson":
        stubs["random___uniform_circle"] = Circle(E, used, inside)
    else:
        stubs["random__normal"] = Near(E, used, inside)
    if "intensity" in kws:
        E.ghost["least"] = ns
    with by_contract(random__parse_size_and_intensity=parsed, **stubs):
        r = getattr(mod("random"), fn)(hull, **kws, n_seeds=ns, **kw)
    if "intensity" in kws:
        n = parsed.asked[2]
    judge(E, r, inside, n, m)


for _k in ("polygon", "box"):
    for _s in ("size", "size and replications") if _k == "polygon" else ("size",):
        @contract("C01", f"strauss[{_k}, {_s}]", [RD + "strauss", *GEO], allow=(RuntimeError,))
        def _(E, k=_k, s=_s):
            """gamma > 0; whatever the numbers of close pairs; a documented RuntimeError ends the simulation"""
            hull, inside, area = hull_of(E, k)
            used = mod("geometry").prepare_hull(hull) if k == "points" else hull
            kws, n, m = next((b, c, d) for a, b, c, d in sizes(E, area) if a == s)
            gamma, r = sreal("gamma"), sreal("r")
            E.assume(gamma.z > 0)

            def pairs(points, r):
                q = Sc(E.fresh("pairs", I), "i")
                E.assume(q.z >= 0)
                return q
            E.ghost["may_raise"] = (RuntimeError,)
            with by_contract(random__parse_size_and_intensity=Parsed(E), random__poisson=InHull(E, used, inside), random___pairwise_count_kdtree=pairs), rows(E, inside=inside):
                res = mod("random").strauss(hull, gamma=gamma, r=r, n_iter=sint("n_iter", 0), max_iter=sint("max_iter", 1), **kws)
            judge(E, res, inside, n, m)

harness.CONTRACTS["C01"].sort(key=lambda c: 0 if "replications]" in c.name and "strauss" in c.name else 1 if "strauss" in c.name else 2)  # the longest first
