"""C03: cluster patterns are contiguous near-equal groups led by their seed."""
import z3
from vc.core import I, R, fresh_name
from vc.harness import *
from vc.shims import lib
from vc.shims.rng import draw_fun
from vc.values import ew1, lift, sqrt, zi
from vc.whiles import rows

RD = "pointpats.random."
TRUSTED = ["every draw of numpy's generators is arbitrary within its range (vc/shims/rng.py)", "partial correctness: termination of the rejection loop is not proved", "floats are real numbers"]


class Seeds:
    """contract of poisson for one replication: some points (a function of the replication)"""

    def __init__(self, E):
        self.f = E.fresh_fun("seed", [I, I, I], R)

    def round(self):
        from vc.core import eng
        gs = eng().generics()
        return gs[0] if gs else z3.IntVal(0)

    def at(self, s, g, c):
        return self.f(s, z3.IntVal(g), z3.IntVal(c))

    def __call__(self, hull, intensity=None, size=None, rng=None, **kw):
        ensure("one seed per group", T(lift(size)) == self.groups)
        s = self.round()
        return SArr((size, 2), lambda ix: Sc(self.f(s, *ix), "f"), "f")

    def gap(self, s, a, b):
        x, y = self.at(s, a, 0) - self.at(s, b, 0), self.at(s, a, 1) - self.at(s, b, 1)
        return sqrt(Sc(x * x + y * y, "f")).z

    def half_gap(self, s):
        ds = [self.gap(s, a, b) for a in range(self.groups) for b in range(a + 1, self.groups)]
        m = ds[0]
        for d in ds[1:]:
            m = z3.If(d < m, d, m)
        return m / 2


class Followers:
    """contract of _uniform_circle (verified below): that many points within the radius of the centre"""

    def __init__(self, E, seeds, radius):
        self.E, self.seeds, self.radius, self.calls = E, seeds, radius, 0

    def __call__(self, n, radius=1.0, center=(0.0, 0.0), hull=None, rng=None, **kw):
        E = self.E
        s = self.seeds.round()
        c = [T(arr(center).el(z3.IntVal(q))) for q in (0, 1)]
        r = T(lift(radius))
        if self.radius is None:
            ensure("the radius is half the smallest distance between the seeds of the replication", r == self.seeds.half_gap(s))
        f = draw_fun("follower", [I, I], R)[0]
        j = z3.Int(fresh_name("j"))
        x, y = f(j, z3.IntVal(0)), f(j, z3.IntVal(1))
        with E.quiet():
            E.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), (x - c[0]) * (x - c[0]) + (y - c[1]) * (y - c[1]) <= r * r), patterns=[x]))
        return SArr((n, 2), lambda ix: Sc(f(*ix), "f"), "f")


def some(*a, size=None, **kw):
    f = draw_fun("some", [I, I], R)[0]
    return SArr((size, 2), lambda ix: Sc(f(*ix), "f"), "f")


def groups(E, fn, ns, several, how):
    E.ghost["by_cases"] = E.ghost["small_pdist"] = True
    n = sint("n", ns)
    m = sint("m", 2) if several else None
    hull = box()
    seeds = Seeds(E)
    seeds.groups = ns
    kw = {}
    radii = None
    if how == "number":
        v = sreal("radius")
        E.assume(v.z > 0)
        kw, radii = dict(cluster_radius=v), [v.z] * ns
    elif how == "one per cluster":
        vs = [sreal(f"radius{i}") for i in range(ns)]
        kw, radii = dict(cluster_radius=list(vs)), [v.z for v in vs]
    if fn == "cluster_poisson":
        stubs = dict(random___uniform_circle=Followers(E, seeds, radii))
    else:
        E.ghost["opaque_pdist"] = True
        stubs = dict(random__normal=some)
    with by_contract(random__poisson=seeds, **stubs):
        r = getattr(mod("random"), fn)(hull, size=(n, m) if several else n, n_seeds=ns, **kw)
    dims("pattern", r, (m, n, 2) if several else (n, 2))
    off = z3.IntVal(0)
    for g in range(ns):
        size = (n.z + (ns - 1 - g)) / z3.IntVal(ns)  # sizes differ by at most one, larger first

        def at(s, j, c):
            return T(r.el(s, j, z3.IntVal(c)) if several else r.el(j, z3.IntVal(c)))
        for c in (0, 1):
            forall(f"group {g} begins with its seed", [(0, m if several else 1)], lambda s: at(s, off, c) == seeds.at(s, g, c))
        if fn == "cluster_poisson":
            def near(s, j):
                x, y = at(s, off + j, 0) - seeds.at(s, g, 0), at(s, off + j, 1) - seeds.at(s, g, 1)
                rad = radii[g] if radii else seeds.half_gap(s)
                return x * x + y * y <= rad * rad
            forall(f"group {g} lies within the radius of its seed", [(0, m if several else 1), (1, Sc(size, "i"))], near)
        off = z3.simplify(off + size)
    ensure("the groups make up the pattern", off == n.z)


def box():
    from vc.core import eng
    b = sarray("box", (4,))
    eng().assume(z3.And(T(b.el(0)) < T(b.el(2)), T(b.el(1)) < T(b.el(3))), "the hull has an area (precondition)")
    return b


for _n in (2, 3):
    for _s in (False, True):
        for _r in ("default", "number", "one per cluster") if not _s else ("default",):
            if _n == 3 and _s:
                continue
            @contract("C03", f"cluster_poisson[{_n} groups, {'replications' if _s else 'one replication'}, radius {_r}]", [RD + "cluster_poisson", RD + "parse_size_and_intensity"])
            def _(E, n=_n, s=_s, r=_r):
                groups(E, "cluster_poisson", n, s, r)

        @contract("C03", f"cluster_normal[{_n} groups, {'replications' if _s else 'one replication'}]", [RD + "cluster_normal", RD + "parse_size_and_intensity"])
        def _(E, n=_n, s=_s):
            groups(E, "cluster_normal", n, s, None)

for _h in (None, "box"):
    @contract("C03", f"_uniform_circle[{'no hull' if _h is None else 'hull'}]", [RD + "_uniform_circle"])
    def _(E, h=_h):
        n, r, c = sint("n", 1), sreal("radius"), (sreal("cx"), sreal("cy"))
        E.assume(r.z > 0)
        with rows(E, near=lambda x, y: x * x + y * y <= r.z * r.z):
            p = mod("random")._uniform_circle(n, radius=r, center=c, **({} if h is None else dict(hull=box())))
        dims("points", p, (n, 2))
        forall("within the radius", [(0, n)], lambda j: (lambda x, y: x * x + y * y <= r.z * r.z)(T(p.el(j, z3.IntVal(0))) - c[0].z, T(p.el(j, z3.IntVal(1))) - c[1].z))
