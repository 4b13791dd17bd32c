"""C02: seeded simulation is reproducible and never touches global random state."""
import z3
from vc.core import I, R, fresh_name, symbols
from vc.harness import *
from vc.shims import lib, rng as rng_
from vc.shims.rng import draw_fun
from vc.values import Sc, SArr, VList, as_seq, is_num, lift
from vc.whiles import rows
from vc.contracts import C13

RD = "pointpats.random."
TRUSTED = ["a numpy generator is determined by its seed or state; default_rng takes nothing but its seed (vc/shims/rng.py)", "the interpreted code has no source of numbers but its arguments and numpy.random (anything else is outside the verified subset)", "partial correctness: termination of the rejection loops is not proved"]


class Sources:
    """where the numbers of a run come from"""

    def __init__(self, E, how):
        self.E, self.how = E, how
        self.seed = None
        if how == "seed":
            self.arg = self.seed = sint("the_seed", 0)
        elif how == "generator":
            self.arg = rng_.Generator(sint("its_seed", 0))
        elif how == "bit generator":
            self.arg = rng_.BitGenerator()
        elif how == "random state":
            self.arg = rng_.RandomState(sint("its_seed", 0))

    def good(self, s):
        """the given source, or one made from it"""
        if s is self.arg:
            return True
        if isinstance(s, rng_.Generator):
            return self.good_seed(s.seed_)
        return False

    def good_seed(self, x):
        if x is None:
            return False
        if x is self.arg:
            return True
        if isinstance(x, rng_.Source) or isinstance(x, rng_.BitGenerator):
            return self.good(x)
        if is_num(x):
            xs = [lift(x).z]
        elif isinstance(x, (list, tuple, VList)):
            it = list(x) if not isinstance(x, VList) else [p.item() if p.dom is None else None for p in as_seq(x).parts]
            return bool(it) and all(self.good_seed(q) for q in it)
        elif isinstance(x, SArr):
            xs = [x.el(*[z3.Int(fresh_name("ix")) for _ in x._shape]).z]
        else:
            return False
        src = self.E.ghost.get("origin", {})
        own = {self.seed.z.decl().name()} if self.seed is not None else set()
        found = False
        for z in xs:
            for nm in symbols(z):
                if nm in own:
                    found = True
                elif nm in src:
                    found = found or self.good(src[nm])
                    if not self.good(src[nm]):
                        return False
        return found

    def judge(self):
        E = self.E
        ds = E.ghost.get("draws", [])
        for d in ds:
            if d["source"] is rng_.GLOBAL:
                fail("the global random state is left alone", f"{d['kind']} by numpy's global state")
        ensure("the global random state is left alone", all(d["source"] is not rng_.GLOBAL for d in ds))
        ensure("every number comes from the given seed or generator", all(self.good(d["source"]) for d in ds))
        ensure("it is used", bool(ds))

    # ---- contracts of the generators called by others
    def poisson(self, hull, intensity=None, size=None, rng=None):
        ensure("the called generator is given a source made from the given one", self.good_seed(rng))
        self.use(rng)
        return SArr((size, 2), (lambda f: lambda ix: Sc(f(*ix), "f"))(draw_fun("sim", [I, I], R)[0]), "f")

    def normal(self, hull, center=None, cov=None, size=None, rng=None):
        return self.poisson(hull, size=size, rng=rng)

    def circle(self, n, radius=1.0, center=(0.0, 0.0), burn=2, verbose=False, hull=None, seed=None, rng=None):
        return self.poisson(hull, size=n, rng=seed if rng is None else rng)

    def use(self, rng):
        g = rng_.default_rng(rng)
        rng_.log(g, "contract")


def box(E):
    b = sarray("box", (4,))
    E.assume(z3.And(T(b.el(0)) < T(b.el(2)), T(b.el(1)) < T(b.el(3))), "the hull has an area (precondition)")
    return b


def run(E, fn, how, several, stubs=(), **kw):
    s = Sources(E, how)
    E.ghost["by_cases"] = E.ghost["opaque_pdist"] = True
    n, m = sint("n", 4), sint("m", 2)
    hull = box(E)
    table = dict(poisson=("random__poisson", s.poisson), normal=("random__normal", s.normal), circle=("random___uniform_circle", s.circle))
    with by_contract(**{table[q][0]: table[q][1] for q in stubs}), rows(E):
        getattr(mod("random"), fn)(hull, size=(n, m) if several else n, rng=s.arg, **kw)
    s.judge()


HOW = ["seed", "generator"]
for _h in HOW:
    for _s in (False, True):
        _t = f"{_h}, {'replications' if _s else 'one replication'}"
        for _f in ("poisson", "normal"):
            @contract("C02", f"{_f}[{_t}]", [RD + _f, RD + "parse_size_and_intensity", "pointpats.geometry.contains"])
            def _(E, f=_f, h=_h, s=_s):
                run(E, f, h, s)

    for _s in (False, True):
        _t = f"{_h}, {'replications' if _s else 'one replication'}"

        @contract("C02", f"cluster_poisson[{_t}]", [RD + "cluster_poisson"])
        def _(E, h=_h, s=_s):
            clusters(E, "cluster_poisson", h, s, ("poisson", "circle"))

        @contract("C02", f"cluster_normal[{_t}]", [RD + "cluster_normal"])
        def _(E, h=_h, s=_s):
            clusters(E, "cluster_normal", h, s, ("poisson", "normal"))

    @contract("C02", f"strauss[{_h}]", [RD + "strauss"], allow=(RuntimeError,))
    def _(E, h=_h):
        gamma = sreal("gamma")
        E.assume(gamma.z > 0)
        E.ghost["may_raise"] = (RuntimeError,)

        def pairs(points, r):
            q = Sc(E.fresh("pairs", I), "i")
            E.assume(q.z >= 0)
            return q
        with by_contract(random___pairwise_count_kdtree=pairs):
            run(E, "strauss", h, False, ("poisson",), gamma=gamma, r=sreal("r"), n_iter=sint("n_iter", 0), max_iter=sint("max_iter", 1))

    @contract("C02", f"_uniform_circle[{_h}]", [RD + "_uniform_circle"])
    def _(E, h=_h):
        s = Sources(E, h)
        r = sreal("radius")
        E.assume(r.z > 0)
        with rows(E):
            mod("random")._uniform_circle(sint("n", 1), radius=r, center=(sreal("cx"), sreal("cy")), hull=box(E), **({"seed": s.arg} if h == "seed" else {"rng": s.arg}))
        s.judge()


def clusters(E, fn, how, several, stubs):
    s = Sources(E, how)
    E.ghost["by_cases"] = E.ghost["opaque_pdist"] = True
    n, m = sint("n", 4), sint("m", 2)
    table = dict(poisson=("random__poisson", s.poisson), normal=("random__normal", s.normal), circle=("random___uniform_circle", s.circle))
    with by_contract(**{table[q][0]: table[q][1] for q in stubs}):
        getattr(mod("random"), fn)(box(E), size=(n, m) if several else n, rng=s.arg)
    s.judge()


for _h in HOW + ["bit generator", "random state"]:
    for _shape in ("rectangle", "hexagon"):
        @contract("C02", f"QStatistic[{_h}, {_shape}]", [C13.Q + "QStatistic.__init__", C13.Q + "_coerce_rng"])
        def _(E, h=_h, shape=_shape):
            s = Sources(E, h)
            st = C13.Setting(E, shape, sint("R", 1), False)
            old = st.poisson

            def poisson(hull, intensity=None, size=None, rng=None):
                ensure("the realizations are drawn from the given source", s.good_seed(rng))
                s.use(rng)
                return old(hull, intensity=intensity, size=size, rng=rng)
            st.poisson = poisson
            with st.contracts():
                mod("quadrat_statistics").QStatistic(st.Pa, shape=shape, realizations=st.R, rng=s.arg)
            s.judge()
