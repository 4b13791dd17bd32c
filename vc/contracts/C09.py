"""C09: Ripley tests: the statistic on the observed and on every simulated pattern at the same values, and its pseudo p-value."""
import contextlib
import z3
from vc.core import I, R, Unsupported
from vc.harness import *
from vc.shims import lib, np_
from vc.values import arr, dim, lift, same_dim, zi

D = "pointpats.distance_statistics."
TRUSTED = ["f, g, j, k, l return their statistic at the support given (contracts verified in C06, C07, C08)", "poisson returns the requested number of points in the hull (C01)",
           "build_best_tree and k_neighbors give nearest distances (C10)", "joblib runs every delayed call once and keeps their order", "statistics of simulated patterns are finite numbers", "floats are real numbers"]
FUN = lambda q: [D + "_ripley_test", D + "_run_one_ripley_simulation", D + f"{q}_test"]


class Tree:
    def __init__(self, st, data, metric):
        self.st, self.data, self.metric = st, data, metric

    def query(self, x, k=1, **kw):
        if kw:
            raise Unsupported("query options")
        ensure("reference points: their nearest event only", k == 1)
        return self.st.dist("from reference points", x, self), None


class Setting:
    """the contracts of the called functions, with a record of how they are called"""

    def __init__(self, E, which, **opt):
        self.E, self.which, self.opt = E, which, opt
        self.n, self.m, self.R = sint("n", 3), sint("m", 2), sint("R", 1)
        self.P = sarray("P", (self.n, 2))
        self.s = sarray("s", (self.m,))
        self.H = sarray("H", (4,))
        self.hull = sarray("hull", (4,)) if opt.get("hull") else None
        self.metric = "cityblock" if opt.get("metric") else "euclidean"
        self.nd, self.patterns = [], []
        self.obs = None
        self.O = z3.Function("O", I, R)
        self.S = z3.Function("S", I, I, R)
        self.sim = 0

    # ---- contracts of the callees
    def prepare_hull(self, coordinates, hull=None):
        ensure("the hull of the pattern", same_data(coordinates, self.P))
        ensure("the hull asked for", hull is self.hull or same_data(hull, self.hull))
        return self.H

    def poisson(self, hull, intensity=None, size=None, rng=None):
        ensure("simulated in the hull", same_data(hull, self.H))
        if intensity is not None:
            raise Unsupported("intensity")
        n, k = size if isinstance(size, tuple) else (size, 1)
        ensure("one replication", k == 1)
        f = self.E.fresh_fun("U", [I, I], R)
        a = SArr((n, 2), lambda ix: Sc(f(*ix), "f"), "f")
        inside = bool(self.E.generics())
        if not isinstance(n, int):
            ensure("as many points as observed", zi(n) == zi(self.n))
        elif inside:
            fail("as many points as observed", f"{n} points simulated")
        self.patterns.append((a, inside))
        return a

    def pattern(self, x, inside):
        """the simulated points (inside an iteration: of that iteration)"""
        for a, ins in reversed(self.patterns):
            if ins == inside and same_dim(a._shape[0], arr(x)._shape[0]) and lib.same_rows(a, arr(x)):
                return a
        return None

    def tree(self, coordinates, metric="euclidean"):
        if isinstance(coordinates, Tree):
            return coordinates
        ensure("distances in the metric asked for", metric == self.metric)
        return Tree(self, arr(coordinates), metric)

    def dist(self, kind, x, tree):
        x = arr(x)
        f = self.E.fresh_fun("nearest", [I], R)
        a = SArr((x._shape[0],), lambda ix: Sc(f(*ix), "f"), "f")
        self.nd.append((kind, x, tree, a))
        return a

    def k_neighbors(self, tree, coordinates, k, **kw):
        if kw or not isinstance(tree, Tree):
            raise Unsupported("k_neighbors")
        ensure("the nearest other event only", k == 1)
        return self.dist("to the nearest other event", coordinates, tree).reshape((coordinates.shape[0], 1)), None

    def check_distances(self, kind, d, events):
        """d: nearest distances of that kind in the pattern whose statistic is computed"""
        for k, x, tree, a in reversed(self.nd):
            if same_dim(a._shape[0], arr(d)._shape[0]) and lib.same_rows(a, arr(d)):
                ensure(f"distances {kind}", k == kind)
                ensure("distances to the events of the pattern", same_data(tree.data, events))
                if kind == "from reference points":
                    ref = self.pattern(x, False)
                    ensure("the reference points drawn once", ref is not None)
                else:
                    ensure("distances of the events of the pattern", same_data(x, events))
                return
        raise Unsupported("distances of unknown origin")

    def stat(self, which):
        def f(coordinates, support=None, distances=None, metric="euclidean", hull=None, edge_correction=None, **kw):
            E = self.E
            X = arr(coordinates)
            inside = bool(E.generics())
            where = "simulated" if inside else "observed"
            ensure(f"{where}: the statistic of the test", which == self.which)
            ensure(f"{where}: metric", metric == self.metric)
            if which in "FJ":
                ensure(f"{where}: hull", same_data(hull, self.H))
            elif hull is not None:
                raise Unsupported("hull given")
            if which == "J":
                ensure(f"{where}: not truncated on its own", kw.pop("truncate", True) is False)
            if which == "L":
                ensure(f"{where}: linearized as asked for", kw.pop("linearized", False) is bool(self.opt.get("linearized", False)))
            if kw:
                raise Unsupported("options of the statistic")
            if not inside:
                ensure("the pattern observed", same_data(X, self.P))
                given = self.opt.get("distances")
                if given is not None:
                    ensure("the distances given", same_data(distances, given))
                sup = support
                ensure("the support asked for", same_data(support, self.opt.get("support")))
                if not isinstance(sup, SArr):
                    sup = self.s
                self.obs = SArr((self.m,), lambda ix: self.value(ix[0]), "f")
                out = (sup, self.obs)
            else:
                self.sim += 1
                ensure("a simulated pattern", self.pattern(X, True) is not None)
                ensure("at the same support", same_data(support, self.s))
                ks = E.generics()
                if len(ks) != 1:
                    raise Unsupported("simulations in several loops")
                out = (support, SArr((self.m,), lambda ix: Sc(self.S(ks[0], ix[0]), "f"), "f"))
            if inside or self.opt.get("distances") is None:
                if which == "F":
                    self.check_distances("from reference points", distances, X)
                elif which == "J":
                    g, e = pair("distances of J", distances)
                    self.check_distances("to the nearest other event", g, X)
                    self.check_distances("from reference points", e, X)
                elif distances is not None:
                    raise Unsupported("distances given")
            return out
        return f

    def value(self, i):
        if self.which != "J":
            return Sc(self.O(i), "f")
        bad, inf = (z3.Function(q, I, z3.BoolSort()) for q in ("bad", "infinite"))
        return Sc(self.O(i), "f", (z3.And(bad(i), z3.Not(inf(i))), z3.And(bad(i), inf(i))))

    @contextlib.contextmanager
    def contracts(self):
        with by_contract(distance_statistics__f=self.stat("F"), distance_statistics__g=self.stat("G"), distance_statistics__j=self.stat("J"), distance_statistics__k=self.stat("K"),
                         distance_statistics__l=self.stat("L"), random__poisson=self.poisson, geometry__prepare_hull=self.prepare_hull, geometry__build_best_tree=self.tree, geometry__k_neighbors=self.k_neighbors):
            yield


def judge(st, res, L, keep, none=False):
    """lengths, values and p-values of a result with L support values"""
    sup, obs, p, sims = pair("result", res, 4)
    vector("support", sup, dim(L), lambda i: T(st.s.el(i)))
    vector("statistic", obs, dim(L), lambda i: st.O(i))
    dims("p-values", p, (dim(L),))
    R = zi(st.R)
    at_least = lambda i: Sum(st.R, lambda k: st.S(k, i) >= st.O(i))
    lower = lambda i: z3.If(at_least(i) <= z3.ToReal(R) - at_least(i), at_least(i), z3.ToReal(R) - at_least(i))
    forall("p-value", [(0, L)], lambda i: T(p.el(i)) == (1 + lower(i)) / (z3.ToReal(R) + 1))
    forall("p-value in (0, 1]", [(0, L)], lambda i: z3.And(T(p.el(i)) > 0, T(p.el(i)) <= 1))
    if keep:
        dims("simulations", sims, (st.R, dim(L)))
        forall("simulations", [(0, st.R), (0, L)], lambda k, i: T(sims.el(k, i)) == st.S(k, i))
    else:
        ensure("no simulations kept", sims is None)


def data(st, kind):
    return {"array": lambda: st.P, "geoseries": lambda: lib.GeoSeries(st.P), "geodataframe": lambda: lib.GeoDataFrame(st.P)}[kind]()


def run(E, q, kind="array", support="array", keep=True, hull=False, metric=False, distances=False, **kw):
    """calls the test; the result is judged for every number of events, simulations and support values"""
    st = Setting(E, q.upper(), hull=hull, metric=metric)
    st.opt["support"] = {"array": st.s, "default": None, "count": 15, "stop": (sreal("stop"),)}[support]
    if distances:
        g, e = sarray("gd", (st.n,)), sarray("fd", (sint("e", 1),))
        st.opt["distances"] = {"F": e, "J": (g, e)}[st.which]
    st.opt["linearized"] = kw.get("linearized", False)
    args = dict(n_simulations=st.R)
    if keep != "default":
        args["keep_simulations"] = keep
    if support != "default":
        args["support"] = st.opt["support"]
    if hull:
        args["hull"] = st.hull
    if metric:
        args["metric"] = st.metric
    if distances:
        args["distances"] = st.opt["distances"]
    with st.contracts():
        res = getattr(mod("distance_statistics"), q + "_test")(data(st, kind), **args, **kw)
    ensure("every simulation computed", st.sim > 0)
    return st, res


CASES = [("array", {}), ("array", dict(support="default", keep="default")), ("array", dict(support="count", hull=True)), ("array", dict(support="stop", keep=False)),
         ("array", dict(metric=True)), ("geoseries", {}), ("geodataframe", dict(support="default"))]
for _q in "fgkl":
    for _n, (_kind, _o) in enumerate(CASES + ([("array", dict(distances=True))] if _q == "f" else []) + ([("array", dict(linearized=True))] if _q == "l" else [])):
        @contract("C09", f"{_q}_test[{_kind}{''.join(', ' + k + (' ' + str(v) if v is not True else '') for k, v in _o.items())}]", FUN(_q))
        def _(E, q=_q, kind=_kind, o=_o):
            st, res = run(E, q, kind, **o)
            judge(st, res, zi(st.m), o.get("keep", True) is True)


for _n, (_kind, _o) in enumerate(CASES + [("array", dict(distances=True)), ("array", dict(truncate=True)), ("array", dict(truncate=True, keep=False)), ("array", dict(truncate=False))]):
    @contract("C09", f"j_test[{_kind}{''.join(', ' + k + (' ' + str(v) if v is not True else '') for k, v in _o.items())}]", FUN("j") + [D + "_truncate"])
    def _(E, kind=_kind, o=_o):
        st, res = run(E, "j", kind, **o)
        L = zi(pair("result", res, 4)[1]._shape[0])
        bad = z3.Function("bad", I, z3.BoolSort())
        if o.get("truncate", True):
            ensure("a prefix of the series", z3.And(L >= 0, L <= zi(st.m)))
            forall("every value returned is finite", [(0, L)], lambda i: z3.Not(bad(i)))
            ensure("cut at the first undefined or infinite value", z3.Or(L == zi(st.m), bad(L)))
            judge(st, res, L, o.get("keep", True) is True)
        else:
            ensure("the full series", L == zi(st.m))
            for k, q in enumerate(res[:3]):
                dims(("support", "statistic", "p-values")[k], q, (st.m,))
            dims("simulations", res[3], (st.R, st.m))
