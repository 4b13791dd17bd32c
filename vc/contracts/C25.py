"""C25: the same points give the same answer in every accepted container."""
import itertools
import z3
from vc.harness import *
from vc.shims import lib, np_
from vc.contracts import common, C11
from vc.contracts.C06 import covered, increasing_support, some_covered
from vc.values import VDict, is_num

CG, DS, Q = "pointpats.centrography.", "pointpats.distance_statistics.", "pointpats.quadrat_statistics."
TRUSTED = ["shapely.get_coordinates and GeoSeries.get_coordinates return the points in order; the active geometry column is the frame's points (vc/shims/lib.py)", "ConvexHull, GEOS, KD trees and minimize are functions of the coordinates they are given", "floats are real numbers"]
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())
CONTAINERS = ("array", "list", "geoseries", "geodataframe")


def data(kind, n):
    return C11.data(kind, n)


def flat(r):
    """the numbers a result consists of: numbers and arrays"""
    if isinstance(r, lib.Point):
        return [r.x, r.y]
    if isinstance(r, (VDict, dict)):
        return [x for v in r.values() for x in flat(v)]
    if isinstance(r, (tuple, list)) and not isinstance(r, VList) or isinstance(r, VList) and not r.symbolic:
        return [x for v in r for x in flat(v)]
    if isinstance(r, SArr) and all(isinstance(d, int) for d in r._shape):
        return [r.el(*[z3.IntVal(i) for i in ix]) for ix in itertools.product(*map(range, r._shape))]
    if isinstance(r, lib.GeoPandasBase):
        return [r.geometry._c]
    if isinstance(r, VList):
        return [arr(r)]
    if isinstance(r, lib.KDTree):
        return [r.data]
    return [r]


def same_result(name, r, q):
    """two results are the same numbers"""
    a, b = flat(r), flat(q)
    if len(a) != len(b):
        fail(name, f"{len(a)} and {len(b)} values")
    for x, y in zip(a, b):
        if is_num(x) and is_num(y):
            same_number(name, x, T(y))
        elif isinstance(x, SArr) and isinstance(y, SArr) and not x.ndim and not y.ndim:
            same_number(name, x, T(y))
        elif isinstance(x, SArr) and isinstance(y, SArr) and x.ndim == y.ndim:
            dims(name, x, y.shape)
            forall(name, [(0, Sc(zi(d), "i")) for d in y._shape], lambda *ix: T(x.el(*ix)) == T(y.el(*ix)))
        else:
            fail(name, f"{type(x).__name__} and {type(y).__name__}")


def relational(group, functions, n_lo=2, kinds=CONTAINERS, pre=None):
    """the function's results for every container against those for the array"""
    def deco(f):
        for k in kinds[1:]:
            @contract("C25", f"{group}[{k}]", functions)
            def _(E, k=k):
                n = sint("n", n_lo)
                extra = pre(E, n) if pre else None
                run = (lambda d, kind: f(E, d, n, kind, extra)) if pre else (lambda d, kind: f(E, d, n, kind))
                a = run(data("array", n), "array")
                b = run(data(k, n), k)
                same_result("same numbers as for the array", b, a)
        return f
    return deco


for _f in ("mean_center", "manhattan_median", "std_distance"):
    relational("centrography." + _f, [CG + _f], 1)(lambda E, d, n, k, f=_f: getattr(mod("centrography"), f)(d))


def weights(E, n):
    w = sarray("w", (n,))
    E.assume(Sum(n, lambda j: T(w.el(j))) != 0, "the weights do not sum to zero (precondition)")
    return w


relational("centrography.weighted_mean_center", [CG + "weighted_mean_center"], 1, pre=weights)(lambda E, d, n, k, w: mod("centrography").weighted_mean_center(d, w))


def dtot(E, d, n, k):
    x, y = sreal("cx"), sreal("cy")
    at = lib.Point(x, y) if k[0] == "g" else VList([x, y])
    return mod("centrography").dtot(at, d)


relational("centrography.dtot", [CG + "dtot"], 1)(dtot)


class Minimizer:
    """contract of scipy.optimize.minimize: a function of the start and of the function minimized (observed at an arbitrary place)"""

    def __init__(self, E):
        self.E, self.calls = E, []
        self.x, self.y = sreal("atx"), sreal("aty")

    def __call__(self, fun, start, args=(), **k):
        v = fun(np_.asarray([self.x, self.y]), *args)
        self.calls.append((start, v))
        return {"x": sarray("least", (2,))}


for _k in CONTAINERS[1:]:
    @contract("C25", f"centrography.euclidean_median[{_k}]", [CG + "euclidean_median", CG + "dtot", CG + "mean_center"])
    def _(E, k=_k):
        n = sint("n", 1)
        M = mod("centrography")
        m = Minimizer(E)
        old, M.minimize = M.minimize, m
        try:
            a = M.euclidean_median(data("array", n))
            b = M.euclidean_median(data(k, n))
        finally:
            M.minimize = old
        ensure("one search each", len(m.calls) == 2)
        same_result("same start and same function to minimize", m.calls[1], m.calls[0])
        same_result("same numbers as for the array", b, a)


class Once:
    """a function of its arguments: called again with the same numbers it returns the same result"""

    def __init__(self, name, fn):
        self.name, self.fn, self.calls = name, fn, []

    def __call__(self, *a, **k):
        now = list(a) + [v for _, v in sorted(k.items()) if v is not None]
        if self.calls:
            same_result(f"{self.name}: called with the same numbers", [x for x in now if numeric(x)], [x for x in self.calls[0][0] if numeric(x)])
            ensure(f"{self.name}: called with the same options", [x for x in now if not numeric(x)] == [x for x in self.calls[0][0] if not numeric(x)])
            return self.calls[0][1]
        r = self.fn(*a, **k)
        self.calls.append((now, r))
        return r


def numeric(x):
    return not isinstance(x, (str, bool, type(None)))


def table_of(name, shape, kind="f"):
    return lambda *a, **k: sarray(name, shape(*a), kind) if callable(shape) else sarray(name, shape, kind)


def statistic(f, label="", stubs=lambda E, n: {}, extra=lambda E, n: {}, functions=(), **kw):
    for kind in CONTAINERS[1:]:
        @contract("C25", f"{f}{label}[{kind}]", [DS + f, DS + "_prepare", *functions])
        def _(E, kind=kind):
            n, m = sint("n", 2), sint("m", 2)
            s = increasing_support(E, m)[0]
            args = extra(E, n)
            with by_contract(**stubs(E, n)), E.quiet():  # that they are defined is decided elsewhere (C06, C07, C08)
                M = getattr(mod("distance_statistics"), f)
                a = M(data("array", n), support=s, **args)
                b = M(data(kind, n), support=s, **args)
            same_result("same numbers as for the array", b, a)


def rising(name, shape):
    """the values of F and G start at 0 (C06)"""
    a = sarray(name, shape)
    return SArr(shape, lambda ix: Sc(z3.If(ix[0] == 0, 0, T(a.el(ix[0]))), "f"), "f")


def trees(E, n):
    """a tree is a function of the coordinates, its answers one of the query"""
    class Answers(lib.KDTree):
        def __init__(self, X, metric):
            lib.KDTree.__init__(self, X, metric)

        def query(self, X, k=1, **kw):
            return ask(self.data, X, k)
    ask = Once("tree query", lambda A, X, k: (sarray("asked", (arr(X)._shape[0], k)), sarray("found", (arr(X)._shape[0], k), "i")))
    return Once("tree", lambda X, metric: Answers(X, metric))


statistic("g", "[given distances]", extra=lambda E, n: dict(distances=sarray("D1", (n,))))
statistic("f", "[given distances]", extra=lambda E, n: dict(distances=sarray("D1", (n,))))
statistic("g", stubs=lambda E, n: dict(geometry__k_neighbors=Once("neighbours", lambda t, X, k: (sarray("dist", (n, k)), sarray("nb", (n, k), "i")))))
statistic("f", stubs=lambda E, n: dict(geometry__build_best_tree=trees(E, n), random__poisson=Once("random points", lambda hull, size: sarray("random", (1000, 2)))))
statistic("k")
statistic("l")
for _q in (False, True):
    statistic("j", f"[truncate={_q}]", stubs=lambda E, n: {f"distance_statistics__{q}": Once(q.upper(), lambda coordinates, support, q=q, **kw: (support, rising(q + "stat", support._shape))) for q in "fg"}, extra=lambda E, n, q=_q: dict(truncate=q))


def grid(E, n):
    C11.extent(E, n)
    return sint("nx", 1), sint("ny", 1)


def rectangles(E, d, n, k, c):
    m = mod("quadrat_statistics").RectangleM(d, c[0], c[1])
    return m.count_column, m.count_row, m.num, m.rectangle_width, m.rectangle_height, m.points


relational("RectangleM", [Q + "RectangleM.__init__", Q + "_as_points_array", Q + "_compute_mbb"], pre=grid)(rectangles)


def hexagons(E, d, n, k, h):
    m = mod("quadrat_statistics").HexagonM(d, h)
    return m.count_column, m.count_row_even, m.count_row_odd, m.num, m.h_length, m.semi_height, m.mbb, m.points


def side(E, n):
    C11.extent(E, n)
    h = sreal("h")
    E.assume(h.z > 0)
    return h


relational("HexagonM", [Q + "HexagonM.__init__", Q + "_as_points_array", Q + "_compute_mbb"], pre=side)(hexagons)
relational("_as_points_array", [Q + "_as_points_array"], kinds=CONTAINERS + ("pattern",))(lambda E, d, n, k: mod("quadrat_statistics")._as_points_array(d))


class Grid:
    """a grid of cells: a function of the points it is given"""
    made = None

    def __init__(self, pp, *a, **k):
        self.points = mod("quadrat_statistics")._as_points_array(pp)
        self.num, self.mbb = 4, np_.asarray([0, 0, 1, 1])
        self.args = a, k
        self.window = k.get("window")
        type(self).made.append(self)

    def point_location_sta(self):
        return VDict({q: sint(f"count{q}", 0) for q in range(4)})


for _shape in ("rectangle", "hexagon"):
    def _quadrat(E, d, n, k, c, shape=_shape):
        for q in range(4):
            E.assume(sint(f"count{q}", 1).z > 0)
        with by_contract(quadrat_statistics__RectangleM=Grid, quadrat_statistics__HexagonM=Grid):
            Grid.made = []
            q = mod("quadrat_statistics").QStatistic(d, shape=shape, nx=2, ny=2, lh=sreal("lh"), realizations=0)
            ensure("a grid made", len(Grid.made) >= 1)
            return q.chi2, q.df, q.chi2_pvalue, q.chi2_contrib, q.points, [g.points for g in Grid.made]
    relational(f"QStatistic[{_shape}]", [Q + "QStatistic.__init__", Q + "_as_points_array"], kinds=CONTAINERS + ("pattern",), pre=side)(_quadrat)


def ellipse_list(E, n):
    w = sarray("w", (n,))
    E.assume(z3.And(Sum(n, lambda j: T(w.el(j))) > 0, n.z > 2))
    return w


relational("centrography.minimum_bounding_rectangle", [CG + "minimum_bounding_rectangle"], 1, kinds=("array", "list"))(lambda E, d, n, k: mod("centrography").minimum_bounding_rectangle(d))
class Geos:
    """GEOS and Qhull are functions of the points they are given"""

    def __init__(self):
        self.rings, self.hulls = {}, []
        self.ring = lib.Env.ring
        self.qhull = lib.ConvexHull

    def again(self, what, X, Y):
        dims(what, X, Y.shape)
        forall(what, [(0, Sc(zi(d), "i")) for d in Y._shape], lambda *ix: T(X.el(*ix)) == T(Y.el(*ix)))

    def __enter__(self):
        M = self.M = mod("centrography")
        geos = self

        def ring(g):
            first = geos.rings.setdefault(g.op, g)
            if first is not g:
                geos.again(f"GEOS {g.op}: called with the same points", g.of(), first.of())
            return geos.ring(first)

        def hull(points):
            X = arr(points)
            for Y, h in geos.hulls:
                geos.again("Qhull: called with the same points", X, Y)
                return h
            geos.hulls.append((X, geos.qhull(X)))
            return geos.hulls[0][1]
        lib.Env.ring = ring
        self.old = M.ConvexHull
        M.ConvexHull = hull

    def __exit__(self, *a):
        lib.Env.ring = self.ring
        self.M.ConvexHull = self.old


def with_geos(name, functions, fn, kinds=CONTAINERS):
    for k in kinds[1:]:
        @contract("C25", f"centrography.{name}[{k}]", functions)
        def _(E, k=k):
            n = sint("n", 3)
            with Geos():
                a, b = fn(data("array", n), n), fn(data(k, n), n)
            same_result("same numbers as for the array", b, a)


PAIRS = ("array", "list")
MRR = [CG + "minimum_rotated_rectangle", CG + "_get_mrr_angle"]
with_geos("minimum_rotated_rectangle", MRR, lambda d, n: mod("centrography").minimum_rotated_rectangle(d, return_angle=True), PAIRS)
with_geos("minimum_rotated_rectangle, angle", MRR, lambda d, n: mod("centrography").minimum_rotated_rectangle(d, return_angle=True)[1])
with_geos("hull", [CG + "hull"], lambda d, n: mod("centrography").hull(d), PAIRS)


class InTurn:
    """a function of the points it is given: its q-th call gets the same points and gives the same answer in every run"""

    def __init__(self, what, answer):
        self.what, self.answer, self.calls, self.q = what, answer, [], 0

    def __call__(self, X):
        X = arr(X)
        if self.q == len(self.calls):
            self.calls.append((X, self.answer()))
        Y, r = self.calls[self.q]
        self.q += 1
        if Y is not X:
            Geos.again(None, f"{self.what}: called with the same points", X, Y)
        return r


for _k in CONTAINERS[1:]:
    @contract("C25", f"centrography.minimum_bounding_circle[{_k}]", [CG + "minimum_bounding_circle"], allow=(Exception,))
    def _(E, k=_k):
        n = sint("n", 3)
        M = mod("centrography")
        stubs = dict(is_clockwise=InTurn("orientation", lambda: Sc(E.fresh("clockwise", z3.BoolSort()), "b")),
                     _skyum_numba=InTurn("Skyum's search", lambda: (sarray("circle", (3,)), None, None, None)))
        stubs["_skyum_lists"] = stubs["_skyum_numba"]
        kept = {q: getattr(M, q) for q in stubs}

        def run(d):
            for q in stubs.values():
                q.q = 0
            r = M.minimum_bounding_circle(d)
            return (r.centre, r.radius) if isinstance(r, lib.Circle) else r
        try:
            for q, v in stubs.items():
                setattr(M, q, v)
            with Geos():
                a, b = run(data("array", n)), run(data(k, n))
        finally:
            for q, v in kept.items():
                setattr(M, q, v)
        same_result("same numbers as for the array", b, a)


relational("centrography.minimum_bounding_rectangle", [CG + "minimum_bounding_rectangle"], 1, kinds=PAIRS)(lambda E, d, n, k: mod("centrography").minimum_bounding_rectangle(d))


def frame_ellipse(E, d, n, k, w):
    with E.quiet():
        e = mod("centrography").ellipse(d, w)
    return (e.xfact, e.yfact, e.turn) if isinstance(e, lib.Ellipse) else e


relational("centrography.ellipse", [CG + "ellipse"], 3, pre=ellipse_list)(frame_ellipse)
