"""Contracts of scipy, shapely, geopandas, joblib and small standard modules (trusted)."""
import math as _math
import types
import z3
from ..core import I, R, B, Unsupported, eng, fresh_name, mentions, to_real, rv
from .. import sums
from ..values import (Cell, Dom, Part, SArr, SSet, SymDict, Sc, Seq, VList, VDict, arr, as_seq, binop, canon, cast_sc, count_int, dim, is_num, ite, lift, num, pi_value, plain_dom,
                      rank, same_dim, sc_op, sqrt as _sqrt, ufun, zi, ceil as _ceil, floor_of)
from . import np_
from ..rt import Opaque, v_len


class ModBase:
    _name = "?"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(self._name + "." + n)


class Mod(ModBase):
    def __init__(self, name, **k):
        self.__dict__["_name"] = name
        self.__dict__.update(k)


# ------------------------------------------------------------------ warnings, math, numba, joblib
class _CW:
    def __init__(self, *a, **k): pass
    def __enter__(self): return []
    def __exit__(self, *a): return False


warnings = Mod("warnings", warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None, catch_warnings=_CW)


class _Math(ModBase):
    _name = "math"
    inf, nan = _math.inf, _math.nan

    @property
    def pi(self):
        return pi_value()

    @staticmethod
    def sqrt(x):
        x = lift(x)
        if not eng().decide(to_real(num(x.z)) >= 0):
            raise ValueError("math domain error")
        return _sqrt(cast_sc(x, "f"))

    @staticmethod
    def ceil(x):
        return _ceil(lift(x))

    @staticmethod
    def floor(x):
        return Sc(floor_of(to_real(num(lift(x).z))), "i")

    @staticmethod
    def hypot(a, b):
        return _sqrt(cast_sc(lift(a) * a + lift(b) * b, "f"))

    sin = staticmethod(lambda x: np_.sin(x))
    cos = staticmethod(lambda x: np_.cos(x))
    atan2 = staticmethod(lambda y, x: np_.arctan2(y, x))

    @staticmethod
    def degrees(x):
        return Sc(to_real(lift(x).z) * 180 / pi_value().z, "f")

    @staticmethod
    def isclose(*a, **k):
        raise Unsupported("math.isclose")


math = _Math()


def _njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


numba = Mod("numba", njit=_njit, jit=_njit, boolean=np_.bool_, prange=None, float64=np_.float64, int64=np_.int64)
from ..rt import v_range as _vr
numba.__dict__["prange"] = _vr


def delayed(f):
    return lambda *a, **k: f(*a, **k)


class Parallel:
    def __init__(self, *a, **k):
        pass

    def __call__(self, xs):
        return xs if isinstance(xs, VList) else VList(list(xs))

    def __enter__(self): return self
    def __exit__(self, *a): return False


joblib = Mod("joblib", Parallel=Parallel, delayed=delayed, cpu_count=lambda: 1)


# ------------------------------------------------------------------ scipy.spatial
class ConvexHull:
    """vertices: m distinct indices of points; volume: the hull's area"""

    def __init__(self, points, **k):
        E = eng()
        P = arr(points)
        if P.ndim != 2:
            raise Unsupported("ConvexHull of this shape")
        self.points = P.copy()
        m = E.fresh("nvert", I)
        n = zi(P._shape[0])
        v = E.fresh_fun("vert", [I], I)
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        E.assume(z3.And(m >= 3, m <= n), "ConvexHull has at least 3 vertices, all of them points of the input")
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(v(i) >= 0, v(i) < n)), patterns=[v(i)]))
        # the vertices are the corners of a convex polygon in counterclockwise order: no two are the same point, and the polygon's area is the hull's
        X = [(lambda c: lambda i: to_real(num(self.points.el(v(i), z3.IntVal(c)).z)))(c) for c in (0, 1)]
        if isinstance(P._shape[1], int) and P._shape[1] == 2:
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), z3.And(v(i) != v(j), z3.Or(X[0](i) != X[0](j), X[1](i) != X[1](j)))), patterns=[z3.MultiPattern(v(i), v(j))]))
        self.nvert, self.vx, self.vy = m, X[0], X[1]
        nx = lambda f, i: z3.If(i + 1 < m, f(i + 1), f(z3.IntVal(0)))  # the next corner
        with E.quiet():
            self.shoelace = sums.mk_sum(E, 0, m, lambda i: X[0](i) * nx(X[1], i) - nx(X[0], i) * X[1](i)) / 2 if P._shape[1] == 2 else None
        self.vertices = SArr((dim(m),), lambda ix: Sc(v(ix[0]), "i"), "i")
        E.ghost.setdefault("hull_vertices", []).append(v)
        self.volume = Sc(E.fresh("hullarea"), "f")
        E.assume(self.volume.z > 0)
        if self.shoelace is not None:
            E.assume(self.shoelace == self.volume.z, "the hull's area is the shoelace sum of its corners")
        self.area = Sc(E.fresh("hullperimeter"), "f")
        self.inside = E.fresh_fun("inhull", [R, R], B)
        self.pred = lambda x, y: self.inside(to_real(num(lift(x).z)), to_real(num(lift(y).z)))
        E.ghost.setdefault("hulls", []).append(self)


def in_convex_hull(h, x, y):
    return h.pred(x, y)


def same_rows(a, b):
    """the two arrays are provably equal, element by element"""
    if a.ndim != b.ndim or not all(same_dim(p, q) for p, q in zip(a._shape, b._shape)):
        return False
    E = eng()
    ks = [z3.Int(fresh_name("q")) for _ in a._shape]
    from .. import sums
    with E.quiet():
        return sums._in_scope(E, ks, [z3.And(k >= 0, k < zi(d)) for k, d in zip(ks, a._shape)], lambda: bool(E.valid(to_real(num(a.el(*ks).z)) == to_real(num(b.el(*ks).z)), 1500)))


class Delaunay:
    """find_simplex(p) >= 0 exactly if p lies in the hull of the points"""

    def __init__(self, points, **k):
        E = eng()
        self.points = arr(points)
        self.key = id(self.points.cell)
        self._pred = None
        for h in E.ghost.get("hulls", []):
            if any(same_rows(self.points, q) for q in (h.points[h.vertices], h.points)):
                self._pred = h.inside  # the hull of a hull's vertices (or of all its points) is that hull
        if self._pred is None:
            self._pred = E.fresh_fun("indelaunay", [R, R], B)
        self._simp = E.fresh_fun("simplex", [R, R], I)

    def find_simplex(self, p, **k):
        p = arr(p)
        E = eng()
        if p.ndim == 1:
            x, y = to_real(p.el(0).z), to_real(p.el(1).z)
            E.assume((self._simp(x, y) >= 0) == self._pred(x, y), "Delaunay.find_simplex")
            return Sc(self._simp(x, y), "i")
        raise Unsupported("find_simplex of many points")


class KDTree:
    def __init__(self, data, *a, **k):
        self.data = arr(data)

    def query(self, x, k=1, **kw):
        return query(self, x, k, kw)

    def query_ball_tree(self, other, r, **kw):
        """per own point the list of the other tree's points at distance <= r"""
        if kw:
            raise Unsupported("query_ball_tree options")
        A, Bd = self.data, other.data
        n, m = A._shape[0], Bd._shape[0]
        rr = lift(r)

        def inner(i):
            d = Dom([lambda: (z3.IntVal(0), zi(m))], lambda j: z3.simplify(dist(A, i, Bd, j) <= to_real(num(rr.z))))
            return VList(seq=Seq([Part(d, lambda j: Sc(j, "i"))]))
        return VList(seq=Seq([Part(plain_dom(zi(n)), inner)]))

    def query_pairs(self, r, **kw):
        """the pairs i < j at distance <= r"""
        if kw:
            raise Unsupported("query_pairs options")
        A = self.data
        n = zi(A._shape[0])
        rr = to_real(num(lift(r).z))
        z0 = z3.IntVal(0)
        return SSet(2, lambda i, j: z3.And(i < j, z3.simplify(dist(A, i, A, j) <= rr)), [(z0, n), (z0, n)])


cKDTree = KDTree


def dist2(A, i, Bm, j):
    d = A._shape[1]
    t = z3.RealVal(0)
    for c in range(d):
        u = to_real(num(A.el(i, c).z)) - to_real(num(Bm.el(j, c).z))
        t = t + u * u
    return t


def dist(A, i, Bm, j):
    """Euclidean distance of row i of A and row j of B"""
    if A.ndim == 1:
        raise Unsupported("distance of one-dimensional data")
    if isinstance(A._shape[1], int) and A._shape[1] == 1:
        u = z3.simplify(to_real(num(A.el(i, 0).z)) - to_real(num(Bm.el(j, 0).z)))
        return z3.If(u >= 0, u, -u)
    return _sqrt(Sc(dist2(A, i, Bm, j), "f")).z


def distfn(X, A):
    """the Euclidean distance of row i of X and row j of A as a defined symbol d(i, j): the same symbol for the same rows"""
    E = eng()
    reg = E.ghost.setdefault("distfn", [])
    for X0, A0, d in reg:
        if (X0 is X or same_rows(X0, X)) and (A0 is A or same_rows(A0, A)):
            return d
    Xs, As = X.copy(), A.copy()
    d = E.define("dist", [I, I], R, lambda i, j: dist(Xs, i, As, j))
    a, b = z3.Int(fresh_name("a")), z3.Int(fresh_name("b"))
    E.assume(z3.ForAll([a, b], d(a, b) >= 0, patterns=[d(a, b)]))
    reg.append((Xs, As, d))
    return d


def query(tree, x, k, kw, flat=True):
    """k nearest rows of the tree for every row of x, sorted by distance; row i lists k different indices; no other index is closer"""
    if kw:
        raise Unsupported("query options")
    E = eng()
    A, X = tree.data, arr(x)
    single = X.ndim == 1
    n, m = zi(A._shape[0]), zi(X._shape[0]) if not single else z3.IntVal(1)
    kz = zi(k)
    E.defined(kz >= 1, "query k >= 1")
    E.defined(kz <= n, "query: as many points in the tree as neighbours asked for")
    ix = E.fresh_fun("nbr", [I, I], I)
    i, c, d, j = (z3.Int(fresh_name(q)) for q in "icdj")
    row = z3.And(i >= 0, i < m)
    XX = X if not single else X.reshape((1, X._shape[0]))

    ds = distfn(XX, A)
    E.assume(z3.ForAll([i, c], z3.Implies(z3.And(row, c >= 0, c < kz), z3.And(ix(i, c) >= 0, ix(i, c) < n)), patterns=[ix(i, c)]), "KDTree.query: k nearest, sorted, distinct")
    E.assume(z3.ForAll([i, c, d], z3.Implies(z3.And(row, 0 <= c, c < d, d < kz), z3.And(ix(i, c) != ix(i, d), ds(i, ix(i, c)) <= ds(i, ix(i, d)))), patterns=[z3.MultiPattern(ix(i, c), ix(i, d))]))
    inv = E.fresh_fun("rankof", [I, I], I)
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(row, j >= 0, j < n), z3.Or(z3.And(inv(i, j) >= 0, inv(i, j) < kz, ix(i, inv(i, j)) == j), z3.And(inv(i, j) == -1, ds(i, j) >= ds(i, ix(i, kz - 1))))), patterns=[inv(i, j), ds(i, j)]))
    E.ghost.setdefault("queries", []).append(dict(ix=ix, inv=inv, k=kz, n=n, m=m, ds=ds))
    near = None
    if isinstance(k, int) and k == 1 and not single:  # the distance to the nearest row, when the contract names it
        from .. import sums
        for g in E.ghost.get("nearest_to", []):
            if same_dim(g["n"], A._shape[0]) and same_dim(g["rows"], X._shape[0]):
                a, b = z3.Int(fresh_name("a")), z3.Int(fresh_name("b"))
                if sums._in_scope(E, [a, b], [a >= 0, a < m, b >= 0, b < n], lambda: bool(E.valid(E.unfold(ds(a, b)) == E.unfold(g["dist"](a, b)), 1500))):
                    near = g["d"]
                    E.assume(z3.ForAll([i], z3.Implies(row, ds(i, ix(i, 0)) == near(i)), patterns=[ix(i, 0)]))
                    break
    with_d = SArr((dim(m), dim(kz)), lambda q: Sc(near(q[0]) if near else ds(q[0], ix(q[0], q[1])), "f"), "f")
    with_i = SArr((dim(m), dim(kz)), lambda q: Sc(ix(q[0], q[1]), "i"), "i")
    if single:
        with_d, with_i = with_d[0], with_i[0]
    elif isinstance(k, int) and k == 1 and flat:
        with_d, with_i = with_d[:, 0], with_i[:, 0]
    return with_d, with_i


def pair_dom(n):
    """i < j in row order"""
    nz = zi(n)
    d = Dom([lambda: (z3.IntVal(0), nz), lambda i: (i + 1, nz)], key=("tri", False, 1, z3.simplify(nz).sexpr()))
    d.pairs = (False, 1, nz)
    d._size = Sc(nz * (nz - 1) / 2, "i")
    eng().assume(z3.Implies(nz >= 0, 2 * d._size.z == nz * (nz - 1)), "n(n-1) is even")
    return d


def pdist(x, metric="euclidean", **k):
    X = arr(x)
    if X.ndim != 2:
        raise ValueError("A 2-dimensional array must be passed.")
    if k:
        raise Unsupported("pdist options")
    d = pair_dom(X._shape[0])
    if eng().ghost.get("opaque_pdist"):  # the contract under verification does not depend on the distances: any numbers
        g = eng().fresh_fun("dist", [I, I], R)
        return SArr((d,), lambda ix: Sc(g(*ix[0]), "f"), "f")
    f = metric_fn(metric)
    if eng().ghost.get("small_pdist") and isinstance(X._shape[0], int):
        k = X._shape[0]
        return arr([Sc(f(X, z3.IntVal(i), X, z3.IntVal(j)), "f") for i in range(k) for j in range(i + 1, k)])
    return SArr((d,), lambda ix: Sc(f(X, ix[0][0], X, ix[0][1]), "f"), "f")


def cdist(x, y, metric="euclidean", **k):
    X, Y = arr(x), arr(y)
    if k:
        raise Unsupported("cdist options")
    f = metric_fn(metric)
    return SArr((X._shape[0], Y._shape[0]), lambda ix: Sc(f(X, ix[0], Y, ix[1]), "f"), "f")


def metric_fn(metric):
    if metric == "euclidean":
        return dist
    if isinstance(metric, str):
        raise Unsupported(f"metric {metric}")
    raise Unsupported("metric")


def squareform(a, **k):
    a = arr(a)
    if k and set(k) - {"checks"}:
        raise Unsupported("squareform options")
    E = eng()
    f = a.snapshot()
    if a.ndim == 1:
        d = a._shape[0]
        if not (isinstance(d, Dom) and getattr(d, "pairs", None) and d.pairs[:2] == (False, 1)):
            raise Unsupported("squareform of this vector")
        n = dim(d.pairs[2])
        zero = cast_sc(lift(0), a.kind)
        return SArr((n, n), lambda ix: ite(z3.simplify(ix[0] == ix[1]), zero, ite(z3.simplify(ix[0] < ix[1]), f(((ix[0], ix[1]),)), f(((ix[1], ix[0]),)))), a.kind)
    d = pair_dom(a._shape[0])
    return SArr((d,), lambda ix: f((ix[0][0], ix[0][1])), a.kind)


spatial_distance = Mod("scipy.spatial.distance", pdist=pdist, cdist=cdist, squareform=squareform)
spatial = Mod("scipy.spatial", ConvexHull=ConvexHull, Delaunay=Delaunay, KDTree=KDTree, cKDTree=cKDTree, distance=spatial_distance, distance_matrix=lambda a, b: cdist(a, b))


class _Chi2:
    """chi2.sf(x, df): an uninterpreted number in [0, 1]"""
    @staticmethod
    def sf(x, df):
        E = eng()
        t = ufun("chi2_sf", 2)(canon(lift(x).z), canon(to_real(num(lift(df).z))))
        E.assume(z3.And(t >= 0, t <= 1), "chi2.sf is a probability")
        return Sc(t, "f")


def pearsonr(x, y):
    """(r, p): r is determined by the two vectors: covariance over the product of standard deviations"""
    x, y = arr(x), arr(y)
    if x.ndim != 1 or y.ndim != 1 or not same_dim(x._shape[0], y._shape[0]):
        raise ValueError("x and y must have the same length.")
    n = x.size
    mx, my = x.sum() / n, y.sum() / n
    dx, dy = x - mx, y - my
    with eng().quiet():
        r = (dx * dy).sum() / (np_.sqrt((dx * dx).sum()) * np_.sqrt((dy * dy).sum()))
    return (r, Sc(eng().fresh("pearson_p"), "f"))


class _PoissonD:
    """poisson.cdf(x, mu): an uninterpreted probability"""
    @staticmethod
    def cdf(x, mu):
        E = eng()
        ts = [canon(to_real(num(lift(q).z))) for q in (x, mu)]
        t = ufun("poisson_cdf", 2)(*ts)
        E.assume(z3.And(t >= 0, t <= 1), "poisson.cdf is a probability")
        return Sc(t, "f")


import collections as _collections
Power_divergenceResult = _collections.namedtuple("Power_divergenceResult", "statistic pvalue")


def chisquare(f_obs, f_exp=None, ddof=0, axis=0, **k):
    """sum of (observed - expected)^2 / expected, the expected counts being the mean unless given, and its chi-square tail with k - 1 - ddof degrees of freedom"""
    if k or axis not in (0, None):
        raise Unsupported("chisquare options")
    o = arr(f_obs)
    if o.ndim != 1:
        raise Unsupported("chisquare of a table")
    E = eng()
    o = np_._as(o, float) if o.kind != "f" else o
    e = o.mean() if f_exp is None else arr(f_exp)
    if f_exp is None:
        E.defined(to_real(num(lift(o.sum()).z)) != 0, "chisquare: the mean count is not zero")
    with E.quiet():
        s = ((o - e) ** 2 / e).sum()
    return Power_divergenceResult(s, _Chi2.sf(s, o.size - 1 - ddof))


stats = Mod("scipy.stats", chisquare=chisquare, chi2=_Chi2(), pearsonr=pearsonr, poisson=_PoissonD(), hypergeom=Mod("hypergeom"))
optimize = Mod("scipy.optimize")
scipy = Mod("scipy", spatial=spatial, stats=stats, optimize=optimize)


# ------------------------------------------------------------------ shapely, geopandas
class Geometry:
    """an opaque geometry: area, bounds and covered points are fixed numbers / a fixed predicate of the geometry"""

    def __init__(self, name="geom"):
        E = eng()
        self.gname = name
        self._area = Sc(E.fresh(name + "_area"), "f")
        E.assume(self._area.z >= 0)
        self._b = tuple(Sc(E.fresh(f"{name}_{q}"), "f") for q in ("xmin", "ymin", "xmax", "ymax"))
        E.assume(z3.And(self._b[0].z <= self._b[2].z, self._b[1].z <= self._b[3].z))
        self._in = E.fresh_fun(name + "_contains", [R, R], B)
        self._cx, self._cy = Sc(E.fresh(name + "_cx"), "f"), Sc(E.fresh(name + "_cy"), "f")

    def vc_contains_point(self, x, y):
        return self._in(to_real(num(lift(x).z)), to_real(num(lift(y).z)))

    @property
    def area(self):
        return self._area

    @property
    def bounds(self):
        return self._b

    @property
    def centroid(self):
        return Point(self._cx, self._cy)

    def contains(self, p):
        if not isinstance(p, Point):
            raise Unsupported("contains of a geometry")
        return Sc(self.vc_contains_point(p.x, p.y), "b")

    covers = contains

    def within(self, g):
        return g.contains(self)


class BaseGeometry(Geometry):
    pass


class Point(BaseGeometry):
    def __init__(self, *a):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, Point):
                a = (v.x, v.y)
            else:
                from ..rt import unpack
                a = unpack(v, 2) if not isinstance(v, SArr) or v.ndim == 1 else unpack(v.squeeze(), 2)
        self.x, self.y = (lift(q) if is_num(q) else q for q in a)

    @property
    def coords(self):
        return VList([(self.x, self.y)])

    area = 0.0

    @property
    def bounds(self):
        return (self.x, self.y, self.x, self.y)

    def buffer(self, r, **k):
        return Circle(self, r)


class Circle(BaseGeometry):
    def __init__(self, c, r):
        self.centre, self.radius = c, r


class Ellipse(BaseGeometry):
    """the circle of this radius about a centre, stretched along the axes (xfact, yfact), then turned counter-clockwise by an angle"""

    def __init__(self, centre, radius, xfact, yfact, turn):
        self.centre, self.radius, self.xfact, self.yfact, self.turn = centre, radius, xfact, yfact, turn


def _scale(g, xfact=1.0, yfact=1.0, zfact=1.0, origin="center"):
    if isinstance(g, Circle) and isinstance(origin, str) and origin in ("center", "centroid"):
        return Ellipse(g.centre, g.radius, xfact, yfact, 0)
    if isinstance(g, Ellipse) and isinstance(origin, str) and origin in ("center", "centroid") and is_num(g.turn) and T(lift(g.turn)).eq(z3.RealVal(0)):
        return Ellipse(g.centre, g.radius, g.xfact * xfact, g.yfact * yfact, 0)
    raise Unsupported("scale")


def _rotate(g, angle, origin="center", use_radians=False):
    if not (isinstance(origin, str) and origin in ("center", "centroid")):
        raise Unsupported("rotation about another point")
    if not use_radians:
        angle = angle * Sc(pi_value().z / 180, "f")
    if isinstance(g, Circle):
        return g
    if isinstance(g, Ellipse):
        return Ellipse(g.centre, g.radius, g.xfact, g.yfact, g.turn + angle)
    raise Unsupported("rotate")


def T(x):
    return z3.simplify(to_real(x.z))


class Polygon(BaseGeometry):
    def __init__(self, shell=None, name="polygon", **k):
        if shell is not None and not isinstance(shell, str):
            self.shell = shell
        Geometry.__init__(self, shell if isinstance(shell, str) else name)


class Ring:
    def __init__(self, pts):
        self._pts = pts

    @property
    def coords(self):
        return VList([tuple(p) for p in self._pts])

    @property
    def xy(self):
        return VList([p[0] for p in self._pts]), VList([p[1] for p in self._pts])


class Box(Polygon):
    """axis-parallel closed rectangle"""

    def __init__(self, a, b, c, d):
        self._b = tuple(cast_sc(lift(q if not isinstance(q, SArr) else q.el()), "f") for q in (a, b, c, d))
        self.gname = "box"

    @property
    def area(self):
        a, b, c, d = self._b
        return abs((c - a) * (d - b))

    @property
    def centroid(self):
        a, b, c, d = self._b
        return Point((a + c) / 2, (b + d) / 2)

    @property
    def exterior(self):
        a, b, c, d = self._b
        return Ring([(c, b), (c, d), (a, d), (a, b), (c, b)])
    interiors = ()

    def vc_contains_point(self, x, y):
        """closed (contains of shapely is open: used only for the predicates that count the border)"""
        raise Unsupported("contains of a box")

    def vc_subst(self, sub):
        return Box(*[sub.val(q) for q in self._b])


def box(a, b, c, d, ccw=True):
    return Box(a, b, c, d)


class MultiPolygon(BaseGeometry):
    def __init__(self, parts=None, name="multipolygon"):
        self.parts = parts
        Geometry.__init__(self, name)


class GeoPandasBase:
    pass


class GeomTypes:
    """the geometries are points (precondition)"""

    def isin(self, names):
        from .pd_ import _All
        return _All("Point" in list(names))

    @property
    def str(self):
        return self

    def contains(self, s):
        from .pd_ import _All
        return _All(s in "Point")

    def unique(self):
        return VList(["Point"])

    def __eq__(self, o):
        from .pd_ import _All
        return _All(o == "Point")
    __hash__ = None


class GeoSeries(GeoPandasBase):
    """points given by their coordinate array"""

    def __init__(self, coords):
        self._c = coords

    @property
    def geometry(self):
        return self

    @property
    def values(self):
        return self

    array = values

    def get_coordinates(self):
        from .pd_ import DataFrame
        return DataFrame(self._c, columns=["x", "y"])

    def vc_len(self):
        return v_len(self._c)

    def dropna(self):
        """no geometry is missing (precondition)"""
        return self

    @property
    def geom_type(self):
        return GeomTypes()

    @property
    def x(self):
        return self._c[:, 0]

    @property
    def y(self):
        return self._c[:, 1]


class GeoDataFrame(GeoPandasBase):
    def __init__(self, coords):
        self.geometry = GeoSeries(coords)

    def vc_len(self):
        return v_len(self.geometry)

    def get_coordinates(self):
        return self.geometry.get_coordinates()

    @property
    def geom_type(self):
        return self.geometry.geom_type


def get_coordinates(g):
    if isinstance(g, GeoPandasBase):
        c = g.geometry._c
        return c.copy()
    if isinstance(g, Point):
        return arr(((g.x, g.y),))
    if isinstance(g, Env) and g.op == "minimum_rotated_rectangle":
        return g.ring()
    if isinstance(g, Env):
        raise Unsupported("coordinates of a derived geometry")
    raise Unsupported("get_coordinates")


class Env(BaseGeometry):
    """geometry derived from others by a named shapely operation"""

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def of(self):
        """the coordinates of the points a geometry is derived from"""
        a = self.args[0]
        if isinstance(a, Env):
            return a.of()
        if isinstance(a, GeoPandasBase):
            return a.geometry._c
        return arr(a)

    def ring(self):
        """corners of a rectangle, the first one repeated: one closed ring around the points, in either orientation"""
        if not hasattr(self, "corners"):
            E = eng()
            X = self.of()
            n = zi(X._shape[0])
            self.corners = [[E.fresh(f"corner{i}{'xy'[c]}", R) for c in range(2)] for i in range(4)]
            self.side = E.fresh("orientation", I)
            E.assume(z3.Or(self.side == 1, self.side == -1))
            k = z3.Int(fresh_name("k"))
            p = [to_real(num(X.el(k, z3.IntVal(c)).z)) for c in range(2)]
            E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(*[z3.ToReal(self.side) * turn(a, b, p) >= 0 for a, b in zip(self.corners, self.corners[1:] + self.corners[:1])])), patterns=[p[0]]),
                     "GEOS: the minimum rotated rectangle encloses the points")
        cs = self.corners
        return arr([[Sc(q, "f") for q in c] for c in cs + cs[:1]])


def turn(a, b, p):
    """> 0 exactly if p lies left of the line from a to b"""
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def _derived(op):
    return lambda *a, **k: Env(op, *a)


def points(p):
    if isinstance(p, tuple) and len(p) == 2 and all(is_num(q) for q in p):
        return Point(*p)
    return Env("points", p)


def within(a, b):
    if isinstance(a, Point) and isinstance(b, Geometry):
        return Sc(b.vc_contains_point(a.x, a.y), "b")
    raise Unsupported("within")


shapely_geometry = Mod("shapely.geometry", Point=Point, Polygon=Polygon, MultiPolygon=MultiPolygon, LineString=Opaque("LineString"), base=Mod("shapely.geometry.base", BaseGeometry=BaseGeometry), box=box)
shapely = Mod("shapely", Geometry=Geometry, Point=Point, Polygon=Polygon, MultiPolygon=MultiPolygon, geometry=shapely_geometry,
              get_coordinates=get_coordinates, area=lambda g: g.area, bounds=lambda g: arr(g.bounds), within=within, points=points, multipoints=_derived("multipoints"),
              convex_hull=_derived("convex_hull"), envelope=_derived("envelope"), geometrycollections=_derived("geometrycollections"),
              minimum_rotated_rectangle=_derived("minimum_rotated_rectangle"),
              centroid=lambda g: g.centroid, affinity=Mod("shapely.affinity", scale=_scale, rotate=_rotate), coordinates=Mod("shapely.coordinates", get_coordinates=get_coordinates))
geopandas_base = Mod("geopandas.base", GeoPandasBase=GeoPandasBase)
geopandas = Mod("geopandas", GeoSeries=GeoSeries, GeoDataFrame=GeoDataFrame, base=geopandas_base)


class _Arc:
    pass


class Rectangle:
    def __init__(self, left, lower, right, upper):
        self.left, self.lower, self.right, self.upper = left, lower, right, upper

    def __getitem__(self, k):
        return (self.left, self.lower, self.right, self.upper)[k]

    def __iter__(self):
        return iter((self.left, self.lower, self.right, self.upper))


def cg_point(loc):
    """libpysal point: a pair of coordinates"""
    x, y = loc
    return (x, y)


class CgPolygon:
    """libpysal polygon over lists of vertices of known length (the orientation libpysal normalises to is not modelled: area and extent do not depend on it)"""

    def __init__(self, vertices, holes=None):
        vl = list(vertices)
        self._parts = VList([VList(list(q)) for q in vl] if isinstance(vl[0], list) else [VList(vl)])
        hs = list(holes) if holes is not None else []
        self._holes = VList([VList(list(q)) for q in hs] if hs and isinstance(hs[0], list) else [VList(hs)])
        self._hit = None

    def vc_subst(self, sub):
        n = object.__new__(type(self))
        n.__dict__.update(self.__dict__)
        n._parts, n._holes = sub.val(self._parts), sub.val(self._holes)
        return n

    @property
    def parts(self):
        return VList([VList(list(q)) for q in self._parts])

    @property
    def holes(self):
        return VList([VList(list(q)) for q in self._holes])

    @property
    def vertices(self):
        return VList([v for q in self._parts for v in q] + [v for q in self._holes for v in q])

    @property
    def area(self):
        def ring(q):
            q = list(q)
            if not q:
                return z3.RealVal(0)
            t = z3.RealVal(0)
            X = [[to_real(num(lift(v[c]).z)) for c in (0, 1)] for v in q]
            for i in range(len(q)):
                a, b = X[i - 1], X[i]
                t = t + (a[0] + b[0]) * (a[1] - b[1])
            t = t / 2
            return z3.If(t >= 0, t, -t)
        r = z3.RealVal(0)
        for q in self._parts:
            r = r + ring(q)
        for q in self._holes:
            r = r - ring(q)
        return Sc(z3.simplify(r), "f")

    @property
    def bounding_box(self):
        a = arr(tuple(tuple(v) for v in self.vertices))
        return Rectangle(a[:, 0].min(), a[:, 1].min(), a[:, 0].max(), a[:, 1].max())

    @property
    def bbox(self):
        return VList(list(self.bounding_box))

    def contains_point(self, p):
        """an unknown predicate of the coordinates"""
        E = eng()
        if self._hit is None:
            with E.scopes_quiet() if False else E.quiet():
                self._hit = z3.Function(fresh_name("contains"), R, R, B)
        x, y = to_real(num(lift(p[0]).z)), to_real(num(lift(p[1]).z))
        return Sc(self._hit(x, y), "b")


def distance_matrix(X, p=2.0, threshold=5e7):
    X = arr(X)
    if not (isinstance(p, (int, float)) and p == 2) or X.ndim != 2:
        raise Unsupported("distance_matrix")
    return cdist(X, X)


class KNNWeights:
    """k nearest neighbours: neighbors[i] lists k different rows j != i (which ones among equally distant rows is open)"""

    def __init__(self, data, k, *a, **kw):
        from . import rng
        if a or kw:
            raise Unsupported("KNN options")
        E = eng()
        X = arr(data)
        n = zi(X._shape[0])
        f, _ = rng.draw_fun("neighbour", [I, I], B)
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        E.assume(z3.ForAll([i], z3.Not(f(i, i)), patterns=[f(i, i)]), "KNN: no event is its own neighbour")
        E.ghost.setdefault("knn", []).append(dict(data=X.copy(), k=k, near=f, n=n))
        item = lambda i: VList(seq=Seq([Part(Dom([lambda: (z3.IntVal(0), n)], lambda j: f(i, j)), lambda j: Sc(j, "i"))]))
        self.neighbors = VDict(sym=SymDict([(plain_dom(n), lambda q: q)], lambda q: z3.And(q >= 0, q < n), item, True))

    @classmethod
    def from_array(cls, data, k=2, *a, **kw):
        return cls(data, k, *a, **kw)


weights = Mod("libpysal.weights", KNN=KNNWeights)
libpysal_cg_shapes = Mod("libpysal.cg.shapes", Polygon=CgPolygon, Rectangle=Rectangle, Point=cg_point)
libpysal_cg_kdtree = Mod("libpysal.cg.kdtree", Arc_KDTree=_Arc)
libpysal_cg = Mod("libpysal.cg", KDTree=KDTree, distance_matrix=distance_matrix, kdtree=libpysal_cg_kdtree, Polygon=CgPolygon, Rectangle=Rectangle, shapes=libpysal_cg_shapes)
class _Graph:
    @staticmethod
    def from_adjacency(*a, **k):
        raise Unsupported("Graph")


libpysal_graph = Mod("libpysal.graph", Graph=_Graph)
libpysal = Mod("libpysal", cg=libpysal_cg, weights=weights, graph=libpysal_graph)


class _SkTree(KDTree):
    valid_metrics = ["euclidean", "l2", "minkowski", "p", "manhattan", "cityblock", "l1", "chebyshev", "infinity"]

    def __init__(self, data, metric="euclidean", **k):
        if metric not in ("euclidean", "l2"):
            raise Unsupported("metric")
        self.data = arr(data)


    def query(self, x, k=1, return_distance=True, **kw):
        """as scipy's, but always two-dimensional"""
        x = arr(x)
        if x.ndim != 2:
            raise ValueError("Expected 2D array, got 1D array instead")
        d, i = query(self, x, k, kw, flat=False)
        return (d, i) if return_distance else i


class _SkBall(_SkTree):
    valid_metrics = _SkTree.valid_metrics + ["haversine"]


sklearn_neighbors = Mod("sklearn.neighbors", KDTree=_SkTree, BallTree=_SkBall)


def modules():
    import importlib
    numpy = np_
    from . import pd_
    from . import plot_, files_
    libpysal.__dict__["io"] = files_.io
    mpl = Mod("matplotlib", pyplot=plot_.pyplot)
    m = {"pandas": pd_.pandas, "pandas.api": Mod("pandas.api", types=pd_.api_types), "pandas.api.types": pd_.api_types, "matplotlib": mpl, "matplotlib.pyplot": mpl.pyplot,
         "matplotlib.collections": Mod("matplotlib.collections"), "matplotlib.patches": Mod("matplotlib.patches"), "libpysal.cg.shapes": libpysal_cg_shapes,
         "libpysal.io": files_.io, "datetime": files_.datetime, "statsmodels": plot_.statsmodels, "statsmodels.api": plot_.sm_api, "statsmodels.nonparametric": plot_.sm_nonparametric, "KDEpy": plot_.KDEpy,
         "numpy": numpy, "numpy.typing": np_.typing, "numpy.random": np_.random, "warnings": warnings, "math": math, "numba": numba, "joblib": joblib, "scipy": scipy, "scipy.spatial": spatial,
         "scipy.spatial.distance": spatial_distance, "scipy.stats": stats, "scipy.optimize": optimize, "shapely": shapely, "shapely.affinity": shapely.affinity, "shapely.geometry": shapely_geometry,
         "shapely.geometry.base": shapely_geometry.base, "geopandas": geopandas, "geopandas.base": geopandas_base, "libpysal": libpysal, "libpysal.graph": libpysal_graph, "libpysal.weights": weights, "libpysal.cg": libpysal_cg,
         "libpysal.cg.kdtree": libpysal_cg_kdtree, "sklearn": Mod("sklearn", neighbors=sklearn_neighbors), "sklearn.neighbors": sklearn_neighbors}
    return m
