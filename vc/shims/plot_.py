"""matplotlib, statsmodels and KDEpy as used by plot_density: an axis records what is drawn on it; a density estimate is a fixed function of the position, of the data, bandwidth and kernel it was given."""
import z3
from ..core import I, R, Unsupported, eng, to_real
from ..values import Dom, SArr, Sc, VList, arr, dim, flat_dom, is_num, lift, num, same_dim, zi
from .lib import Mod


class ContourSet:
    def __init__(self, kind, args, kw):
        self.kind, self.args, self.kw = kind, args, kw


class Axes:
    """records contours"""

    def __init__(self):
        self.drawn = []

    def set_aspect(self, *a, **k): pass
    def set_xlabel(self, *a, **k): pass
    def set_ylabel(self, *a, **k): pass
    def set_title(self, *a, **k): pass

    def contour(self, *a, **k):
        self.drawn.append(ContourSet("contour", a, k))
        return self.drawn[-1]

    def contourf(self, *a, **k):
        self.drawn.append(ContourSet("contourf", a, k))
        return self.drawn[-1]


def subplots(*a, **k):
    if a:
        raise Unsupported("several axes")
    ax = Axes()
    eng().ghost.setdefault("axes", []).append(ax)
    return object(), ax


def _observations(data, k):
    """statsmodels' reading of k variables: one row per observation; a (k, n) array with n != k is transposed"""
    a = arr(data)
    if a.ndim != 2:
        raise Unsupported("observations of this rank")
    if same_dim(a._shape[0], k) and not same_dim(a._shape[1], k):
        if not eng().decide(zi(a._shape[1]) != k):
            return a
        return a.T
    if not same_dim(a._shape[1], k):
        raise ValueError("cannot reshape array")
    return a


class KDEMultivariate:
    def __init__(self, data=None, var_type=None, bw=None, **k):
        if k:
            raise Unsupported("KDEMultivariate options")
        E = eng()
        self.var_type, self.bw = var_type, [lift(x) for x in bw]
        self.data = _observations(data, len(var_type))
        if not E.decide(zi(self.data._shape[0]) > len(var_type)):
            raise ValueError("The number of observations must be larger than the number of variables.")
        self.f = E.fresh_fun("density", [R, R], R)
        E.ghost.setdefault("densities", []).append(self)

    def pdf(self, data_predict=None):
        if data_predict is None:
            raise Unsupported("density at the data")
        q = _observations(data_predict, 2)
        g = q.snapshot()
        n = q._shape[0]
        return SArr((n,), lambda ix: Sc(self.f(*[to_real(num(g((ix[0], z3.IntVal(c))).z)) for c in (0, 1)]), "f"), "f")


class FFTKDE:
    def __init__(self, kernel="gaussian", bw=1, norm=2):
        if norm != 2:
            raise Unsupported("norm")
        self.kernel, self.bw, self.data = kernel, [lift(bw)], None

    def fit(self, data, weights=None):
        if weights is not None:
            raise Unsupported("weights")
        E = eng()
        self.data = arr(data).copy()
        if self.data.ndim != 2 or not same_dim(self.data._shape[1], 2):
            raise Unsupported("data of this shape")
        self.f = E.fresh_fun("density", [R, R], R)
        E.ghost.setdefault("densities", []).append(self)
        return self

    def evaluate(self, grid_points=None):
        """a grid covering the data, first coordinate slowest, and the density at its rows"""
        E = eng()
        if self.data is None:
            raise ValueError("Must call fit before evaluating.")
        if grid_points is None:
            nx, ny = E.fresh("gridx", I), E.fresh("gridy", I)
        elif is_num(grid_points):
            nx = ny = zi(grid_points)
        elif isinstance(grid_points, (tuple, list, VList)):
            nx, ny = (zi(x) for x in grid_points)
        else:
            raise Unsupported("a ready-made grid")
        E.assume(z3.And(nx > 1, ny > 1), "KDEpy grid has at least two positions per axis")
        g = [E.fresh_fun(q, [I], R) for q in ("gridxs", "gridys")]
        i, j = z3.Ints("gi gj")
        for h, m, c in zip(g, (nx, ny), (0, 1)):
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), h(i) < h(j)), patterns=[z3.MultiPattern(h(i), h(j))]), "KDEpy grid positions increase and span the data")
            x = lambda k, c=c: to_real(num(self.data.el(k, z3.IntVal(c)).z))
            E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(self.data._shape[0])), z3.And(h(0) <= x(i), x(i) <= h(m - 1)))))
        d = flat_dom((dim(nx), dim(ny)))
        self.grid = (g, nx, ny)
        grid = SArr((d, 2), lambda ix: Sc(z3.If(z3.simplify(ix[1]) == 0, g[0](ix[0][0]), g[1](ix[0][1])) if not z3.is_int_value(z3.simplify(ix[1])) else g[z3.simplify(ix[1]).as_long()](ix[0][z3.simplify(ix[1]).as_long()]), "f"), "f")
        return grid, SArr((d,), lambda ix: Sc(self.f(g[0](ix[0][0]), g[1](ix[0][1])), "f"), "f")


pyplot = Mod("matplotlib.pyplot", subplots=subplots, gca=lambda: subplots()[1])
sm_nonparametric = Mod("statsmodels.nonparametric", KDEMultivariate=KDEMultivariate)
sm_api = Mod("statsmodels.api", nonparametric=sm_nonparametric)
statsmodels = Mod("statsmodels", api=sm_api)
KDEpy = Mod("KDEpy", FFTKDE=FFTKDE)
