"""C26: density surfaces are aligned with their grid."""
import z3
from vc.harness import *
from vc.shims import lib, plot_

TRUSTED = ["statsmodels KDEMultivariate.pdf and KDEpy FFTKDE.evaluate: the value belonging to a position is the density there (vc/shims/plot_.py); KDEpy's grid lists the first coordinate slowest, increases and spans the data", "matplotlib contour(X, Y, Z): Z[i, j] is drawn at (X[j], Y[i])",
           "numpy linspace, meshgrid, unique, reshape (vc/shims/np_.py)", "floats are real numbers"]
K = ["pointpats.kde.plot_density"]
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())

FORMS = {"array": lambda X: X, "GeoSeries": lambda X: lib.GeoSeries(X), "GeoDataFrame": lambda X: lib.GeoDataFrame(X)}


def draw(E, form="array", fill=False, own_axis=True, **kw):
    """run plot_density; (density object, grid x(j), grid y(i), z(i, j), shape)"""
    n = sint("n", 3)
    X = sarray("P", (n, 2))
    bw = sreal("bandwidth")
    E.assume(bw.z > 0)
    lev = sint("levels", 1)
    ax = plot_.Axes() if own_axis else None
    r = mod("kde").plot_density(FORMS[form](X), bw, levels=lev, fill=fill, ax=ax, return_contourset=True, cmap="c", **kw)
    a, cs = pair("axis and contours", r)
    if not own_axis:
        ax = E.ghost.get("axes", [None])[-1]
    ensure("drawn on the axis", a is ax and ax is not None)
    if ax is None or len(ax.drawn) != 1:
        fail("one contour drawn", "none or several")
    ensure("the contours are returned", cs is ax.drawn[0])
    ensure("filled exactly on request", cs.kind == ("contourf" if fill else "contour"))
    ensure("levels and style reach the contours", set(cs.kw) == {"levels", "cmap"} and cs.kw["levels"] is lev and cs.kw["cmap"] == "c")
    ds = E.ghost.get("densities", [])
    if len(ds) != 1 or len(cs.args) != 3:
        fail("one density over a grid", f"{len(ds)} densities, {len(cs.args)} arguments")
    d = ds[0]
    dims("the density's observations", d.data, (n, 2))
    forall("the density is that of the points", [(0, n), (0, 2)], lambda i, c: T(d.data.el(i, c)) == P(i, c))
    for b in d.bw:
        same_number("the bandwidth is the one given", b, bw.z)
    return n, d, [arr(q) for q in cs.args]


def aligned(d, gx, gy, z):
    """z[i, j] is the density at (x of column j, y of row i); returns x(j), y(i)"""
    if z.ndim != 2:
        fail("density surface", f"rank {z.ndim}")
    ny, nx = z._shape
    if gx.ndim == 2:
        dims("grid x", gx, (ny, nx))
        dims("grid y", gy, (ny, nx))
        forall("x runs along the columns only", [(0, ny), (0, nx)], lambda i, j: T(gx.el(i, j)) == T(gx.el(0, j)))
        forall("y runs along the rows only", [(0, ny), (0, nx)], lambda i, j: T(gy.el(i, j)) == T(gy.el(i, 0)))
        x, y = (lambda j: T(gx.el(0, j))), (lambda i: T(gy.el(i, 0)))
    else:
        dims("grid x", gx, (nx,))
        dims("grid y", gy, (ny,))
        x, y = (lambda j: T(gx.el(j))), (lambda i: T(gy.el(i)))
    forall("z[i, j] is the density at (x[j], y[i])", [(0, ny), (0, nx)], lambda i, j: T(z.el(i, j)) == d.f(x(j), y(i)))
    return x, y, nx, ny


def spans(E, n, x, y, nx, ny, wx, wy, margin):
    ensure("requested resolution", z3.And(zi(nx) == wx, zi(ny) == wy))
    for g, m, c, nm in ((x, nx, 0, "x"), (y, ny, 1, "y")):
        first, last = g(z3.IntVal(0)), g(zi(m) - 1)
        w = z3.Real("w" + nm)
        lo, hi = z3.Reals(f"lo{nm} hi{nm}")
        # the extent of the data, by its definition
        a, b = z3.Ints(f"a{nm} b{nm}")
        E.assume(z3.And(a >= 0, a < zi(n), b >= 0, b < zi(n), lo == P(a, c), hi == P(b, c)))
        i = z3.Int("i")
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(lo <= P(i, c), P(i, c) <= hi)), patterns=[P(i, c)]))
        ensure(f"{nm} starts at the least {nm} less the margin", first == lo - margin * (hi - lo))
        ensure(f"{nm} ends at the greatest {nm} plus the margin", last == hi + margin * (hi - lo))
        forall(f"{nm} is evenly spaced", [(0, m)], lambda k: g(k) == first + z3.ToReal(k) * (last - first) / (z3.ToReal(zi(m)) - 1))


for _f in FORMS:
    for _r in ("number", "pair", "none"):
        for _fill in (False, True):
            @contract("C26", f"statsmodels[{_f}, resolution {_r}{', filled' if _fill else ''}]", K)
            def _(E, form=_f, r=_r, fill=_fill):
                rx, ry = sint("rx", 2), sint("ry", 2)
                kw = {"number": dict(resolution=rx), "pair": dict(resolution=(rx, ry)), "none": dict(resolution=None)}[r]
                wx, wy = {"number": (rx.z, rx.z), "pair": (rx.z, ry.z), "none": (z3.IntVal(100),) * 2}[r]
                m = sreal("margin")
                E.assume(m.z >= 0)
                n, d, (gx, gy, z) = draw(E, form, fill, margin=m, **kw)
                x, y, nx, ny = aligned(d, gx, gy, z)
                ensure("both coordinates are continuous", d.var_type == "cc")
                spans(E, n, x, y, nx, ny, wx, wy, m.z)


@contract("C26", "statsmodels[defaults]", K)
def _(E):
    n, d, (gx, gy, z) = draw(E, own_axis=False)
    x, y, nx, ny = aligned(d, gx, gy, z)
    spans(E, n, x, y, nx, ny, z3.IntVal(100), z3.IntVal(100), z3.RealVal("1/10"))


for _f in FORMS:
    for _r in ("number", "pair", "none"):
        for _fill in (False, True):
            @contract("C26", f"KDEpy[{_f}, resolution {_r}{', filled' if _fill else ''}]", K)
            def _(E, form=_f, r=_r, fill=_fill):
                rx, ry = sint("rx", 2), sint("ry", 2)
                kw = {"number": dict(resolution=rx), "pair": dict(resolution=(rx, ry)), "none": dict(resolution=None)}[r]
                n, d, (gx, gy, z) = draw(E, form, fill, kernel="tri", **kw)
                x, y, nx, ny = aligned(d, gx, gy, z)
                ensure("the kernel is the one given", d.kernel == "tri")
                if r != "none":
                    wx, wy = {"number": (rx.z, rx.z), "pair": (rx.z, ry.z)}[r]
                    ensure("requested resolution", z3.And(zi(nx) == wx, zi(ny) == wy))
                for g, m, c, nm in ((x, nx, 0, "x"), (y, ny, 1, "y")):
                    forall(f"{nm} covers the data", [(0, n)], lambda k: z3.And(g(z3.IntVal(0)) <= P(k, c), P(k, c) <= g(zi(m) - 1)))
