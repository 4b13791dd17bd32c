"""C11: rectangular quadrats partition the pattern."""
import z3
from vc.harness import *
from vc.shims import lib, np_, pd_
from vc import sums
from vc.values import floor_of, ceil

Q = "pointpats.quadrat_statistics."
M = Q + "RectangleM."
FUN = [M + "__init__", M + "point_location_sta", Q + "_as_points_array", Q + "_compute_mbb", Q + "_ensure_window"]
TRUSTED = ["numpy min/max and Python's floor division, int and ceil as specified in vc/values.py", "geopandas coordinates", "floats are real numbers"]
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())


def data(kind, n):
    X = sarray("P", (n, 2))
    if kind == "array":
        return X
    if kind == "list":
        return points_list("P", n)[0]
    if kind == "geoseries":
        return lib.GeoSeries(X)
    if kind == "geodataframe":
        return lib.GeoDataFrame(X)
    if kind == "pattern":
        return mod("pointpattern").PointPattern(X)


def extent(E, n):
    """smallest and largest coordinates; the pattern has a positive width and height (precondition)"""
    col = lambda c: SArr((n,), lambda ix: Sc(P(ix[0], z3.IntVal(c)), "f"), "f")
    lo, hi = [[T(which(col(c))) for c in (0, 1)] for which in (np_.amin, np_.amax)]
    E.assume(z3.And(hi[0] > lo[0], hi[1] > lo[1]), "the pattern has a positive width and height (precondition)")
    return lo, hi


def cells(E, m, n, lo, hi, cols, rows, w):
    """the cell of a point: the floors of its offsets over the cell size, the top and right border included"""
    axis = []
    for c, k, size in ((0, cols, w[0]), (1, rows, w[1])):
        def ix(p, c=c, k=k, size=size):
            f = floor_of((P(p, z3.IntVal(c)) - lo[c]) / size)
            return z3.If(f == zi(k), f - 1, f)
        axis.append(ix)
    return axis


def grid(name, E, m, n, lo, hi, cols, rows, w, again=False):
    """all clauses of the property for a grid object of cols x rows cells of size w"""
    same_number("columns", m.count_column, z3.ToReal(zi(cols)))
    same_number("rows", m.count_row, z3.ToReal(zi(rows)))
    same_number("number of cells", m.num, z3.ToReal(zi(rows) * zi(cols)))
    for c, f in zip((0, 1), cells(E, None, n, lo, hi, cols, rows, w)):
        lemma_forall(f"{name}: a point's cell index is in the grid ({'xy'[c]})", [(0, n)], lambda p: z3.And(f(p) >= 0, f(p) < zi((cols, rows)[c])))
    t = m.point_location_sta()
    counts(name, E, t, n, lo, hi, cols, rows, w)
    if again:
        t2 = m.point_location_sta()
        counts("counted again", E, t2, n, lo, hi, cols, rows, w)


def key_of(cx, cy, cols):
    return lambda p: cx(p) + cy(p) * zi(cols)


def counts(name, E, t, n, lo, hi, cols, rows, w):
    if not isinstance(t, VDict):
        fail(name, f"result is {type(t).__name__}")
    cx, cy = cells(E, None, n, lo, hi, cols, rows, w)
    num_ = z3.simplify(zi(rows) * zi(cols))
    ks = as_seq(t.keys()).simple()
    if ks is None:
        raise Unsupported("cell ids in parts")
    ensure(f"{name}: one count for every cell", ks[0] == num_)
    each(f"{name}: cell ids row by row", 0, Sc(num_, "i"), lambda q: zi(ks[1](q)) == q)
    # the closed rectangle of the cell contains the point
    inside = lambda p, c, f: z3.And(f(p) >= 0, f(p) < zi((cols, rows)[c]), lo[c] + z3.ToReal(f(p)) * w[c] <= P(p, z3.IntVal(c)), P(p, z3.IntVal(c)) <= lo[c] + (z3.ToReal(f(p)) + 1) * w[c])
    for c, f in ((0, cx), (1, cy)):
        forall(f"{name}: the cell's closed rectangle contains the point ({'xy'[c]})", [(0, n)], lambda p: inside(p, c, f))
    key = key_of(cx, cy, cols)
    vs = as_seq(t.values()).simple()
    if True:
        forall(f"{name}: count of a cell", [(0, Sc(num_, "i"))], lambda q: T(vs[1](q)) == Sum(n, lambda p: key(p) == q))
    # sum_q sum_p [key(p) = q] = sum_p sum_q [key(p) = q] (finite sums), and every point is in exactly one cell
    forall(f"{name}: the counts add up to the number of points (each point is counted in one cell)", [(0, n)],
           lambda p: z3.And(key(p) >= 0, key(p) < num_))


Z = z3.Int("Z")
for _kind in ("array", "list", "geoseries", "geodataframe", "pattern"):
    @contract("C11", f"default grid[{_kind}]", FUN)
    def _(E, kind=_kind):
        n = sint("n", 2)
        lo, hi = extent(E, n)
        m = mod("quadrat_statistics").RectangleM(data(kind, n))
        w = [(hi[0] - lo[0]) / 3, (hi[1] - lo[1]) / 3]
        grid("table", E, m, n, lo, hi, 3, 3, w, again=kind == "array")


@contract("C11", "grid of given numbers of columns and rows", FUN)
def _(E):
    n, c, r = sint("n", 2), sint("c", 1), sint("r", 1)
    lo, hi = extent(E, n)
    m = mod("quadrat_statistics").RectangleM(sarray("P", (n, 2)), count_column=c, count_row=r)
    w = [(hi[0] - lo[0]) / z3.ToReal(c.z), (hi[1] - lo[1]) / z3.ToReal(r.z)]
    grid("table", E, m, n, lo, hi, c, r, w)


@contract("C11", "grid of given cell size", FUN)
def _(E):
    n, w, h = sint("n", 2), sreal("w"), sreal("h")
    E.assume(z3.And(w.z > 0, h.z > 0))
    lo, hi = extent(E, n)
    m = mod("quadrat_statistics").RectangleM(sarray("P", (n, 2)), rectangle_width=w, rectangle_height=h)
    c, r = (ceil(Sc((hi[q] - lo[q]) / (w.z, h.z)[q], "f")) for q in (0, 1))
    grid("table", E, m, n, lo, hi, c, r, [w.z, h.z])
