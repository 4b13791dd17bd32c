"""C13: the quadrat statistic is the chi-square of its counts with a valid p-value."""
import contextlib
import z3
from vc.core import I, R, Unsupported, fresh_name
from vc.harness import *
from vc.shims import lib, np_
from vc.values import arr, canon, dim, lift, num, plain_dom, same_dim, ufun, zi, Seq, Part, SymDict, VDict

Q = "pointpats.quadrat_statistics."
FUN = [Q + "QStatistic.__init__", Q + "_as_points_array", Q + "_compute_mbb", Q + "_ensure_window", Q + "_coerce_rng"]
TRUSTED = ["RectangleM and HexagonM count every point in one cell, empty cells included (contracts verified in C11, checked in C12)", "random.poisson returns the requested number of patterns (C01)", "scipy.stats.chisquare and chi2.sf (vc/shims/lib.py)", "geometries have a fixed area",
           "floats are real numbers"]
P = z3.Function("P", I, I, R)


class Grid:
    """contract of the grid classes: a table cell id -> count over all cells; the counts add up to the number of points"""
    setting = None

    def count_table(self):
        return self.point_location_sta()

    def point_location_sta(self):
        st, E = self.st, self.st.E
        ids, cnt, m = self.ids, self.cnt, self.num
        mz = zi(m)
        inv = self.inv
        return VDict(sym=SymDict([(plain_dom(mz), lambda q: ids(q))], lambda c: z3.And(inv(c) >= 0, inv(c) < mz, ids(inv(c)) == c), lambda c: Sc(cnt(c), "i"), True))


class Setting:
    def __init__(self, E, shape, realizations, window, **kw):
        self.E, self.shape, self.kw = E, shape, kw
        self.n = sint("n", 1)
        self.Pa = sarray("P", (self.n, 2))
        self.R = realizations
        self.window = lib.Polygon("window") if window else None
        if window:
            E.assume(self.window.area.z > 0)
        col = lambda c: SArr((self.n,), lambda ix: Sc(P(ix[0], z3.IntVal(c)), "f"), "f")
        self.lo, self.hi = [[T(which(col(c))) for c in (0, 1)] for which in (np_.amin, np_.amax)]
        E.assume(z3.And(self.hi[0] > self.lo[0], self.hi[1] > self.lo[1]), "the pattern has a positive width and height (precondition)")
        self.U = z3.Function("U", I, I, I, R)
        self.rng = None
        self.obs = None
        self.drawn = 0
        # counts of the observed grid and of the grid of every realization
        self.TO, self.TS = z3.Function("CO", I, I), z3.Function("CS", I, I, I)  # by cell id
        self.IDO, self.IDS = z3.Function("IDO", I, I), z3.Function("IDS", I, I, I)
        self.INVO, self.INVS = z3.Function("INVO", I, I), z3.Function("INVS", I, I, I)
        self.mo = z3.Int("cells")
        self.ms = z3.Function("simcells", I, I)
        self.CO, self.CS = (lambda q: self.TO(self.IDO(q))), (lambda k, q: self.TS(k, self.IDS(k, q)))  # by position
        i, k = z3.Int("ci"), z3.Int("ck")
        E.assume(self.mo >= 1)
        E.assume(z3.ForAll([k], self.ms(k) >= 1, patterns=[self.ms(k)]))
        E.assume(z3.ForAll([i], self.TO(i) >= 0, patterns=[self.TO(i)]))
        E.assume(z3.ForAll([i], self.INVO(self.IDO(i)) == i, patterns=[self.IDO(i)]))
        E.assume(z3.ForAll([k, i], self.TS(k, i) >= 0, patterns=[self.TS(k, i)]))
        E.assume(z3.ForAll([k, i], self.INVS(k, self.IDS(k, i)) == i, patterns=[self.IDS(k, i)]))
        E.assume(Sum(self.mo, lambda q: z3.ToReal(self.CO(q))) == z3.ToReal(zi(self.n)), "the counts add up to the number of points (C11, C12)")

    def grid(self, kind):
        st = self

        class G(Grid):
            def __init__(self, pp, *a, **k):
                E = st.E
                self.st = st
                names = ["count_column", "count_row", "rectangle_width", "rectangle_height", "window"] if kind == "rectangle" else ["lh", "window"]
                opt = dict(zip(names, a))
                opt.update(k)
                if set(opt) - set(names):
                    raise Unsupported("grid options")
                pts = mod("quadrat_statistics")._as_points_array(pp)
                k_ = st.which(pts)
                ensure("the grid of the shape asked for", kind == st.shape)
                self.points = pts
                self.mbb = mod("quadrat_statistics")._compute_mbb(pts)
                self.window = opt.get("window")
                want = st.kw
                if k_ is None:
                    if kind == "rectangle":
                        for q, dflt in (("count_column", want.get("nx", 3)), ("count_row", want.get("ny", 3)), ("rectangle_width", want.get("rectangle_width", 0)), ("rectangle_height", want.get("rectangle_height", 0))):
                            ensure(f"observed grid: {q}", same_data(opt.get(q, {"count_column": 3, "count_row": 3}.get(q, 0)), dflt))
                        self.count_column, self.count_row = Sc(z3.Int("cols"), "i"), Sc(z3.Int("rows"), "i")
                        E.assume(z3.And(self.count_column.z >= 1, self.count_row.z >= 1, st.mo == self.count_column.z * self.count_row.z))
                        self.rectangle_width, self.rectangle_height = sreal("cellw"), sreal("cellh")
                    else:
                        ensure("observed grid: side length", same_data(opt.get("lh"), want.get("lh", 10)))
                        self.h_length = np_.float64(want.get("lh", 10))
                    self.num = Sc(st.mo, "i")
                    self.ids, self.cnt, self.inv = st.IDO, st.TO, st.INVO
                    st.obs = self
                else:
                    if st.obs is None:
                        raise Unsupported("realizations before the pattern")
                    if kind == "rectangle":
                        ensure("realizations: as many columns", same_data(opt.get("count_column", 3), st.obs.count_column))
                        ensure("realizations: as many rows", same_data(opt.get("count_row", 3), st.obs.count_row))
                        for q in ("rectangle_width", "rectangle_height"):
                            v = opt.get(q, 0)
                            ensure(f"realizations: {q} follows from the counts", isinstance(v, (int, float)) and v == 0)
                        self.count_column, self.count_row = st.obs.count_column, st.obs.count_row
                        E.assume(st.ms(k_) == st.mo)
                    else:
                        ensure("realizations: the same side length", same_data(opt.get("lh"), st.obs.h_length))
                        self.h_length = st.obs.h_length
                    self.num = Sc(st.ms(k_), "i")
                    with E.quiet():
                        E.assume(Sum(st.ms(k_), lambda q: z3.ToReal(st.CS(k_, q))) == z3.ToReal(zi(st.n)))
                    self.ids, self.cnt, self.inv = (lambda q: st.IDS(k_, q)), (lambda c: st.TS(k_, c)), (lambda c: st.INVS(k_, c))
                    st.drawn += 1

        return G

    def which(self, pts):
        """None: the observed pattern; k: realization k"""
        E = self.E
        if pts.ndim != 2 or not same_dim(pts._shape[1], 2):
            raise Unsupported("points of this shape")
        a = z3.Int(fresh_name("a"))
        ks = []
        with E.quiet():
            for c in (0, 1):
                z = z3.simplify(num(pts.el(a, z3.IntVal(c)).z))
                if z.decl().name() == "P":
                    ks.append((None, z.arg(0), z.arg(1)))
                elif z.decl().name() == "U":
                    ks.append((z.arg(0), z.arg(1), z.arg(2)))
                else:
                    raise Unsupported("points of unknown origin")
        ensure("a grid holds all points of one pattern", z3.And(zi(pts._shape[0]) == zi(self.n), *[z3.And(q[1] == a, q[2] == c) for c, q in enumerate(ks)]))
        if (ks[0][0] is None) != (ks[1][0] is None) or ks[0][0] is not None and not ks[0][0].eq(ks[1][0]):
            fail("a grid holds all points of one pattern", "coordinates of several patterns")
        return ks[0][0]

    def poisson(self, hull, intensity=None, size=None, rng=None):
        E = self.E
        if self.window is None:
            ensure("realizations in the bounding box", isinstance(hull, lib.Box) and z3.And(*[T(hull.bounds[q]) == (self.lo + self.hi)[q] for q in range(4)]))
        else:
            ensure("realizations in the window", hull is self.window)
        if isinstance(size, tuple):
            ensure("sizes", intensity is None and len(size) == 2)
            n, k = size
        else:
            n, k = None, size
            ensure("as many points as observed", T(lift(intensity)) * T(lift(hull.area)) == z3.ToReal(zi(self.n)))
        if n is not None:
            ensure("as many points as observed", zi(n) == zi(self.n))
        ensure("as many realizations as asked for", zi(k) == zi(self.R))
        self.source = rng
        self.calls = getattr(self, "calls", 0) + 1
        if E.decide(zi(k) == 1):
            return SArr((self.n, 2), lambda ix: Sc(self.U(z3.IntVal(0), *ix), "f"), "f")
        return SArr((dim(zi(k)), self.n, 2), lambda ix: Sc(self.U(*ix), "f"), "f")

    @contextlib.contextmanager
    def contracts(self):
        with by_contract(quadrat_statistics__RectangleM=self.grid("rectangle"), quadrat_statistics__HexagonM=self.grid("hexagon"), random__poisson=self.poisson):
            yield


def chi2(m, c):
    mean = Sum(m, lambda q: z3.ToReal(c(q))) / z3.ToReal(zi(m))
    return Sum(m, lambda q: (z3.ToReal(c(q)) - mean) * (z3.ToReal(c(q)) - mean) / mean)


def check(E, kind, shape, R_, window, rng=None, **kw):
    st = Setting(E, shape, R_, window, **kw)
    data = {"array": lambda: st.Pa, "list": lambda: points_list("P", st.n)[0], "GeoSeries": lambda: lib.GeoSeries(st.Pa), "GeoDataFrame": lambda: lib.GeoDataFrame(st.Pa), "pattern": lambda: mod("pointpattern").PointPattern(st.Pa)}[kind]()
    with st.contracts():
        opt = dict(kw)
        if shape != "rectangle" or kw.get("say"):
            opt["shape"] = shape
        if window:
            opt["window"] = st.window
        if R_ is not None:
            opt["realizations"] = R_
        if rng is not None:
            opt["rng"] = rng
        q = mod("quadrat_statistics").QStatistic(data, **opt)
    m = Sc(st.mo, "i")
    stat = chi2(m, st.CO)
    same_number("chi-square of the counts", q.chi2, stat)
    same_number("degrees of freedom", q.df, z3.ToReal(st.mo) - 1)
    same_number("its tail probability", q.chi2_pvalue, ufun("chi2_sf", 2)(canon(T(q.chi2)), canon(z3.ToReal(st.mo) - 1)))
    mean = Sum(m, lambda k: z3.ToReal(st.CO(k))) / z3.ToReal(st.mo)
    vector("contribution of every cell", q.chi2_contrib, m, lambda k: (z3.ToReal(st.CO(k)) - mean) * (z3.ToReal(st.CO(k)) - mean) / mean)
    ids = as_seq(q.cell_ids).simple()
    if ids is None:
        raise Unsupported("cell ids in parts")
    ensure("one id for every cell", ids[0] == st.mo)
    forall("ids in the order of the contributions", [(0, m)], lambda k: zi(ids[1](k)) == st.IDO(k))
    if R_ is None or isinstance(R_, int):
        ensure("no realizations", not hasattr(q, "chi2_r_pvalue") and st.drawn == 0)
        return st, q
    ensure("realizations drawn once", getattr(st, "calls", 0) == 1)
    sim = lambda k: chi2(Sc(st.ms(k), "i"), lambda c: st.CS(k, c))
    dims("simulated statistics", q.chi2_realizations, (R_,))
    forall("simulated statistic of every realization", [(0, R_)], lambda k: z3.Implies(z3.BoolVal(True), T(q.chi2_realizations.el(k)) == sim(k)))
    same_number("simulation p-value", q.chi2_r_pvalue, (1 + Sum(R_, lambda k: T(q.chi2_realizations.el(k)) >= T(q.chi2))) / (z3.ToReal(zi(R_)) + 1))
    return st, q


for _kind in ("array", "list", "GeoSeries", "GeoDataFrame", "pattern"):
    @contract("C13", f"rectangles[{_kind}]", FUN)
    def _(E, kind=_kind):
        check(E, kind, "rectangle", None, False)

SHAPES = [("rectangle", "3 by 3", lambda: {}), ("rectangle", "columns and rows", lambda: dict(nx=sint("nx", 1), ny=sint("ny", 1))), ("rectangle", "cell size", lambda: dict(rectangle_width=sreal("w"), rectangle_height=sreal("h"))),
          ("hexagon", "default side", lambda: {}), ("hexagon", "side", lambda: dict(lh=sreal("lh")))]
for _shape, _nm, _mk in SHAPES:
    for _w in (False, True):
        @contract("C13", f"{_shape}[{_nm}{', window' if _w else ''}]", FUN)
        def _(E, shape=_shape, mk=_mk, w=_w):
            check(E, "array", shape, 0, w, **mk())

        @contract("C13", f"{_shape} with realizations[{_nm}{', window' if _w else ''}]", FUN)
        def _(E, shape=_shape, mk=_mk, w=_w):
            check(E, "array", shape, sint("R", 1), w, **mk())
