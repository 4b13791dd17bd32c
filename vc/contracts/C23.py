"""C23: pattern properties always reflect their points and current window."""
import itertools
import z3
from vc.harness import *
from vc.shims import lib, np_

TRUSTED = ["ConvexHull.vertices are the hull's corners in counterclockwise order (vc/shims/lib.py)", "pandas frames as columns over rows (vc/shims/pd_.py)", "libpysal polygons: vertices, area by the shoelace formula, bounding box (vc/shims/lib.py)", "floats are real numbers"]
PP = "pointpats.pointpattern.PointPattern."
W = "pointpats.window."
P = z3.Function("P", z3.IntSort(), z3.IntSort(), z3.RealSort())
FUN = [PP + p for p in ("__init__", "__len__", "_mbb", "_mbb_area", "_n", "_rot", "_lambda_mbb", "_hull", "_hull_area", "_lambda_hull", "_lambda_window", "set_window", "get_window")]
FUN += [W + "as_window", W + "poly_from_bbox", W + "Window.__init__", "pointpats.util.cached_property", "pointpats.centrography.hull"]


class Spec:
    """what each property must be, from the points and the current window"""

    def __init__(self, E, n, window_area=None, window_box=None):
        self.n, self.N = n, zi(n)
        with E.quiet():
            X = sarray("P", (n, 2))
            self.b = [T(q) for q in (X[:, 0].min(), X[:, 1].min(), X[:, 0].max(), X[:, 1].max())]
        self.area = (self.b[2] - self.b[0]) * (self.b[3] - self.b[1])
        self.set(window_area if window_area is not None else self.area, window_box or self.b)
        self.h = None

    def set(self, area, box):
        self.warea, self.wbox = area, box

    def hull(self, E):
        """the corners of the hull found: points of the pattern"""
        hs = E.ghost.get("hulls", [])
        ensure("the hull is computed", bool(hs))
        h = hs[-1]
        ensure("the hull of the pattern's points", lib.same_rows(h.points, sarray("P", (self.n, 2))))
        self.harea = h.shoelace
        return h


def read(E, pp, spec, k):
    v = pp.vc_len() if k == "len" and hasattr(pp, "vc_len") else (pp.__len__() if k == "len" else pp.get_window() if k == "get_window" else getattr(pp, k))
    if k in ("n", "len"):
        same_number(k, v, z3.ToReal(spec.N))
    elif k == "mbb":
        extremes("mbb", v, spec.n)
    elif k == "mbb_area":
        same_number(k, v, spec.area)
    elif k == "rot":
        w, h = spec.b[2] - spec.b[0], spec.b[3] - spec.b[1]
        same_number(k, v, z3.If(w <= h, w, h) / 4)
    elif k == "lambda_mbb":
        same_number(k, v, z3.ToReal(spec.N) / spec.area)
    elif k == "lambda_window":
        same_number(k, v, z3.ToReal(spec.N) / spec.warea)
    elif k in ("window", "get_window"):
        same_number("area of the current window", v.area, spec.warea)
        b = list(v.bbox)
        for i in range(4):
            same_number(f"extent of the current window {i}", b[i], spec.wbox[i])
    elif k == "hull":
        h = spec.hull(E)
        dims("hull", v, (dim(h.nvert), 2))
        forall("hull corners", [(0, dim(h.nvert))], lambda i: z3.And(T(v.el(i, 0)) == h.vx(i), T(v.el(i, 1)) == h.vy(i)))
    elif k == "hull_area":
        spec.hull(E)
        same_number(k, v, spec.harea)
    elif k == "lambda_hull":
        spec.hull(E)
        same_number(k, v, z3.ToReal(spec.N) / spec.harea)


def extremes(name, v, n):
    dims(name, v, (4,))
    for q, (c, up) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1)]):
        t = T(v.el(q))
        forall(f"{name}: {'greatest' if up else 'least'} {'xy'[c]} is a bound", [(0, n)], lambda i: P(i, z3.IntVal(c)) <= t if up else P(i, z3.IntVal(c)) >= t)
        attained(f"{name}: it is attained", n, lambda i: P(i, z3.IntVal(c)) == t)


def unchanged(E, pp, n, cols=2):
    for nm, d in (("df", pp.df), ("points", pp.points)):
        if nm == "df" and len(pp.df.columns) == 4:
            d = d[list(pp.coord_names)]
        a = d.vc_array()
        dims(nm, a, (n, 2))
        forall(f"reading leaves {nm} as it was", [(0, n), (0, 2)], lambda i, c: z3.And(*[z3.Implies(c == q, T(a.el(i, z3.IntVal(q))) == P(i, z3.IntVal(q))) for q in (0, 1)]))


def new_window(E, name):
    b = [sreal(f"{name}{q}") for q in range(4)]
    E.assume(z3.And(b[0].z < b[2].z, b[1].z < b[3].z), "the new window is a box with positive area (precondition)")
    m = mod("window")
    w = m.as_window(m.poly_from_bbox(VList(b)))
    return w, (b[2].z - b[0].z) * (b[3].z - b[1].z), [q.z for q in b]


def pattern(E, form="array", own=False):
    n = sint("n", 3)
    kw = {}
    if form == "marked":  # the coordinates are the second and third of four named columns
        Q = z3.Function("Q", z3.IntSort(), z3.IntSort(), z3.RealSort())
        pts = SArr((n, 4), lambda ix: Sc(z3.If(ix[1] == 1, P(ix[0], 0), z3.If(ix[1] == 2, P(ix[0], 1), Q(ix[0], ix[1]))), "f"), "f", frozen="P")
        kw = dict(names=VList(["id", "lat", "lon", "m"]), coord_names=VList(["lat", "lon"]))
    elif form in ("four columns", "names", "coordinate names"):
        p = 2 if form == "coordinate names" else 4
        pts = sarray("P", (n, p))
        kw = {"four columns": {}, "names": dict(names=VList(["x", "y", "a", "b"])), "coordinate names": dict(coord_names=VList(["lon", "lat"]))}[form]
    else:
        pts = sarray("P", (n, 2)) if form == "array" else points_list("P", n)[0]
    if own:
        w, area, box = new_window(E, "w")
        pp = mod("pointpattern").PointPattern(pts, window=w, **kw)
        spec = Spec(E, n, area, box)
        ensure("the window given is the window", pp.window is w)
    else:
        pp = mod("pointpattern").PointPattern(pts, **kw)
        spec = Spec(E, n)
    E.assume(spec.area > 0, "the points span a box of positive area (precondition)")
    return pp, spec, n


PROPS = ["n", "len", "mbb", "mbb_area", "rot", "lambda_mbb", "hull", "hull_area", "lambda_hull", "lambda_window", "window", "get_window"]


for _form, _own in (("array", False), ("list", False), ("array", True), ("marked", False)):
    for _k in PROPS:
        @contract("C23", f"{_k}[{_form}{', window given' if _own else ''}]", FUN)
        def _(E, form=_form, own=_own, k=_k):
            pp, spec, n = pattern(E, form, own)
            read(E, pp, spec, k)
            read(E, pp, spec, k)
            unchanged(E, pp, n)


# ------------------------------------------------------------------ histories
for _a in PROPS:
    @contract("C23", f"{_a} first, then every property between window replacements", FUN)
    def _(E, a=_a):
        pp, spec, n = pattern(E)
        read(E, pp, spec, a)
        for i, b in enumerate(p for p in PROPS if p != a):
            w, area, box = new_window(E, f"w{i}_")
            if i % 2:
                pp.window = w
            else:
                pp.set_window(w)
            spec.set(area, box)
            ensure("the window set is the window", pp.window is w)
            read(E, pp, spec, b)
            read(E, pp, spec, "lambda_window")
        read(E, pp, spec, a)
        unchanged(E, pp, n)


class AnyCache(dict):
    """the values kept after an arbitrary history: any property may or may not be among them; those that are, are right (the invariant)"""

    def __init__(self, E, spec, pp):
        super().__init__()
        self.E, self.spec, self.pp, self.asked, self.stored = E, spec, pp, {}, []

    def right(self, k):
        s, E = self.spec, self.E
        f = lambda z: Sc(z, "f")
        N = z3.ToReal(s.N)
        if k == "mbb":
            return arr(tuple(f(q) for q in s.b))
        if k == "n":
            return Sc(s.N, "i")
        if k == "mbb_area":
            return f(s.area)
        if k == "rot":
            w, h = s.b[2] - s.b[0], s.b[3] - s.b[1]
            return f(z3.If(w <= h, w, h) / 4)
        if k == "lambda_mbb":
            return f(N / s.area)
        if k in ("hull", "hull_area", "lambda_hull"):
            if not E.ghost.get("hulls"):
                lib.ConvexHull(sarray("P", (s.n, 2)))
            h = E.ghost["hulls"][0]
            if k == "hull":
                return SArr((dim(h.nvert), 2), lambda ix: Sc(z3.If(ix[1] == 0, h.vx(ix[0]), h.vy(ix[0])), "f"), "f")
            return f(h.shoelace) if k == "hull_area" else f(N / h.shoelace)
        raise Unsupported(f"kept value of {k}")

    def __getitem__(self, fun):
        k = fun.__name__.lstrip("_")
        if fun in self.keys():
            return super().__getitem__(fun)
        if k not in self.asked:
            self.asked[k] = self.right(k) if self.E.decide(z3.Bool(f"kept_{k}")) else None
        if self.asked[k] is None:
            raise KeyError(fun)
        return self.asked[k]

    def __setitem__(self, fun, v):
        super().__setitem__(fun, v)


for _k in PROPS:
    @contract("C23", f"{_k} after any history", FUN)
    def _(E, k=_k):
        pp, spec, n = pattern(E)
        if not hasattr(pp, "_cache"):
            pp.mbb
        if type(getattr(pp, "_cache", None)).__name__ not in ("VDict", "dict"):
            raise Unsupported("kept values are not in a dictionary")
        w, area, box = new_window(E, "w")
        pp.set_window(w)  # any window may be the current one
        spec.set(area, box)
        pp._cache = AnyCache(E, spec, pp)
        read(E, pp, spec, k)
        read(E, pp, spec, "window")
        unchanged(E, pp, n)
        # replacing the window keeps what must be kept
        w, area, box = new_window(E, "u")
        pp.window = w
        spec.set(area, box)
        read(E, pp, spec, k)
        read(E, pp, spec, "lambda_window")


for _form in ("four columns", "names", "coordinate names"):
    @contract("C23", f"a pattern with {_form}", FUN)
    def _(E, form=_form):
        pp, spec, n = pattern(E, form)
        for k in PROPS:
            read(E, pp, spec, k)
        unchanged(E, pp, n)
        names = {"four columns": ["x", "y", "mark_0", "mark_1"], "names": ["x", "y", "a", "b"], "coordinate names": ["lon", "lat"]}[form]
        ensure("the columns are named", list(pp.df.columns) == names and list(pp.coord_names) == names[:2] and list(pp.points.columns) == names[:2])


@contract("C23", "as_window keeps parts and holes", [W + "as_window", W + "Window.__init__"])
def _(E):
    ring = lambda nm, k: VList([(sreal(f"{nm}x{q}"), sreal(f"{nm}y{q}")) for q in range(k)])
    for nm, parts, holes in (("hole", VList([ring("a", 4)]), VList([ring("h", 3)])), ("two parts and two holes", VList([ring("a", 4), ring("b", 4)]), VList([ring("h", 3), ring("g", 3)])), ("no hole", VList([ring("a", 5)]), None)):
        poly = lib.CgPolygon(parts, holes) if holes is not None else lib.CgPolygon(parts)
        w = mod("window").as_window(poly)
        same_number(f"{nm}: area", w.area, poly.area.z)
        ensure(f"{nm}: parts", same_data(w.parts, poly.parts))
        ensure(f"{nm}: holes", same_data(w.holes, poly.holes))
