"""C22: pattern set operations keep exactly the right points and marks."""
import z3
from vc.harness import *
from vc.shims import lib, np_, pd_
from vc.values import Dom

PP = "pointpats.pointpattern.PointPattern."
TRUSTED = ["pandas frames as columns over rows: selection by truth values, drop_duplicates keeps first occurrences, concat (vc/shims/pd_.py)", "numpy unique (vc/shims/np_.py)", "marks are values that can be compared (numbers or symbols)", "floats are real numbers"]
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
INIT = [PP + "__init__"]


def column(nm, kind):
    f = z3.Function(nm, I, {"f": R, "i": I}[kind])
    return f


LAYOUTS = {
    # name: (names of the columns in order, kinds, coordinate names given, names given)
    "default": (["x", "y", "mark_0", "mark_1"], "ffif", None, False),
    "named": (["east", "north", "kind", "size"], "ffif", None, True),
    "anywhere": (["kind", "east", "size", "north"], "ifif", ["north", "east"], True),
}


class Frame:
    def __init__(self, tag, layout, n):
        self.names, kinds, self.cn, self.given = LAYOUTS[layout]
        self.n = n
        self.f = [column(f"{tag}_{nm}", k) for nm, k in zip(self.names, kinds)]
        self.kinds = kinds
        self.coords = self.cn or self.names[:2]

    def pattern(self, window=None):
        cols = {nm: SArr((self.n,), lambda ix, f=f, k=k: Sc(f(ix[0]), k), k, frozen="points") for nm, f, k in zip(self.names, self.f, self.kinds)}
        df = pd_.DataFrame._of(self.names, cols, self.n)
        kw = {}
        if self.given:
            kw["names"] = VList(list(self.names))
        if self.cn:
            kw["coord_names"] = VList(list(self.cn))
        if window is not None:
            kw["window"] = window
        return mod("pointpattern").PointPattern(df, **kw)


def selection(a):
    """(n, condition, element) of a one-dimensional selection of rows"""
    d = a._shape[0]
    if isinstance(d, Dom):
        if len(d.ranges) != 1:
            raise Unsupported("rows that are not a selection")
        lo, hi = d.ranges[0]()
        return lo, hi, (lambda k: z3.And(*d.conds([k]))), (lambda k: a.el(((k,) if True else k)))
    return z3.IntVal(0), zi(d), (lambda k: z3.And(k >= 0, k < zi(d))), (lambda k: a.el(k))


def rows(name, df, names, n, keep, cols):
    """the frame holds, in order, the rows k < n of cols with keep(k)"""
    if not isinstance(df, pd_.DataFrame):
        fail(name, f"result is {type(df).__name__}")
    ensure(f"{name}: column names", list(df.names) == list(names))
    for nm, f in zip(names, cols):
        a = df.cols[nm]
        lo, hi, cond, el = selection(a)
        forall(f"{name}: exactly these rows", [(z3.If(lo < 0, lo, 0), z3.If(hi > zi(n), hi, zi(n)))], lambda k: cond(k) == z3.And(k >= 0, k < zi(n), keep(k)))
        E = eng()
        k = z3.Int(fresh_name("row"))
        with E.scope([k], [k >= 0, k < zi(n), keep(k)]):
            v = el(k)
            E.prove(f"{E.ghost['where']}: {name}: values of {nm}", num(v.z) == num(f(k)) if v.sp is None else False)


def layout_kept(name, q, F):
    if type(q).__name__ != "PointPattern":
        fail(name, f"result is {type(q).__name__}")
    ensure(f"{name}: coordinate names", list(q.coord_names) == list(F.coords))


def points_of(name, q, F, n, keep, cols):
    rows(f"{name}: points", q.points, F.coords, n, keep, [cols[F.names.index(c)] for c in F.coords])


for _lay in LAYOUTS:
    @contract("C22", f"explode[{_lay}]", INIT + [PP + "explode"])
    def _(E, lay=_lay):
        n = sint("n", 1)
        F = Frame("A", lay, n)
        pp = F.pattern()
        mark = [q for q in F.names if q not in F.coords][0]
        M = F.f[F.names.index(mark)]
        r = pp.explode(VList([mark])[0])
        if not isinstance(r, VList):
            fail("result", "not a list")
        with E.quiet():
            u = np_.unique(SArr((n,), lambda ix: Sc(M(ix[0]), "i"), "i"))
        m = zi(u._shape[0])
        s = r.seq().simple()
        if s is None:
            raise Unsupported("patterns in several parts")
        ensure("one pattern per distinct value", zi(s[0]) == m)
        i = z3.Int(fresh_name("pattern"))
        with E.scope([i], [i >= 0, i < m]):
            q = r[Sc(i, "i")]
            layout_kept("pattern", q, F)
            v = num(u.el(i).z)
            keep = lambda k: M(k) == v
            rows("pattern", q.df, F.names, n, keep, F.f)
            points_of("pattern", q, F, n, keep, F.f)
        # the values are those that occur, each once
        forall("every row is in one pattern", [(0, n)], lambda k: (lambda t: z3.Exists([t], z3.And(t >= 0, t < m, num(u.el(t).z) == M(k))))(z3.Int(fresh_name("t"))))
        forall("different patterns hold different values", [(0, Sc(m, "i")), (0, Sc(m, "i"))], lambda a, b: z3.Implies(a < b, num(u.el(a).z) != num(u.el(b).z)))
        rows("the pattern exploded stays as it was", pp.df, F.names, n, lambda k: z3.BoolVal(True), F.f)

    for _own in (False, True):
        @contract("C22", f"unique[{_lay}{', window given' if _own else ''}]", INIT + [PP + "unique"])
        def _(E, lay=_lay, own=_own):
            n = sint("n", 1)
            F = Frame("A", lay, n)
            w = None
            if own:
                b = [sreal(f"w{q}") for q in range(4)]
                w = mod("window").as_window(mod("window").poly_from_bbox(VList(b)))
            pp = F.pattern(w)
            before = pp.window
            q = pp.unique()
            layout_kept("unique", q, F)
            ensure("the window is kept", q.window is before or same_data(q.window.vertices, before.vertices))
            if own:
                ensure("the window is the one given", q.window is w)

            def first(k):
                j = z3.Int(fresh_name("earlier"))
                return z3.Not(z3.Exists([j], z3.And(j >= 0, j < k, *[f(j) == f(k) for f in F.f])))
            rows("unique", q.df, F.names, n, first, F.f)
            points_of("unique", q, F, n, first, F.f)
            rows("the pattern stays as it was", pp.df, F.names, n, lambda k: z3.BoolVal(True), F.f)

    @contract("C22", f"superimpose[{_lay}]", INIT + [PP + "superimpose"])
    def _(E, lay=_lay):
        n, m = sint("n", 1), sint("m", 1)
        F, G = Frame("A", lay, n), Frame("B", lay, m)
        p1, p2 = F.pattern(), G.pattern()
        q = p1.superimpose(p2)
        layout_kept("superimposed", q, F)
        cols = [(lambda k, f=f, g=g: z3.If(k < zi(n), f(k), g(k - zi(n)))) for f, g in zip(F.f, G.f)]

        def first(k):
            j = z3.Int(fresh_name("earlier"))
            return z3.Not(z3.Exists([j], z3.And(j >= 0, j < k, *[c(j) == c(k) for c in cols])))
        N = Sc(zi(n) + zi(m), "i")
        rows("superimposed", q.df, F.names, N, first, cols)
        points_of("superimposed", q, F, N, first, cols)
        rows("the pattern stays as it was", p1.df, F.names, n, lambda k: z3.BoolVal(True), F.f)
        rows("the other pattern stays as it was", p2.df, F.names, m, lambda k: z3.BoolVal(True), G.f)

    @contract("C22", f"membership[{_lay}]", INIT + [PP + "__contains__"])
    def _(E, lay=_lay):
        n = sint("n", 1)
        F = Frame("A", lay, n)
        pp = F.pattern()
        a, b = sreal("a"), sreal("b")
        X, Y = (F.f[F.names.index(c)] for c in F.coords)
        i = z3.Int("row")
        num_ = lambda z: z3.ToReal(z) if z.sort() == I else z
        same_truth("member exactly if some row has both coordinates", pp.__contains__((a, b)), z3.Exists([i], z3.And(i >= 0, i < zi(n), num_(X(i)) == a.z, num_(Y(i)) == b.z)))


@contract("C22", "superimpose[other columns]", [PP + "superimpose"])
def _(E):
    n, m = sint("n", 1), sint("m", 1)
    for A, Bn in (("named", "default"), ("anywhere", "named")):
        p1, p2 = Frame("A", A, n).pattern(), Frame("B", Bn, m).pattern()
        try:
            p1.superimpose(p2)
            ensure("patterns with other columns are not superimposed", False)
        except TypeError:
            ensure("patterns with other columns are not superimposed", True)
