"""C27: space-time event files keep coordinates and times aligned."""
import z3
from vc.harness import *
from vc.shims import files_

TRUSTED = ["libpysal.io: a shapefile yields its points and an attribute table its columns, in file order (vc/shims/files_.py)", "datetime.date subtraction gives the days between", "floats are real numbers"]
F = ["pointpats.spacetime.SpaceTimeEvents.__init__"]
I, R = z3.IntSort(), z3.RealSort()
X, Y, OTHER = z3.Function("X", I, R), z3.Function("Y", I, R), z3.Function("OTHER", I, R)


def events(E, n, column, path="events.shp", table="events.dbf", **kw):
    """events of a shapefile beside its table; the named column is column(k); another column, file and table hold other values"""
    px, py = (lambda k: Sc(X(k), "f")), (lambda k: Sc(Y(k), "f"))
    other = lambda k: Sc(OTHER(k), "f")
    E.ghost["files"] = {path: (files_.PointFile, (n, px, py)), table: (files_.Table, (n, {"A": other, "TIME": column, "Z": other}))}
    e = mod("spacetime").SpaceTimeEvents(path, "TIME", **kw)
    ensure("n is the number of points", T(lift(e.n)) == T(n))
    for nm, a, f in (("x", e.x, X), ("y", e.y, Y)):
        dims(nm, a, (n, 1))
        forall(f"{nm} of the points in file order", [(0, n)], lambda k: T(a.el(k, 0)) == f(k))
    dims("space", e.space, (n, 2))
    forall("coordinates of the points in file order", [(0, n)], lambda k: z3.And(T(e.space.el(k, 0)) == X(k), T(e.space.el(k, 1)) == Y(k)))
    dims("t", e.t, (n, 1))
    dims("time", e.time, (n, 2))
    return e


def times(e, n, t):
    forall("times of the same rows", [(0, n)], lambda k: T(e.t.el(k, 0)) == t(k))
    forall("times beside ones", [(0, n)], lambda k: z3.And(T(e.time.el(k, 0)) == t(k), T(e.time.el(k, 1)) == 1))


for _p, _t in (("events.shp", "events.dbf"), ("/data.v2/my.events.shp", "/data.v2/my.events.dbf"), ("EVENTS.SHP", "EVENTS.dbf")):
    for _k in "if":
        for _inf in (False, True):
            @contract("C27", f"numbers[{_p}, {'integer' if _k == 'i' else 'float'}{', infer_timestamp' if _inf else ''}]", F)
            def _(E, p=_p, t=_t, k=_k, inf=_inf):
                n = sint("n", 1)
                f = z3.Function("TIMES", I, I if k == "i" else R)
                e = events(E, n, lambda q: Sc(f(q), k), p, t, infer_timestamp=inf)
                times(e, n, lambda q: z3.ToReal(f(q)) if k == "i" else f(q))

    @contract("C27", f"dates[{_p}]", F)
    def _(E, p=_p, t=_t):
        n = sint("n", 1)
        f = z3.Function("DAY", I, I)
        first, i = z3.Int("first"), z3.Int("i")
        at = z3.Int("at")
        E.assume(z3.And(at >= 0, at < n.z, f(at) == first, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.z), first <= f(i)), patterns=[f(i)])))
        e = events(E, n, lambda q: files_.date(Sc(f(q), "i")), p, t, infer_timestamp=True)
        times(e, n, lambda q: z3.ToReal(f(q) - first))
