from base import *
import pointpats.centrography as cg
import pointpats.distance_statistics as ds
from pointpats import RectangleM, HexagonM, QStatistic, PointPattern
from C06 import support, mk_support
RULE = "same points as array, list, tuples, strided views, GeoSeries and GeoDataFrame (unsorted index, renamed geometry, z-free) x function; results must agree exactly or to rounding"
SHRINK = ["pts"]


def gen(r):
    return {"pts": r.area2(r.n(4, cap=60)), "sup": support(r), "forms": [r.pick("list", "tuples", "fortran", "view"), r.pick("gs", "gs_idx"), r.pick("gdf", "gdf_col")], "fn": r.pick("centre", "ellipse", "hulls", "g", "k", "l", "j", "f", "rect", "hex", "q"), "w": None, "seed": r.seed()}


def run(c, form, w):
    d = make(c["pts"], form)
    p = np.asarray(c["pts"], float)
    fn = c["fn"]
    n = len(p)
    if fn == "centre":
        import shapely
        at = shapely.Point(1, 2) if form[0] == "g" else np.array([1.0, 2.0]) if isinstance(d, np.ndarray) else [1.0, 2.0]
        return [*xy(cg.mean_center(d)), *xy(cg.weighted_mean_center(d, w)), *xy(cg.manhattan_median(d)), float(cg.std_distance(d)), float(cg.dtot(at, d)), float(cg.dtot(np.asarray(xy(cg.euclidean_median(d))), p))]  # the median is found by a numerical search: compare what it minimises
    if fn == "ellipse":
        o = cg.ellipse(d, weights=w)
        if form[0] == "g":
            a, b, th = cg.ellipse(p, weights=w)
            m = (p * np.asarray(w)[:, None]).sum(0) / sum(w)
            e = np.asarray(o.exterior.coords)
            return [*((e.min(0) + e.max(0)) / 2 - m), math.sqrt(o.area) if b > 1e-6 * a else 0]
        return [0, 0, math.sqrt(o[0] * o[1] * 3.1365484905459393) if o[1] > 1e-6 * o[0] else 0]
    if fn == "hulls":
        o = cg.minimum_bounding_rectangle(d)
        h = cg.hull(d)
        (h, o) = (np.asarray(h.exterior.coords)[:-1], o.bounds) if form[0] == "g" else (h, o)
        # near-collinear vertices may be kept by one hull code and dropped by the other: compare the region
        h = np.asarray(h, float)
        g = h - p.mean(0)
        area = abs((g[:, 0] * np.roll(g[:, 1], -1) - g[:, 1] * np.roll(g[:, 0], -1)).sum()) / 2
        return [*o, *h.min(0), *h.max(0), area]
    if fn in ("g", "k", "l"):
        s, v = getattr(ds, fn)(d, support=mk_support(c["sup"]))
        return [*s, *v]
    if fn in ("f", "j"):
        fd = np.abs(np.sin(np.arange(1, 20) * (c["seed"] % 97 + 1))) * float(np.ptp(p, axis=0).max())
        from C06 import nn
        if fn == "f":
            s, v = ds.f(d, support=mk_support(c["sup"]), distances=fd)
        else:
            s, v = ds.j(d, support=mk_support(c["sup"]), distances=(nn(p, "euclidean"), fd))
        return [*s, *v]
    if fn == "rect":
        t = RectangleM(d, 3, 4).point_location_sta()
    elif fn == "hex":
        t = HexagonM(d, float(np.ptp(p, axis=0).max()) / 3).point_location_sta()
    else:
        q = QStatistic(d, nx=2, ny=3, realizations=2, rng=c["seed"])
        return [q.chi2, q.chi2_pvalue, *q.chi2_contrib]
    return [x for kv in t.items() for x in kv]


def check(c):
    p = np.asarray(c["pts"], float)
    n = len(p)
    if n < 3 or np.linalg.svd(p - p.mean(0))[1][1] < 1e-3 * max(1, abs(p).max()) or (np.ptp(p, axis=0) < 1e-9).any():
        raise Skip
    w = [1.0 + (k * 7 % 5) for k in range(n)]
    if c["fn"] in ("g", "k", "l", "f", "j"):
        from C06 import grid, nn
        sup = grid(c["sup"], float(nn(p, "euclidean").max()))
        if len(sup) < 2 or not (np.diff(sup) > 0).all():
            raise Skip
    with np.errstate(all="ignore"):
        a = np.asarray(run(c, "array", w), float)
        for f in c["forms"]:
            b = np.asarray(run(c, f, w), float)
            sc = 1e-6 * max(1, abs(p).max()) if c["fn"] in ("ellipse", "centre") else 1e-9 * max(1, abs(p).max())
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-3 if c["fn"] == "ellipse" else 1e-4 if c["fn"] == "centre" else 1e-9, atol=sc, equal_nan=True):
                return f"{c['fn']} gives {b[:8]} for the points as {f} and {a[:8]} as array"
            if c["fn"] == "centre" and not np.allclose(a[:8], b[:8], rtol=1e-9, atol=1e-9 * max(1, abs(p).max())):
                return f"centres {b[:8]} for the points as {f}, {a[:8]} as array"
    return None
