from base import *
import pointpats.distance_statistics as ds
from C06 import support, mk_support, grid, mmat, nn
RULE = "patterns with ties x support forms (values that equal pair distances included) x distances none/full/condensed x metric x container; K recounted pair by pair"
SHRINK = ["pts"]


def gen(r):
    return {"pts": r.area2(r.n(2, cap=130)), "form": r.form(), "sup": support(r), "dist": r.pick("none", "none", "cond", "full"),
            "metric": r.pick("euclidean", "euclidean", "cityblock", "chebyshev"), "lin": r.flag()}


def check(c):
    p = np.asarray(c["pts"], float)
    n = len(p)
    if n < 2 or (np.ptp(p, axis=0) <= 0).any():
        raise Skip
    metric = c["metric"] if c["dist"] == "none" else "euclidean"
    m = mmat(p, p, metric)
    iu = np.triu_indices(n, 1)
    pd_ = m[iu]
    sup = grid(c["sup"], float(nn(p, metric).max()))
    kw = dict(support=mk_support(c["sup"]))
    if c["dist"] == "full":
        kw["distances"] = m
    elif c["dist"] == "cond":
        kw["distances"] = pd_
    else:
        kw["metric"] = metric
    data = make(c["pts"], c["form"])
    s, kv = ds.k(data, **kw)
    s2, lv = ds.l(data, linearized=c["lin"], **kw)
    s, kv, lv = (np.asarray(x, float) for x in (s, kv, lv))
    if s.shape != sup.shape or abs(s - sup).max() > 1e-9 * max(1, abs(sup).max()) or not np.array_equal(np.asarray(s2, float), s):
        return f"K support {s} is not the grid {sup}"
    if kv.shape != sup.shape or lv.shape != sup.shape:
        return "K or L is not aligned with its support"
    area = float(np.prod(np.ptp(p, axis=0)))
    exact = c["dist"] != "none" or (metric != "euclidean" and float(s.sum() * 8).is_integer())
    for k, d in enumerate(s):
        e = 0 if exact else 1e-9 * max(1.0, d)
        lo, hi = (pd_ < d - e).sum(), (pd_ < d + e).sum() if e else (pd_ < d).sum()
        if metric == "euclidean" and c["dist"] == "none" and float(d).is_integer() and all(float(x).is_integer() for q in c["pts"] for x in q) and abs(p).max() < 1e6:
            lo = hi = sum(1 for i, j in zip(*iu) if ((p[i] - p[j]) ** 2).sum() < d * d) if n < 60 else lo
            if n >= 60:
                hi = (pd_ < d).sum(); lo = hi
        a, b = (2 * x * area / n / n for x in (lo, hi))
        if not a * (1 - 1e-9) - 1e-12 <= kv[k] <= b * (1 + 1e-9) + 1e-12:
            return f"K({d}) = {kv[k]}, {hi} pairs closer than that give {b}"
    want = np.sqrt(kv / np.pi) - (s if c["lin"] else 0)
    if not close(lv, want):
        return f"L = {lv}, sqrt(K/pi) {'- d ' if c['lin'] else ''}= {want}"
    return None
