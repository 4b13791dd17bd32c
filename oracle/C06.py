from base import *
import pointpats.distance_statistics as ds
RULE = "patterns with ties and coincident events x support form (None/int/tuples/array/list) x distances (none, vector, full or n-by-p matrix) x metric x container; G recomputed from the n-by-n distances, F from the recorded reference points"
SHRINK = ["pts"]


def gen(r):
    n = r.n(2, cap=130)
    return {"pts": r.area2(n), "form": r.form(), "sup": support(r), "dist": r.pick("none", "none", "vec", "full"),
            "metric": r.pick("euclidean", "euclidean", "cityblock", "chebyshev"), "fn": r.pick("g", "g", "f"), "p": r.i(1, 30), "seed": r.seed(), "hull": r.pick(None, None, "convex")}


def support(r):
    u = r.i(0, 6)
    if u == 0:
        return ["none"]
    if u == 1:
        return ["int", r.i(2, 12)]
    if u == 2:
        return ["tuple", [float(r.pick(.5, 1, 2, 5, 10))]]
    if u == 3:
        return ["tuple", [float(r.pick(0, 0, .5)), float(r.pick(1, 3, 9))]]
    if u == 4:
        return ["tuple", [float(r.pick(0, 0, 1)), float(r.pick(2, 4, 20)), r.i(2, 15)]]
    v = sorted({float(x) for x in (r.r.integers(0, 12, r.i(2, 8)) / r.pick(1, 2, 10))})
    if len(v) < 2:
        v = [0.0, 1.0, 3.0]
    return [r.pick("array", "list", "readonly"), v]


def mk_support(s, full=None):
    if s[0] == "none":
        return None
    if s[0] == "int":
        return s[1]
    if s[0] == "tuple":
        return tuple(s[1])
    a = np.asarray(s[1], float)
    if s[0] == "list":
        return list(s[1])
    if s[0] == "readonly":
        a.flags.writeable = False
    return a


def grid(s, maxd):
    """the grid a support argument describes"""
    if s[0] in ("none", "int"):
        m = 20 if s[0] == "none" else s[1]
        a, b = 0.0, maxd
    elif s[0] == "tuple":
        t = s[1]
        a, b, m = (0.0, t[0], 20) if len(t) == 1 else (t[0], t[1], 20) if len(t) == 2 else (t[0], t[1], t[2])
    else:
        return np.asarray(s[1], float)
    return np.array([a + (b - a) * k / (m - 1) for k in range(m)]) if m > 1 else np.array([a])


def mmat(p, q, metric):
    d = np.asarray(p, float)[:, None, :] - np.asarray(q, float)[None, :, :]
    if metric == "cityblock":
        return abs(d).sum(-1)
    if metric == "chebyshev":
        return abs(d).max(-1)
    return np.sqrt((d ** 2).sum(-1))


def nn(p, metric):
    m = mmat(p, p, metric)
    np.fill_diagonal(m, np.inf)
    return m.min(1)


def ecdf_bounds(d, sup):
    """the possible shares when distances within rounding of a support value may fall on either side"""
    eps = 1e-9 * max(1.0, float(np.max(d))) if len(d) else 0
    lo, hi = [], []
    for s in sup:
        # np.histogram: half-open intervals, the last one closed
        last = s == sup[-1]
        lo.append(((d >= sup[0] + eps) & (d < s - eps)).sum())
        hi.append(((d >= sup[0] - eps) & (d <= s + eps)).sum() if True else 0)
    return np.array(lo), np.array(hi)


def check_cdf(name, d, sup, got):
    s, v = got
    s, v = np.asarray(s, float), np.asarray(v, float)
    if s.shape != sup.shape or abs(s - sup).max() > 1e-9 * max(1, abs(sup).max()):
        return f"{name} support {s} is not the grid {sup}"
    if v.shape != sup.shape:
        return f"{name} has {v.shape} values for {sup.shape} support values"
    if v[0] != 0:
        return f"{name} starts at {v[0]}"
    lo, hi = ecdf_bounds(d, sup)
    tie = (hi != lo)
    exact = np.array([((d >= sup[0]) & ((d <= x) if k == len(sup) - 1 else (d < x))).sum() for k, x in enumerate(sup)])
    exact[0] = 0
    tot_lo, tot_hi = ((d >= sup[0]) & (d <= sup[-1])).sum(), ((d >= sup[0]) & (d <= sup[-1])).sum()
    ambiguous = any(abs(x - y) <= 1e-9 * max(1.0, y) and x != y for x in (sup[0], sup[-1]) for y in d)
    if ambiguous:
        return None
    if tot_lo == 0:
        raise Skip
    for k in range(1, len(sup)):
        near = any(abs(sup[k] - y) <= 1e-9 * max(1.0, abs(y)) and True for y in d) and sup[k] != sup[-1]
        w = exact[k] / tot_lo
        if near:
            a = ((d >= sup[0]) & (d < sup[k] - 1e-9 * max(1, sup[k]))).sum() / tot_lo
            b = ((d >= sup[0]) & (d <= sup[k] + 1e-9 * max(1, sup[k]))).sum() / tot_lo
            if float(sup[k]).is_integer() and all(float(y).is_integer() for y in d):
                a = b = w
        else:
            a = b = w
        if not a - 1e-12 <= v[k] <= b + 1e-12:
            return f"{name}({sup[k]}) = {v[k]}, the share of distances in the support up to there is {w}"
    return None


def check(c):
    p = np.asarray(c["pts"], float)
    n = len(p)
    if n < 2:
        raise Skip
    metric = c["metric"] if c["dist"] == "none" else "euclidean"
    d1 = nn(p, metric)
    sup = grid(c["sup"], float(d1.max()))
    if len(sup) < 2 or not (np.diff(sup) > 0).all():
        raise Skip
    data = make(c["pts"], c["form"])
    kw = dict(support=mk_support(c["sup"]))
    if c["fn"] == "g":
        if c["dist"] == "vec":
            kw["distances"] = d1.copy()
        elif c["dist"] == "full":
            kw["distances"] = dmat(p)
        else:
            kw["metric"] = metric
        if ((d1 >= sup[0]) & (d1 <= sup[-1])).sum() == 0:
            raise Skip
        with np.errstate(all="ignore"):
            return check_cdf("G", d1, sup, ds.g(data, **kw))
    rng = np.random.default_rng(c["seed"])
    if c["dist"] == "none":
        if c["hull"] == "convex" and np.linalg.matrix_rank(p - p.mean(0), tol=1e-6 * abs(p).max()) < 2:
            raise Skip
        with recording(ds, "poisson") as rec, np.errstate(all="ignore"):
            got = ds.f(data, metric=metric, hull=c["hull"], **kw)
        if len(rec) != 1:
            raise Skip
        rec = {"r": rec[0][2]}
        dF = mmat(rec["r"], p, metric).min(1)
        if ((dF >= sup[0]) & (dF <= sup[-1])).sum() == 0:
            raise Skip
        return check_cdf("F", dF, sup, got)
    q = p.min(0) + rng.random((n if c["p"] % 3 == 0 else c["p"], 2)) * np.ptp(p, axis=0)
    dF = mmat(p, q, "euclidean")
    kw["distances"] = dF.min(0) if c["dist"] == "vec" else dF
    dF = dF.min(0)
    if ((dF >= sup[0]) & (dF <= sup[-1])).sum() == 0:
        raise Skip
    with np.errstate(all="ignore"):
        return check_cdf("F", dF, sup, ds.f(data, **kw))
