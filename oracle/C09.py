from base import *
import pointpats.distance_statistics as ds
import pointpats.random as rnd
from C06 import support, mk_support, grid, mmat, nn
RULE = "patterns x support x hull x number of simulations x keep x test kind, n_jobs=1; simulated patterns are recorded and every statistic, the p-values and lengths are recomputed from them"
SHRINK = []


def gen(r):
    kind = r.pick("f", "g", "j", "k", "l")
    sup = support(r)
    if kind in "kl" and r.flag(.25):
        sup = ["array", [float(r.pick(.3, .5, 1, 2, 4))]]  # K and L are evaluated at values, one is enough
    return {"pts": r.area2(r.n(4, cap=30), r.pick("float", "unit", "grid", "quarter", "neg")), "form": r.pick("array", "array", "list_no", "gs", "gdf"), "sup": sup, "kind": kind,
            "hull": r.pick(None, "bbox", "convex", "poly", "box"), "sims": r.pick(1, 2, 3, 5, 9, 19), "keep": r.flag(.7), "trunc": r.flag(), "lin": r.flag(), "jobs": 1}


def check(c):
    p = np.asarray(c["pts"], float)
    n = len(p)
    if n < 3 or np.linalg.svd(p - p.mean(0))[1][1] < 1e-3:
        raise Skip
    form = "array" if c["form"] == "list_no" else c["form"]
    data = make(c["pts"], form)
    d1 = nn(p, "euclidean")
    sup = grid(c["sup"], float(d1.max()))
    if (len(sup) < 2 and c["kind"] not in "kl") or not len(sup) or not (np.diff(sup) > 0).all():
        raise Skip
    import shapely
    lo, hi = p.min(0), p.max(0)
    if c["hull"] == "poly":
        h = shapely.Polygon([lo - 1, (hi[0] + 2, lo[1] - 1), hi + 1, (lo[0] - 1, hi[1] + 3)])
    elif c["hull"] == "box":
        h = np.array([lo[0] - 1, lo[1] - 1, hi[0] + 1, hi[1] + 2])
    else:
        h = c["hull"]
    kind = c["kind"]
    kw = dict(support=mk_support(c["sup"]), n_simulations=c["sims"], keep_simulations=c["keep"], n_jobs=1, hull=h)
    if kind == "j":
        kw["truncate"] = c["trunc"]
    if kind == "l":
        kw["linearized"] = c["lin"]
    with recording(ds, "poisson") as rec, np.errstate(all="ignore"):
        res = getattr(ds, kind + "_test")(data, **kw)
    if len(rec) != c["sims"] + (1 if kind in "fj" else 0):
        # other ways of drawing are possible; only what is returned is judged then
        rec = None
    S, T, P, sims = res
    S, T, P = (np.asarray(x, float) for x in (S, T, P))
    if not (len(S) == len(T) == len(P)):
        return f"{kind}_test lengths: support {len(S)} statistic {len(T)} pvalue {len(P)}"
    if c["keep"]:
        if sims is None or np.asarray(sims).shape != (c["sims"], len(S)):
            return f"{kind}_test keeps simulations of shape {None if sims is None else np.asarray(sims).shape} for {c['sims']} simulations and {len(S)} support values"
    elif sims is not None:
        return f"{kind}_test keeps simulations nobody asked for"
    if len(P) and not ((P > 0) & (P <= 1)).all():
        return f"{kind}_test p-values {P} not in (0, 1]"
    if rec is None:
        return None
    kwl = {"linearized": c["lin"]} if kind == "l" else {}
    empty = None
    if kind in "fj":
        empty = rec[0][2]
        if len(empty) < 2:
            return "reference pattern empty"
        rec = rec[1:]

    def stat(q, support):
        with np.errstate(all="ignore"):
            if kind == "f":
                return ds.f(q, support=support, distances=mmat(q, empty, "euclidean").min(0))
            if kind == "g":
                return ds.g(q, support=support, distances=nn(q, "euclidean"))
            if kind == "j":
                return ds.j(q, support=support, distances=(nn(q, "euclidean"), mmat(q, empty, "euclidean").min(0)), truncate=False)
            return getattr(ds, kind)(q, support=support, **kwl)
    s0, t0 = stat(p, mk_support(c["sup"]))
    if not close(np.asarray(s0)[: len(S)], S):
        return f"{kind}_test support {S} != {s0}"
    near = any(abs(x - y) <= 1e-9 * max(1, x) for x in s0 for y in (mmat(p, p, 'euclidean').ravel() if kind != "f" else [])) or (empty is not None and any(abs(x - y) <= 1e-9 * max(1, x) for x in s0 for y in mmat(p, empty, "euclidean").min(0)))
    if kind == "j":
        bad = [k for k in range(len(t0)) if not math.isfinite(t0[k])]
        want_len = bad[0] if bad and c["trunc"] else len(t0)
        if not near and len(S) != want_len:
            return f"j_test returns {len(S)} support values, expected {want_len}"
    if not near and not np.allclose(T, np.asarray(t0)[: len(S)], rtol=1e-7, atol=1e-9, equal_nan=True):
        return f"{kind}_test statistic {T} != {np.asarray(t0)[:len(S)]} of the observed pattern"
    from pointpats.geometry import bbox, prepare_hull
    hull_obj = prepare_hull(p, h)
    bb = bbox(hull_obj)
    allv = []
    for a, k, q in rec:
        if q.shape != (n, 2):
            return f"a simulated pattern has shape {q.shape}, observed {n} points"
        if (q < np.array(bb[:2]) - 1e-9).any() or (q > np.array(bb[2:]) + 1e-9).any():
            return "a simulated pattern leaves the hull"
        if hasattr(hull_obj, "covers") and not all(hull_obj.buffer(1e-9).covers(shapely.Point(x)) for x in q):
            return "a simulated pattern leaves the polygon"
        allv.append(stat(q, np.asarray(s0))[1])
    V = np.asarray(allv, float)
    if near:
        return None
    if empty is not None and ((empty < np.array(bb[:2]) - 1e-9).any() or (empty > np.array(bb[2:]) + 1e-9).any() or (hasattr(hull_obj, "covers") and not all(hull_obj.buffer(1e-9).covers(shapely.Point(x)) for x in empty))):
        return "reference points leave the hull"
    if c["keep"] and not np.allclose(np.asarray(sims, float), V[:, : len(S)], rtol=1e-7, atol=1e-9, equal_nan=True):
        return f"kept simulations are not the statistics of the simulated patterns"
    R = c["sims"]
    for k in range(len(S)):
        if not (np.isfinite(V[:, k]).all() and math.isfinite(T[k])):
            continue
        ge = int((V[:, k] >= T[k] - 1e-12 * (1 + abs(T[k]))).sum())
        gt = int((V[:, k] >= T[k] + 1e-12 * (1 + abs(T[k]))).sum())
        ok = {(1 + min(g, R - g)) / (R + 1) for g in range(min(gt, ge), max(gt, ge) + 1)}
        # exact ties count as "at or above"
        g = int((V[:, k] >= T[k]).sum())
        exact = (1 + min(g, R - g)) / (R + 1)
        if not any(abs(P[k] - o) < 1e-12 for o in ok):
            return f"{kind}_test p-value {P[k]} at d={S[k]}: {g} of {R} simulations at or above the observed value"
        if kind in "gf" and abs(P[k] - exact) > 1e-12:
            return f"{kind}_test p-value {P[k]} at d={S[k]}, expected {exact}: {g} of {R} simulations at or above"
    return None
