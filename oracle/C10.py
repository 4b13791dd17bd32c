from base import *
from pointpats import geometry as G, PointPattern
RULE = "patterns with coincident points (up to all coincident) x k x entry point (PointPattern.knn/nnd, geometry.k_neighbors on three tree types); neighbours judged against the full distance matrix"
SHRINK = ["pts"]


def gen(r):
    n = r.n(2, cap=150)
    st = r.pick("dup", "dup", "grid", "float", "offset", None, "line")
    p = r.coords(n, st)
    if r.flag(.15):
        p = [p[0]] * n
    return {"pts": p, "k": r.i(1, max(1, min(n - 1, 6))) if r.flag(.8) else r.i(1, max(1, n - 1)), "via": r.pick("pp", "pp", "sk", "kd", "ps"), "read": r.flag()}


def check(c):
    p = np.asarray(c["pts"], float)
    n, k = len(p), c["k"]
    if n <= k or k < 1:
        raise Skip
    if c["via"] == "pp":
        pp = PointPattern(c["pts"])
        if c["read"]:
            pp.knn(min(n - 1, k))
        ids, ds = pp.knn(k)
    else:
        if c["via"] == "sk":
            t = G.build_best_tree(p, "euclidean")
        elif c["via"] == "kd":
            from scipy.spatial import KDTree
            t = KDTree(p)
        else:
            from libpysal.cg import KDTree as K2
            t = K2(p)
        ds, ids = G.k_neighbors(t, p, k)
    m = judge(p, k, np.asarray(ids), np.asarray(ds, float))
    if m:
        return m
    if c["via"] == "pp":
        D = dmat(p)
        np.fill_diagonal(D, np.inf)
        w = D.min(1)
        sc = 1e-9 * max(1, abs(p).max())
        for nm, v in (("min_nnd", w.min()), ("mean_nnd", w.mean()), ("max_nnd", w.max())):
            if abs(float(getattr(pp, nm)) - v) > sc:
                return f"{nm} = {getattr(pp, nm)}, the nearest-neighbour distances give {v}"
        if not np.allclose(np.asarray(pp.nnd, float).ravel(), w, rtol=1e-9, atol=sc):
            return "nnd are not the nearest-neighbour distances"
    return None


def judge(p, k, ids, ds):
    n = len(p)
    if ids.shape != (n, k) or ds.shape != (n, k):
        return f"neighbours have shape {ids.shape} / {ds.shape}, expected {(n, k)}"
    D = dmat(p)
    eps = 1e-9 * max(1.0, abs(p).max())
    for i in range(n):
        row = [int(x) for x in ids[i]]
        if i in row:
            return f"point {i} is its own neighbour: {row}"
        if len(set(row)) != k or min(row) < 0 or max(row) >= n:
            return f"neighbours of {i} are not {k} different points: {row}"
        if not np.allclose(ds[i], D[i, row], rtol=1e-9, atol=eps):
            return f"distances of {i}'s neighbours {ds[i]} are not exact {D[i, row]}"
        if (np.diff(ds[i]) < 0).any():
            return f"distances of {i}'s neighbours decrease: {ds[i]}"
        out = np.delete(D[i], row + [i])
        if len(out) and out.min() < ds[i].max() - eps:
            return f"a point at {out.min()} was left out of the neighbours of {i} (farthest {ds[i].max()})"
    return None
