from st import *
import pointpats.spacetime as sp
RULE = "event sets x the four classic tests x parameters x permutations; statistics from their definitions, p-values recomputed under the recorded permutations"
SHRINK = []


def gen(r):
    c = gen_events(r, lo=3, cap=25)
    c.update(fn=r.pick("knox", "mantel", "jacquez", "modified_knox"), k=r.i(1, 4), scon=float(r.pick(0.5, 1, 2)), tcon=float(r.pick(.5, 1, 3)), spow=float(r.pick(-1, 1, -2)), tpow=float(r.pick(-1, 1)))
    if c["fn"] == "jacquez":
        n = len(c["pts"])
        g = r.r
        c["pts"] = [[float(a), float(b)] for a, b in g.random((n, 2)) * 100]
        c["t"] = [float(x) for x in g.permutation(n) ** 2 + g.random(n) * .3]
    return c


def corr(a, b):
    a, b = a - a.mean(), b - b.mean()
    return (a * b).sum() / math.sqrt((a * a).sum() * (b * b).sum())


def check(c):
    n = len(c["pts"])
    if n < 3:
        raise Skip
    s, t = arrays(c)
    R = c["perm"]
    fn = c["fn"]
    D, T = dmat(s), abs(t - t.T).astype(float)
    lo = np.tril_indices(n, -1)
    np.random.seed(c["seed"] % 2**32)
    if fn in ("knox", "modified_knox"):
        S, U = adj(c)
    kw = {"permutations": R}
    with perms() as rec:
        if fn == "knox":
            out = sp.knox(s, t, c["delta"], c["tau"], **kw)
        elif fn == "mantel":
            if n < 4 or np.ptp(D[lo]) < 1e-9 or np.ptp(T[lo]) < 1e-9:
                raise Skip
            out = sp.mantel(s, t, scon=c["scon"], tcon=c["tcon"], spow=c["spow"], tpow=c["tpow"], **kw)
        elif fn == "jacquez":
            if c["k"] >= n:
                raise Skip
            out = sp.jacquez(s, t, c["k"], **kw)
        else:
            out = sp.modified_knox(s, t, c["delta"], c["tau"], **kw)
    tol = 0
    if fn == "knox":
        f = lambda q: int((S & U[np.ix_(q, q)]).sum() / 2)
        # shuffled times: recover an order of the events with the recorded times
        def order(x):
            x = np.asarray(x).ravel()
            if x.shape != (n,) or sorted(x.tolist()) != sorted(t.ravel().tolist()):
                return None
            left = list(range(n))
            res = []
            tt = t.ravel()
            for v in x:
                i = next(i for i in left if tt[i] == v)
                left.remove(i)
                res.append(i)
            return np.array(res)
    elif fn == "jacquez":
        def knn(M):
            M = M.copy()
            np.fill_diagonal(M, np.inf)
            return M.argsort(1)[:, : c["k"]]
        ks = knn(D)

        def f(q):
            kt = knn(T[np.ix_(q, q)])
            return int(sum(len(set(a) & set(b)) for a, b in zip(ks, kt)))

        def order(x):
            x = np.asarray(x).ravel()
            if sorted(x.tolist()) != sorted(t.ravel().tolist()):
                return None
            tt = t.ravel().tolist()
            return np.array([tt.index(v) for v in x])
        srt = np.sort(T + np.where(np.eye(n, dtype=bool), np.inf, 0), axis=1)
        if (np.diff(srt[:, : c["k"] + 1], axis=1)[np.isfinite(np.diff(srt[:, : c["k"] + 1], axis=1))] < 1e-7).any() or len(set(c["t"])) < n:
            raise Skip
    else:
        if fn == "mantel":
            tol = 1e-9
            ds = (D[lo] + c["scon"]) ** c["spow"]
            tt = (T + c["tcon"])
            f = lambda q: corr(ds, tt[np.ix_(q, q)][lo] ** c["tpow"])
        else:
            tol = 1e-9
            f = lambda q: ((S & U[np.ix_(q, q)]).sum() - (S.sum(1) * U[np.ix_(q, q)].sum(1)).sum() / (n - 1)) / 2
        order = lambda x: np.asarray(x).ravel() if sorted(np.asarray(x).ravel().tolist()) == list(range(n)) else None
    stat = f(np.arange(n))
    if isinstance(out, dict):
        gs = float(np.asarray(out["stat"]).ravel()[0])
    else:
        if R:
            return f"{fn} returned {out!r} with permutations"
        gs = float(out)
    if not abs(gs - stat) <= 1e-9 * (1 + abs(stat)):
        return f"{fn} statistic {gs} != {stat}"
    if not R:
        return None
    p = float(np.asarray(out["pvalue"]).ravel()[0])
    if not (0 < p <= 1 and abs(p * (R + 1) - round(p * (R + 1))) < 1e-9):
        return f"{fn} p-value {p} for {R} permutations"
    q = [order(x) for x in rec]
    if len(q) == R and all(x is not None for x in q):
        if fn in ("mantel", "modified_knox") and False:
            pass
        v = np.array([f(x) for x in q])
        hi, lw = int((v >= stat - tol).sum()), int((v >= stat + tol).sum())
        ok = set()
        for g in range(lw, hi + 1):
            # the Knox function counts the smaller tail
            m = min(g, R - g) if fn == "knox" else g
            ok.add((m + 1) / (R + 1))
        if not any(abs(p - o) < 1e-12 for o in ok):
            return f"{fn} p-value {p}; {hi} of {R} permutations are at least {stat}"
    return None
