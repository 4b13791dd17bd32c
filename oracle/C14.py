from st import *
from pointpats import Knox
RULE = "event sets (ties, duplicates, thresholds equal to distances) x permutations x keep x constructor; table recounted pair by pair, p-value and kept statistics recomputed under the recorded permutations"
SHRINK = ["pts", "t"]


def gen(r):
    c = gen_events(r)
    c["df"] = r.flag(.25)
    return c


def build(c, cls, **k):
    s, t = arrays(c)
    np.random.seed(c["seed"] % 2**32)
    if c.get("df"):
        import geopandas as gpd
        d = gpd.GeoDataFrame({"when": t[:, 0]}, geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs=3857, index=[5 * i + 2 for i in range(len(s))])
        return cls.from_dataframe(d, "when", c["delta"], c["tau"], c["perm"], c["keep"], **k)
    return cls(s, t, c["delta"], c["tau"], c["perm"], c["keep"], **k)


def table(S, U, n):
    pairs = n * (n - 1) / 2
    st, s, t = (S & U).sum() / 2, S.sum() / 2, U.sum() / 2
    obs = np.array([[st, s - st], [t - st, pairs - s - t + st]])
    e = s * t / pairs
    exp = np.array([[e, s - e], [t - e, pairs - s - t + e]])
    return int(st), obs, exp


def check(c):
    n = len(c["pts"])
    if n < 2:
        raise Skip
    S, U = adj(c)
    with perms() as rec:
        k = build(c, Knox)
    st, obs, exp = table(S, U, n)
    if k.nst != st or k.statistic_ != st:
        return f"nst {k.nst}, {st} pairs are close in space and time"
    if not close(k.observed, obs):
        return f"observed {np.asarray(k.observed).tolist()} != {obs.tolist()}"
    if not close(k.expected, exp):
        return f"expected {np.asarray(k.expected).tolist()} != {exp.tolist()}"
    R = c["perm"]
    if R:
        p = k.p_sim
        if not (0 < p <= 1 and abs(p * (R + 1) - round(p * (R + 1))) < 1e-9):
            return f"p_sim {p} for {R} permutations"
        sims = None
        if len(rec) == R and all(sorted(np.asarray(q).ravel().tolist()) == list(range(n)) for q in rec):
            sims = [int((S & U[np.ix_(q, q)]).sum() / 2) for q in (np.asarray(q).ravel() for q in rec)]
        if c["keep"]:
            if np.asarray(k.sim).shape != (R,):
                return f"sim has shape {np.asarray(k.sim).shape} for {R} permutations"
            if sims is not None and list(np.asarray(k.sim, float)) != sims:
                return f"kept statistics {k.sim} != {sims} of the permutations"
            if abs(p - (1 + (np.asarray(k.sim) >= st).sum()) / (R + 1)) > 1e-12:
                return f"p_sim {p} but {(np.asarray(k.sim) >= st).sum()} of {R} kept statistics reach {st}"
        if sims is not None and abs(p - (1 + sum(v >= st for v in sims)) / (R + 1)) > 1e-12:
            return f"p_sim {p} but {sum(v >= st for v in sims)} of {R} permutations reach {st}"
    return None
