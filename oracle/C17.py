from st import *
from pointpats import KnoxLocal
from C15 import mk_ids
RULE = "local Knox analyses (several components, ids of several kinds) x significance level x inference x keep_neighbors; rows and clusters recomputed from the adjacency of the significant events"
SHRINK = []


def gen(r):
    c = gen_events(r, lo=4, cap=30)
    if r.flag(.6):
        k = r.i(2, 4)
        p, t = [], []
        for a in range(k):
            m = r.i(2, 5)
            p += [[100.0 * a + r.i(0, 2), float(r.i(0, 2))] for _ in range(m)]
            t += [50.0 * a + r.i(0, 2) for _ in range(m)]
        o = r.r.permutation(len(p))
        c["pts"], c["t"] = [p[i] for i in o], [float(t[i]) for i in o]
        c["delta"], c["tau"] = float(r.pick(1, 2, 3)), float(r.pick(0, 1, 2))
    c["ids"] = r.pick("none", "none", "perm", "str", "off")
    c["crit"] = r.pick(.05, .1, .2, .3, .5, .8, 1.0)
    c["inf"] = r.pick("permutation", "permutation", "analytic")
    c["kn"] = r.flag(.7)
    c["perm"] = r.pick(0, 3, 9, 19)
    c["keep"] = False
    return c


def check(c):
    n = len(c["pts"])
    if n < 3:
        raise Skip
    S, U = adj(c)
    A = S & U
    s, t = arrays(c)
    ids = mk_ids(c)
    np.random.seed(c["seed"] % 2**32)
    k = KnoxLocal(s, t, c["delta"], c["tau"], permutations=c["perm"], ids=ids)
    ids = ids if ids is not None else list(range(n))
    analytic = c["inf"] == "analytic" or not c["perm"]
    p = np.asarray(k.p_hypergeom if analytic else k.p_sims, float)
    sig = p <= c["crit"]
    adjacent = A[sig].any(0) if sig.any() else np.zeros(n, bool)
    if not (sig & A.any(1)).any():
        raise Skip  # the table needs at least one adjacency
    h = k.hotspots(crit=c["crit"], inference=c["inf"], keep_neighbors=c["kn"])
    rows = sig | (adjacent if c["kn"] else False)
    got = h["focal"].tolist()
    want = [ids[i] for i in range(n) if rows[i]]
    if sorted(map(str, got)) != sorted(map(str, want)):
        return f"hotspot events {sorted(map(str, got))} != {sorted(map(str, want))}"
    back = {v: i for i, v in enumerate(ids)}
    lab = {}
    for _, r in h.iterrows():
        i = back[r["focal"]]
        if abs(float(r["pvalue"]) - p[i]) > 1e-12:
            return f"event {r['focal']} has p-value {r['pvalue']}, its own is {p[i]}"
        if float(r["focal_time"]) != c["t"][i]:
            return f"event {r['focal']} has time {r['focal_time']}, its own is {c['t'][i]}"
        if [r["geometry"].x, r["geometry"].y] != list(map(float, c["pts"][i])):
            return f"event {r['focal']} has geometry {r['geometry']}"
        lab[i] = r["cluster"]
    # components over adjacencies that involve a significant event
    E = A & (sig[:, None] | sig[None, :])
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for i in range(n):
        for j in range(n):
            if E[i, j]:
                comp[find(i)] = find(j)
    con = [i for i in lab if E[i].any()]
    for i in con:
        for j in con:
            if (lab[i] == lab[j]) != (find(i) == find(j)):
                return f"events {ids[i]} and {ids[j]} have cluster labels {lab[i]}, {lab[j]} and are {'' if find(i) == find(j) else 'not '}connected"
    return None
