from st import *
from pointpats import KnoxLocal
from C14 import build
import C14
RULE = "event sets x ids (default, shuffled integers, strings) x permutations x keep; neighbour counts, adjacency table and conditional permutation p-values recomputed"
SHRINK = ["pts", "t"]


def gen(r):
    c = gen_events(r, cap=25)
    c["ids"] = r.pick("none", "none", "perm", "str", "off")
    c["df"] = r.flag(.15)
    return c


def mk_ids(c):
    n = len(c["pts"])
    if c["ids"] == "none":
        return None
    if c["ids"] == "perm":
        return [(i * 7 + 3) % n if math.gcd(7, n) == 1 else n - 1 - i for i in range(n)]
    if c["ids"] == "str":
        return [f"e{(i * 3) % 101}" for i in range(n)]
    return [100 + 2 * i for i in range(n)]


def check(c):
    n = len(c["pts"])
    if n < 2:
        raise Skip
    S, U = adj(c)
    A = S & U
    ids = mk_ids(c)
    if c["df"]:
        ids = [5 * i + 2 for i in range(n)]
    with perms() as rec:
        k = build(c, KnoxLocal, **({} if c["df"] or ids is None else {"ids": ids}))
    ids = ids if ids is not None else list(range(n))
    nsti = A.sum(1)
    if not np.array_equal(np.asarray(k.nsti, float), nsti) or not np.array_equal(np.asarray(k.statistic_, float), nsti):
        return f"nsti {k.nsti} != {nsti}"
    st, obs, exp = C14.table(S, U, n)
    if k.nst != st or not close(k.observed, obs) or not close(k.expected, exp):
        return f"global statistics of the local analysis: nst {k.nst} != {st}"
    t = c["t"]
    want = sorted((ids[i], ids[j], "lead" if t[i] < t[j] else "lag" if t[i] > t[j] else "coincident") for i in range(n) for j in range(n) if A[i, j])
    got = sorted(tuple(x) for x in k.adjlist[["focal", "neighbor", "orientation"]].values.tolist())
    if got != want:
        return f"adjacency table {got[:6]}.. != {want[:6]}.."
    R = c["perm"]
    if not R:
        return None
    p = np.asarray(k.p_sims, float)
    if p.shape != (n,) or (p <= 0).any() or (p > 1).any() or not np.allclose(p * (R + 1), np.round(p * (R + 1))):
        return f"p_sims {p} for {R} permutations"
    if c["keep"]:
        sims = np.asarray(k.sims, float)
        if sims.shape != (n, R):
            return f"sims has shape {sims.shape}"
        w = (1 + (sims >= nsti[:, None]).sum(1)) / (R + 1)
        if not close(w, p):
            return f"p_sims {p}, the kept statistics give {w}"
        if np.asarray(k.sim).shape != (R,) or abs(k.p_sim - (1 + (np.asarray(k.sim) >= st).sum()) / (R + 1)) > 1e-12:
            return f"p_sim {k.p_sim} does not follow from sim {k.sim}"
    if len(rec) == 2 * R and all(sorted(np.asarray(q).ravel().tolist()) == list(range(n)) for q in rec):
        cnt = np.zeros((n, R), int)
        for r, q in enumerate(rec[R:]):
            q = np.asarray(q).ravel()
            for i in range(n):
                z = q.copy()
                z[q == i] = q[i]
                z[i] = i
                cnt[i, r] = sum(U[i, z[j]] for j in range(n) if S[i, j])
        if c["keep"] and not np.array_equal(np.asarray(k.sims, int), cnt):
            # another conditional permutation scheme may be used: judge only its support
            lo = np.array([max(0, S[i].sum() + U[i].sum() - (n - 1)) for i in range(n)])
            hi = np.array([min(S[i].sum(), U[i].sum()) for i in range(n)])
            sm = np.asarray(k.sims)
            i = int(np.argmax((sm != cnt).any(1)))
            return f"local statistics of event {i} under the permutations {sm[i]} != {cnt[i]}"
        w = (1 + (cnt >= nsti[:, None]).sum(1)) / (R + 1)
        if not close(w, p):
            return f"p_sims {p} != {w} from the conditional permutations"
    elif c["keep"]:
        lo = np.array([max(0, S[i].sum() + U[i].sum() - (n - 1)) for i in range(n)])
        hi = np.array([min(S[i].sum(), U[i].sum()) for i in range(n)])
        sm = np.asarray(k.sims)
        if (sm < lo[:, None]).any() or (sm > hi[:, None]).any():
            return "a conditional permutation count is impossible when the event keeps its own time"
    return None
