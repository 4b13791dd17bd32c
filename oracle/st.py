"""shared: space-time event sets and an independent recomputation of the Knox statistics under recorded permutations"""
from base import *


def gen_events(r, lo=2, cap=40):
    n = r.n(lo, big=False, cap=cap)
    st = r.pick("grid", "quarter", "float", "dup", "line", "unit", "int2")
    p = r.coords(n, "grid" if st == "int2" else st)
    t = [float(x) for x in (r.r.integers(0, r.pick(2, 4, 12), n) / r.pick(1, 1, 1, 2, 4) if r.flag(.8) else np.round(r.r.random(n) * 10, 2))]
    if st == "unit":
        delta = float(r.pick(0, .1, .3, .6, 2))
    else:
        delta = float(r.pick(0, 1, 1, 2, 3, 5, 5, 20, 1000))
        if r.flag(.3):
            delta = r.i(1, 40) / 4
    tau = float(r.pick(0, 1, 1, 2, 3, 10, 50, .25, .5, 1.5, 2.75, 4.5))
    if r.flag(.1):
        tau = float(np.round(r.r.random() * 6, 3))
    return {"pts": p, "t": t, "delta": delta, "tau": tau, "perm": r.pick(0, 1, 2, 5, 19), "keep": r.flag(), "seed": r.seed(), "tform": r.pick("col", "col", "int")}


def adj(c):
    """space and time adjacency; ambiguous (rounding) thresholds are skipped"""
    p, t = np.asarray(c["pts"], float), np.asarray(c["t"], float)
    n = len(p)
    d2 = ((p[:, None] - p[None]) ** 2).sum(-1)
    D = np.sqrt(d2)
    if (abs(D - c["delta"]) <= 1e-9 * max(1, c["delta"])).any() and not (is_integral(c["pts"]) or (np.asarray(c["pts"]) * 4 == np.round(np.asarray(c["pts"]) * 4)).all()):
        if (np.abs(D - c["delta"])[~np.eye(n, dtype=bool)] <= 1e-9 * max(1, c["delta"])).any() and c["delta"] > 0:
            raise Skip
    T = abs(t[:, None] - t[None])
    if ((abs(T - c["tau"]) <= 1e-9 * max(1, c["tau"])) & (T != c["tau"])).any():
        raise Skip
    S, U = d2 <= c["delta"] ** 2, T <= c["tau"]
    np.fill_diagonal(S, False)
    np.fill_diagonal(U, False)
    return S, U


def arrays(c):
    s = np.asarray(c["pts"], float)
    t = np.asarray(c["t"], float).reshape(-1, 1)
    if c.get("tform") == "int" and (t == np.round(t)).all():
        t = t.astype(int)
    return s, t


class perms:
    """record what np.random.permutation / shuffle produced, in order"""

    def __enter__(self):
        self.out = []
        self.p, self.s = np.random.permutation, np.random.shuffle

        def permutation(x):
            o = self.p(x)
            self.out.append(np.array(o))
            return o

        def shuffle(x):
            r = self.s(x)
            self.out.append(np.array(x))
            return r
        np.random.permutation, np.random.shuffle = permutation, shuffle
        return self.out

    def __exit__(self, *e):
        np.random.permutation, np.random.shuffle = self.p, self.s
        return False
