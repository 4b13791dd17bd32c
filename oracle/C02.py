from sim import *
from pointpats import QStatistic
RULE = "simulator calls and QStatistic simulations with explicit seeds or generators, each run twice around changed global random state; results must agree and the global state must not move"
SHRINK = []


def gen(r):
    if r.flag(.2):
        p = r.area2(r.n(4, cap=25), "unit")
        return {"fn": "Q", "pts": p, "seed": r.seed(), "rng": r.pick("int", "gen", "npint", "bitgen", "state"), "R": r.i(1, 4), "shape": r.pick("rectangle", "hexagon"), "g1": r.i(0, 9), "g2": r.i(10, 99)}
    c = gen_call(r)
    c.update(g1=r.i(0, 9), g2=r.i(10, 99))
    return c


def state():
    s = np.random.get_state()
    import random
    return (s[1].tobytes(), s[2], s[3], s[4], hash(random.getstate()))


def check(c):
    outs = []
    for k in ("g1", "g2"):
        np.random.seed(c[k])
        b = state()
        if c["fn"] == "Q":
            s = c["seed"]
            rng = {"int": s, "gen": np.random.default_rng(s), "npint": np.int64(s), "bitgen": np.random.PCG64(s), "state": np.random.RandomState(s % 2**32)}[c["rng"]]
            q = QStatistic(np.array(c["pts"]), shape=c["shape"], nx=2, ny=2, lh=.4, realizations=c["R"], rng=rng)
            o = np.r_[q.chi2_realizations, q.chi2_r_pvalue]
        else:
            o = np.asarray(call(c))
        if state() != b:
            return f"{c['fn']} with an explicit seed changed the global random state"
        outs.append(o)
    if outs[0].shape != outs[1].shape or not np.array_equal(outs[0], outs[1], equal_nan=True):
        return f"{c['fn']} gave two results for the same seed and arguments"
    if c["fn"] != "Q":
        d = dict(c, seed=c["seed"] + 1)
        o = np.asarray(call(d))
        if o.shape == outs[0].shape and o.size and np.array_equal(o, outs[0]):
            return f"{c['fn']} ignores its seed"
        g = np.random.default_rng(c["seed"])
        a = np.asarray(call(c, rng=g))
        b2 = np.asarray(call(c, rng=g))
        if a.size and np.array_equal(a, b2):
            return f"{c['fn']} does not draw from the generator it was given"
        if c["rng"] == "int" and not np.array_equal(np.asarray(call(c, rng=np.random.default_rng(c["seed"]))), outs[0]):
            return f"{c['fn']} treats a seed and a generator with that seed differently"
        if outs[0].ndim == 3 and outs[0].shape[0] > 1 and outs[0].size:
            for i in range(1, outs[0].shape[0]):
                if np.array_equal(outs[0][0], outs[0][i]):
                    return f"{c['fn']} repeats replication 0 as replication {i}"
    return None
