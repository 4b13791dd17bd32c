"""shared: hulls and simulator calls"""
from base import *
import shapely
from scipy.spatial import ConvexHull
import pointpats.random as rnd


def gen_hull(r):
    kind = r.pick("box", "points", "convex", "poly", "nonconvex", "multi", "hole", "intbox")
    o = r.pick([0, 0], [0, 0], [10, -5], [1000, 2000], [-3.5, -8])
    s = [float(r.pick(.5, 1, 2, 10)), float(r.pick(.5, 1, 3, 10))]
    pts = None
    if kind in ("points", "convex"):
        pts = (r.r.random((r.i(4, 9), 2)) * s + o).tolist()
    return {"kind": kind, "o": [float(x) for x in o], "s": s, "pts": pts}


def mk_hull(h):
    (ox, oy), (sx, sy) = h["o"], h["s"]
    k = h["kind"]
    if k == "box":
        return np.array([ox, oy, ox + sx, oy + sy])
    if k == "intbox":
        return np.array([int(ox), int(oy), int(ox) + max(1, int(sx)), int(oy) + max(1, int(sy))])
    if k == "points":
        return np.array(h["pts"])
    if k == "convex":
        return ConvexHull(np.array(h["pts"]))
    if k == "poly":
        return shapely.Polygon([(ox, oy), (ox + sx, oy), (ox + sx, oy + sy), (ox + .3 * sx, oy + .8 * sy)])
    if k == "nonconvex":
        return shapely.Polygon([(ox, oy), (ox + sx, oy), (ox + sx, oy + sy), (ox + .5 * sx, oy + .4 * sy), (ox, oy + sy)])
    if k == "hole":
        return shapely.Polygon([(ox, oy), (ox + sx, oy), (ox + sx, oy + sy), (ox, oy + sy)], [[(ox + .3 * sx, oy + .3 * sy), (ox + .6 * sx, oy + .3 * sy), (ox + .6 * sx, oy + .6 * sy), (ox + .3 * sx, oy + .6 * sy)]])
    if k == "multi":
        return shapely.MultiPolygon([shapely.box(ox, oy, ox + .4 * sx, oy + sy), shapely.box(ox + .5 * sx, oy, ox + sx, oy + .6 * sy)])


def area_of(h, H):
    if h["kind"] in ("box", "intbox"):
        return float((H[2] - H[0]) * (H[3] - H[1]))
    if h["kind"] == "points":
        w = np.ptp(H, axis=0)
        return float(w[0] * w[1])
    if h["kind"] == "convex":
        return float(H.volume)
    return float(H.area)


def inside(h, H, q):
    """index of a point of q outside the hull, or None"""
    e = 1e-9 * max(1, abs(q).max()) if len(q) else 0
    if h["kind"] in ("box", "intbox", "points"):
        b = H if h["kind"] != "points" else np.array([*H.min(0), *H.max(0)])
        bad = (q[:, 0] < b[0] - e) | (q[:, 0] > b[2] + e) | (q[:, 1] < b[1] - e) | (q[:, 1] > b[3] + e)
    elif h["kind"] == "convex":
        eq = H.equations
        bad = (q @ eq[:, :2].T + eq[:, 2] > 1e-7 * max(1, abs(q).max())).any(1)
    else:
        g = H.buffer(e)
        bad = ~shapely.covers(g, shapely.points(q))
    w = np.where(bad)[0]
    return int(w[0]) if len(w) else None


def gen_call(r, fns=("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss"), reps=True):
    fn = r.pick(*fns)
    h = gen_hull(r)
    H = mk_hull(h)
    A = area_of(h, H)
    c = {"fn": fn, "hull": h, "seed": r.seed(), "rng": r.pick("int", "int", "gen", "seq"), "kw": {}}
    if fn == "strauss":
        n = r.i(1, 6)
        c["kw"] = {"gamma": float(r.pick(.3, .9, 1)), "r": float(r.pick(.01, .05)), "n_iter": r.pick(60, 150), "max_iter": 60}
    else:
        n = r.pick(1, 2, 3, 5, 8, 13, 40) if r.flag(.9) else r.n(1, cap=150)
    n_seeds = None
    if fn.startswith("cluster"):
        n_seeds = r.i(2, 4)
        n = max(n, n_seeds) if r.flag(.9) else n_seeds
        c["kw"]["n_seeds"] = n_seeds
    R = r.pick(1, 1, 2, 3) if reps else 1
    u = r.i(0, 3)
    if fn == "strauss" and u == 3:
        u = 0
    if u == 0:
        c["size"] = n if R == 1 else [n, R]
    elif u == 1:
        c["size"] = [n, R]
    elif u == 2 and fn not in ("normal", "cluster_normal"):
        c["intensity"] = (n + .5) / A
        if R > 1 or r.flag():
            c["size"] = R
    elif u == 3 and r.flag(.3) and fn != "strauss":
        pass  # default size
    else:
        c["size"] = [n, R]
    if fn == "cluster_poisson":
        m = min(h["s"])
        v = r.i(0, 3)
        if v == 1:
            c["kw"]["cluster_radius"] = float(m * r.pick(.2, .5))
        elif v == 2:
            c["kw"]["cluster_radius"] = [float(m * x) for x in r.r.choice([.2, .3, .5], n_seeds)]
    if fn == "normal":
        v = r.i(0, 4)
        m = min(h["s"]) ** 2
        if v == 1:
            c["kw"]["cov"] = float(m / 4)
        elif v == 2:
            c["kw"]["cov"] = [[float(m / 4), float(m / 20)], [float(m / 20), float(m / 4)]]
        elif v == 3 and isinstance(c.get("size"), list):
            c["kw"]["cov"] = [[[float(m / 4 * (1 + i)), 0.0], [0.0, float(m / 4 * (1 + i))]] for i in range(c["size"][1])]
    if fn == "cluster_normal" and r.flag():
        c["kw"]["cov"] = float(min(h["s"]) ** 2 / 16)
    return c


def mk_rng(c):
    s = c["seed"]
    return {"int": s, "gen": np.random.default_rng(s), "seq": [s, 7]}[c["rng"]]


def expected(c, H):
    """(n, R, shape)"""
    A = area_of(c["hull"], H)
    if c["hull"]["kind"] == "points" and c["fn"] in ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss"):
        pass
    if "intensity" in c:
        n, R = int(A * c["intensity"]), c.get("size", 1)
    elif "size" not in c:
        n, R = 100, 1
    elif isinstance(c["size"], list):
        n, R = c["size"]
    else:
        n, R = c["size"], 1
    return n, R, ((n, 2) if R == 1 else (R, n, 2))


class Slow(Exception):
    pass


class limit:
    """bounds the time of one call: rejection loops may legitimately be slow on thin hulls"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import signal

        def h(*a):
            raise Skip
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *e):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def call(c, H=None, rng=None):
    H = mk_hull(c["hull"]) if H is None else H
    kw = dict(c["kw"])
    for k in ("cov",):
        if isinstance(kw.get(k), list):
            kw[k] = np.array(kw[k])
    if "size" in c:
        kw["size"] = tuple(c["size"]) if isinstance(c["size"], list) else c["size"]
    if "intensity" in c:
        kw["intensity"] = c["intensity"]
    with limit(3.0):
        try:
            return getattr(rnd, c["fn"])(H, rng=mk_rng(c) if rng is None else rng, **kw)
        except RuntimeError as e:
            if "too large" in str(e):
                raise Skip
            raise
