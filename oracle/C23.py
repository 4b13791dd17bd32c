from base import *
from pointpats import PointPattern
from pointpats.window import as_window, poly_from_bbox
RULE = "histories: random sequences of property reads and window replacements on a pattern; every read compared with a recomputation from the points and the current window"
SHRINK = []
PROPS = ["n", "len", "mbb", "mbb_area", "rot", "lambda_mbb", "hull", "hull_area", "lambda_hull", "lambda_window", "window", "get_window"]


def gen(r):
    n = r.n(3, cap=60)
    ops = []
    for _ in range(r.i(2, 12)):
        ops.append(["set", [float(-r.i(0, 5)), float(-r.i(0, 5)), float(r.i(6, 20)), float(r.i(6, 20))], r.flag()] if r.flag(.25) else ["get", r.pick(*PROPS)])
    return {"pts": r.area2(n), "form": r.pick("list", "array", "array"), "win": r.pick(None, None, [-1.0, -2.0, 30.0, 40.0]), "ops": ops}


def check(c):
    p = np.asarray(c["pts"], float)
    n = len(p)
    if n < 3 or np.linalg.svd(p - p.mean(0))[1][1] < 1e-4 * max(1, abs(p).max()):
        raise Skip
    from scipy.spatial import ConvexHull
    w = as_window(poly_from_bbox(c["win"])) if c["win"] else None
    cur = c["win"]
    pp = PointPattern(make(c["pts"], c["form"]), window=w) if w is not None else PointPattern(make(c["pts"], c["form"]))
    lo, hi = p.min(0), p.max(0)
    box = [*lo, *hi]
    cur = cur or box
    sc = 1e-9 * max(1, abs(p).max())
    ch = ConvexHull(p)
    before = snap(pp.df)
    for step, op in enumerate(c["ops"] + [["get", "lambda_window"], ["get", "mbb"]]):
        if op[0] == "set":
            w = as_window(poly_from_bbox(op[1]))
            if op[2]:
                pp.window = w
            else:
                pp.set_window(w)
            cur = op[1]
            continue
        k = op[1]
        area_w = (cur[2] - cur[0]) * (cur[3] - cur[1])
        barea = float(np.prod(hi - lo))
        v = len(pp) if k == "len" else pp.get_window() if k == "get_window" else getattr(pp, k)
        bad = None
        if k in ("n", "len"):
            bad = None if v == n else n
        elif k == "mbb":
            bad = None if close(v, box, 0, 0) else box
        elif k == "mbb_area":
            bad = None if close(v, barea) else barea
        elif k == "rot":
            x = .25 * min(hi - lo)
            bad = None if close(v, x) else x
        elif k == "lambda_mbb":
            bad = None if close(v, n / barea) else n / barea
        elif k == "lambda_window":
            bad = None if close(v, n / area_w, 1e-7) else n / area_w
        elif k in ("window", "get_window"):
            bad = None if (list(v.bbox) == list(cur) and (w is None or v is w)) else cur
        elif k == "hull":
            h = np.asarray(v, float)
            if {tuple(x) for x in h.tolist()} - {tuple(x) for x in p.tolist()} or (h @ ch.equations[:, :2].T + ch.equations[:, 2]).min(0).shape[0] < 1 or abs(poly_area(h) - ch.volume) > 1e-6 * ch.volume + sc:
                bad = "the convex hull"
        elif k == "hull_area":
            bad = None if abs(v - ch.volume) <= 1e-6 * ch.volume + 1e-9 * abs(p).max() ** 2 else ch.volume
        elif k == "lambda_hull":
            bad = None if abs(v - n / ch.volume) <= 1e-5 * n / ch.volume + 1e-9 * abs(p).max() ** 2 * n / ch.volume ** 2 else n / ch.volume
        if bad is not None:
            return f"step {step}: {k} is {v if k not in ('window', 'get_window') else list(v.bbox)}, computed from the points and window {bad}"
        if snap(pp.df) != before or not np.array_equal(np.asarray(pp.points, float), p):
            return f"step {step}: reading {k} changed the pattern"
    return None


def poly_area(h):
    q = h - h.mean(0)
    return abs((q[:, 0] * np.roll(q[:, 1], -1) - q[:, 1] * np.roll(q[:, 0], -1)).sum()) / 2
