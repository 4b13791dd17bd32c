from base import *
import pointpats.centrography as cg
RULE = "random patterns (grid, duplicates, offsets, lines) x container form x positive/negative weights x shift; every case is non-trivial (all five statistics and their shift are evaluated)"
SHRINK = ["pts", "w"]


def gen(r):
    n = r.n(1)
    return {"pts": r.coords(n), "form": r.form(), "int": r.flag(.2), "w": [float(x) for x in (r.r.integers(1, 9, n) if r.flag() else r.r.random(n) + .01)],
            "neg": r.flag(.15), "shift": [float(r.i(-40, 40)), float(r.i(-40, 40))], "at": r.coords(1)[0], "atform": r.pick("array", "list")}


def stats(pts, form, dtype, w, at, atform):
    m = make(pts, form, dtype)
    geo = form[0] == "g"
    if geo:
        import shapely
        c = shapely.Point(at)
    else:
        c = np.asarray(at) if atform == "array" and isinstance(m, np.ndarray) else at
    ww = np.asarray(w) if form in ("array", "gs") else list(w)
    return dict(mean=xy(cg.mean_center(m)), wmean=xy(cg.weighted_mean_center(m, ww)), sd=float(cg.std_distance(m)),
                dtot=float(cg.dtot(c, m)), med=xy(cg.manhattan_median(m)))


def check(c):
    pts, w = c["pts"], list(c["w"])
    if len(pts) == 0:
        raise Skip
    if c["neg"] and len(w) > 1:
        w[0] = -w[0] / 2
        if abs(sum(w)) < 1e-3 * sum(map(abs, w)):
            raise Skip
    dt = int if c["int"] and is_integral(pts) else float
    got = stats(pts, c["form"], dt, w, c["at"], c["atform"])
    n = len(pts)
    mx, my = (math.fsum(p[k] for p in pts) / n for k in (0, 1))
    sw = math.fsum(w)
    scale = max(1.0, max(abs(v) for p in pts for v in p))
    wm = [math.fsum(a * p[k] for a, p in zip(w, pts)) / sw for k in (0, 1)]
    sd = math.sqrt(math.fsum((p[0] - mx) ** 2 + (p[1] - my) ** 2 for p in pts) / n)
    dt_ = math.fsum(dist(p, c["at"]) for p in pts)
    med = [sorted(p[k] for p in pts) for k in (0, 1)]
    md = [(s[(n - 1) // 2] + s[n // 2]) / 2 for s in med]
    tol = 1e-10 * scale * (sum(map(abs, w)) / abs(sw))
    if got["mean"].shape != (2,) or abs(got["mean"] - [mx, my]).max() > tol:
        return f"mean_center {got['mean']} != {[mx, my]}"
    if got["wmean"].shape != (2,) or abs(got["wmean"] - wm).max() > tol * 10:
        return f"weighted_mean_center {got['wmean']} != {wm}"
    if not abs(got["sd"] - sd) <= 1e-8 * sd + 1e-9 * scale:
        return f"std_distance {got['sd']} != {sd}"
    if not abs(got["dtot"] - dt_) <= 1e-9 * (dt_ + scale):
        return f"dtot {got['dtot']} != {dt_}"
    if got["med"].shape != (2,) or abs(got["med"] - md).max() > 1e-12 * scale:
        return f"manhattan_median {got['med']} != {md}"
    s = c["shift"]
    g2 = stats([[p[0] + s[0], p[1] + s[1]] for p in pts], c["form"], dt, w, [c["at"][0] + s[0], c["at"][1] + s[1]], c["atform"])
    for k in ("mean", "wmean", "med"):
        if abs(g2[k] - got[k] - s).max() > 1e-8 * scale * 10 + tol:
            return f"{k} does not move with the pattern"
    if abs(g2["sd"] - got["sd"]) > 1e-7 * sd + 1e-8 * scale:
        return "std_distance changes under a shift"
    return None
