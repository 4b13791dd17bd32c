from base import *
from pointpats import RectangleM, PointPattern
import pointpats.quadrat_statistics as qs
RULE = "patterns on and off cell borders x counts or cell sizes x containers; counts recomputed cell by cell from closed rectangles with a rounding margin"
SHRINK = ["pts"]
FIXED = [{"pts": [[0, 0], [3, 3], [1, 1], [2, 3], [3, 2]], "form": "array", "nx": 3, "ny": 3, "wh": None}, {"pts": [[0, 0], [4, 2], [2, 1]], "form": "gdf", "nx": 0, "ny": 0, "wh": [1.0, 2.0]}]


def gen(r):
    p = r.area2(r.n(2, cap=200))
    q = np.asarray(p)
    w = np.ptp(q, axis=0)
    return {"pts": p, "form": r.pick(r.form(), "pp"), "nx": r.i(1, 9), "ny": r.i(1, 9), "wh": None if r.flag() else [float(w[0] / r.pick(1, 2, 3, 2.5, .7, 7)), float(w[1] / r.pick(1, 2, 4, 3.3, .5))]}


def check(c):
    p = np.asarray(c["pts"], float)
    if len(p) < 2 or (np.ptp(p, axis=0) <= 1e-9).any():
        raise Skip
    data = PointPattern(c["pts"]) if c["form"] == "pp" else make(c["pts"], c["form"])
    lo, hi = p.min(0), p.max(0)
    kw = dict(rectangle_width=c["wh"][0], rectangle_height=c["wh"][1]) if c["wh"] else dict(count_column=c["nx"], count_row=c["ny"])
    m = RectangleM(data, **kw)
    if c["wh"]:
        w, h = c["wh"]
        nx, ny = (math.ceil((b - a) / s) for a, b, s in zip(lo, hi, (w, h)))
        if abs((hi - lo)[0] / w - round((hi - lo)[0] / w)) < 1e-9 or abs((hi - lo)[1] / h - round((hi - lo)[1] / h)) < 1e-9:
            nx, ny = m.count_column, m.count_row
            if not (nx * w >= (hi - lo)[0] * (1 - 1e-9) and ny * h >= (hi - lo)[1] * (1 - 1e-9)):
                return "grid does not cover the pattern"
    else:
        nx, ny = c["nx"], c["ny"]
        w, h = (hi - lo)[0] / nx, (hi - lo)[1] / ny
    if (m.count_column, m.count_row, m.num) != (nx, ny, nx * ny):
        return f"grid is {m.count_column} x {m.count_row}, num {m.num}; expected {nx} x {ny}"
    t = m.point_location_sta()
    if list(t.keys()) != list(range(nx * ny)):
        return f"cell ids {list(t.keys())[:20]} are not 0..{nx * ny - 1} row by row"
    if sum(t.values()) != len(p):
        return f"counts add up to {sum(t.values())} for {len(p)} points"
    if t != m.point_location_sta():
        return "a second count differs"
    eps = 1e-9 * max(1, abs(p).max())
    may = {k: 0 for k in t}
    must = {k: 0 for k in t}
    for x, y in p:
        cs = [(i, j) for i in cand(x, lo[0], w, nx, eps) for j in cand(y, lo[1], h, ny, eps)]
        for i, j in cs:
            may[i + j * nx] += 1
        if len(cs) == 1:
            must[cs[0][0] + cs[0][1] * nx] += 1
    for k in t:
        if not must[k] <= t[k] <= may[k]:
            return f"cell {k} counts {t[k]}; its closed rectangle holds {may[k]} points, {must[k]} of them in no other cell"
    return None


def cand(v, lo, s, n, eps):
    i = int((v - lo) // s)
    return [k for k in (i - 1, i, i + 1) if 0 <= k < n and lo + k * s - eps <= v <= lo + (k + 1) * s + eps]
