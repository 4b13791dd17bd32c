from base import *
from pointpats import HexagonM, PointPattern
RULE = "patterns (hexagon corners, edges, centres, grid borders and random points) x side length x containers; each point must be countable in a cell whose closed hexagon contains it (bipartite count with a rounding margin)"
SHRINK = ["pts"]


def gen(r):
    lh = float(r.pick(1, 2, .5, 3, 10, r.r.random() * 5 + .05))
    u = r.flag(.5)
    n = r.n(1, cap=120)
    if u:
        s = lh * math.cos(math.pi / 6)
        p = [[0.0, 0.0]] + [[r.i(0, 12) * lh / 4, r.i(0, 12) * s / 2] for _ in range(n)]
        o = r.pick([0, 0], [0, 0], [3.5, -7.25], [100.0, 200.0])
        p = [[a + o[0], b + o[1]] for a, b in p]
    else:
        p = r.coords(n)
        w = max(np.ptp(np.asarray(p), axis=0).max(), 1e-3)
        lh = float(w * r.pick(.03, .1, .3, .5, 1, 2))
    return {"pts": p, "lh": lh, "form": r.pick(r.form(), "pp")}


def check(c):
    p = np.asarray(c["pts"], float)
    if len(p) < 1:
        raise Skip
    L = c["lh"]
    if np.ptp(p, axis=0).max() / L > 200:
        raise Skip
    data = PointPattern(c["pts"]) if c["form"] == "pp" else make(c["pts"], c["form"])
    m = HexagonM(data, L)
    t = m.point_location_sta()
    if m.num != len(t):
        return f"num is {m.num}, the table has {len(t)} cells"
    if sum(t.values()) != len(p):
        return f"counts add up to {sum(t.values())} for {len(p)} points"
    S = L * math.cos(math.pi / 6)
    lo = p.min(0)
    cc = m.count_column
    cells = {}
    for k in t:
        ix, iy = k % cc, k // cc
        cells[k] = (lo[0] + ix * 1.5 * L, lo[1] + (2 * iy + (ix % 2)) * S)
    eps = 1e-7 * max(1, abs(p).max())
    ks = list(cells)
    cx = np.array([cells[k] for k in ks])
    may = np.zeros(len(ks), int)
    must = np.zeros(len(ks), int)
    for q in p:
        dx, dy = abs(q[0] - cx[:, 0]), abs(q[1] - cx[:, 1])
        ins = (dy <= S + eps) & (dx * math.sqrt(3) / 2 + dy / 2 <= S + eps)
        if not ins.any():
            return f"no cell's hexagon contains the point {q.tolist()}"
        may += ins
        if ins.sum() == 1:
            must += ins
    for i, k in enumerate(ks):
        if not must[i] <= t[k] <= may[i]:
            return f"cell {k} counts {t[k]}; its closed hexagon holds {may[i]} points, {must[i]} of them in no other cell"
    return None
