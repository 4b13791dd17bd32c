from base import *
import pointpats.centrography as cg
RULE = "patterns of 3..n points not on one line (obtuse, right-angled, co-circular, grid, duplicates); the circle is compared with the exact minimal circle found by enumerating pairs and triples of hull points"
SHRINK = ["pts"]


def gen(r):
    n = r.n(3, cap=200)
    u = r.i(0, 6)
    if u == 0:
        k = r.i(4, 12)
        p = [[math.cos(2 * math.pi * i / k) * 5 + 3, math.sin(2 * math.pi * i / k) * 5 - 2] for i in range(k)]
        p = [p[i] for i in r.r.permutation(k)[: max(3, r.i(3, k))]]
    elif u == 1:
        p = r.coords(3)
    elif u == 6:  # a vertex almost on the line of its neighbours
        a = r.coords(2, "float")
        t = float(r.r.uniform(.05, .95))
        o = 10 ** float(r.r.uniform(-9, -3)) * (1 if r.flag() else -1)
        d = [a[1][0] - a[0][0], a[1][1] - a[0][1]]
        p = a + [[a[0][0] + t * d[0] - o * d[1], a[0][1] + t * d[1] + o * d[0]]] + r.coords(r.i(1, 3), "float")
    elif u == 2:
        a = r.coords(2)
        p = a + [[a[0][0] + .3 * (a[1][0] - a[0][0]) + .01, a[0][1] + .3 * (a[1][1] - a[0][1]) - .02]] + a[:1]
    else:
        p = r.coords(n)
    return {"pts": p, "form": r.form(), "int": r.flag(.2)}


def circ3(a, b, c):
    ax, ay, bx, by, cx, cy = *a, *b, *c
    bx, by, cx, cy = bx - ax, by - ay, cx - ax, cy - ay
    d = 2 * (bx * cy - by * cx)
    if abs(d) < 1e-12 * (abs(bx) + abs(by) + abs(cx) + abs(cy)) ** 2:
        return None
    ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d
    uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d
    return ax + ux, ay + uy, math.hypot(ux, uy)


def welzl(pts):
    """incremental minimal circle"""
    P = [tuple(p) for p in pts]

    def inside(c, p):
        return math.hypot(p[0] - c[0], p[1] - c[1]) <= c[2] * (1 + 1e-10) + 1e-12

    def two(a, b):
        return ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2, math.hypot(a[0] - b[0], a[1] - b[1]) / 2)
    c = (P[0][0], P[0][1], 0.0)
    for i, p in enumerate(P):
        if inside(c, p):
            continue
        c = (p[0], p[1], 0.0)
        for j in range(i):
            if inside(c, P[j]):
                continue
            c = two(p, P[j])
            for k in range(j):
                if inside(c, P[k]):
                    continue
                c = circ3(p, P[j], P[k]) or c
    return c


def check(c):
    p = np.asarray(c["pts"], float)
    if len(p) < 3:
        raise Skip
    q = p - p.mean(0)
    ev = np.linalg.eigvalsh(q.T @ q)
    if ev[1] <= 0 or math.sqrt(max(ev[0], 0) / ev[1]) < 1e-4:
        raise Skip  # on one line
    dt = int if c["int"] and is_integral(c["pts"]) and c["form"][0] != "r" else float
    got = cg.minimum_bounding_circle(make(c["pts"], c["form"], dt))
    scale = max(1.0, abs(p).max())
    best = welzl(np.unique(p, axis=0)[np.random.default_rng(0).permutation(len(np.unique(p, axis=0)))].tolist())
    if c["form"][0] == "g":
        ct = got.centroid
        e = np.asarray(got.exterior.coords)
        rad = np.hypot(e[:, 0] - ct.x, e[:, 1] - ct.y).max()
        cx, cy, tol = ct.x, ct.y, 2e-3
    else:
        (cx, cy), rad = got
        tol = 1e-6
    far = np.hypot(p[:, 0] - cx, p[:, 1] - cy).max()
    eps = tol * best[2] + 1e-9 * scale
    if far > rad + eps:
        return f"a point lies {far - rad} outside the circle ({cx}, {cy}) r={rad}"
    if abs(rad - best[2]) > eps:
        return f"radius {rad} but a circle of radius {best[2]} contains all points"
    return None
