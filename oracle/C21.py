from base import *
import pointpats.centrography as cg
from pointpats import geometry as G
RULE = "patterns (grids, duplicates, offsets, lines for boxes) in every container; rectangle against coordinate extremes, hulls by cross products"
SHRINK = ["pts"]


def gen(r):
    return {"pts": r.coords(r.n(1)), "form": r.form(), "angle": r.flag(), "int": r.flag(.25)}


def check(c):
    p = np.asarray(c["pts"], float)
    if len(p) == 0:
        raise Skip
    geo = c["form"][0] == "g"
    dt = int if c["int"] and is_integral(c["pts"]) else float
    d = make(c["pts"], c["form"], dt)
    want = np.array([*p.min(0), *p.max(0)])
    mbr = cg.minimum_bounding_rectangle(d)
    got = np.asarray(mbr.bounds if geo else mbr, float)
    if not (got.shape == (4,) and (got == want).all()):
        return f"minimum_bounding_rectangle {got} != {want}"
    if not geo:
        bb = np.asarray(G.bbox(d))
        if len(p) > 1 and not (bb.shape == (4,) and (bb == want).all()):
            return f"bbox {bb} != {want}"
    if len(p) < 3:
        return None
    q = p - p.mean(0)
    ev = np.linalg.eigvalsh(q.T @ q)
    if ev[1] <= 0 or math.sqrt(max(ev[0], 0) / ev[1]) < 1e-4:
        return None
    scale = max(1.0, abs(p).max())
    h = cg.hull(d)
    h = np.asarray(h.exterior.coords)[:-1] if geo else np.asarray(h, float)
    rows = {tuple(x) for x in p.tolist()}
    if h.ndim != 2 or len(h) < 3:
        return f"hull has shape {h.shape}"
    for v in h.tolist():
        if tuple(v) not in rows:
            return f"hull vertex {v} is not a point of the pattern"
    m = outside(h, p)
    if m > 1e-9 * scale:
        return f"a point lies {m} outside the hull"
    res = cg.minimum_rotated_rectangle(d, return_angle=c["angle"])
    if c["angle"]:
        if not (isinstance(res, tuple) and len(res) == 2 and 0 <= res[1] < 90.0000001):
            return f"minimum_rotated_rectangle angle {res[1:]}"
        res, ang = res
    rect = np.asarray(res.exterior.coords)[:-1] if geo else np.asarray(res, float)
    if rect.shape != (4, 2):
        return f"minimum_rotated_rectangle has shape {rect.shape}"
    if c["angle"]:
        e = rect[1] - rect[0]
        a = math.degrees(math.atan2(e[1], e[0])) % 90
        # GEOS computes the corners by intersecting lines in absolute coordinates: their error grows with scale^2
        tol = 1e-3 + math.degrees(20 * 2.3e-16 * scale * scale / min(math.hypot(*(rect[(k + 1) % 4] - rect[k])) or 1e-300 for k in range(4)))
        if min(abs(a - ang), 90 - abs(a - ang)) > tol:
            return f"minimum_rotated_rectangle angle {ang}, its side has {a}"
    m = outside(rect, p)
    if m > 1e-7 * scale:
        return f"a point lies {m} outside the minimum rotated rectangle"
    e = [rect[(k + 1) % 4] - rect[k] for k in range(4)]
    if any(abs(e[k] @ e[(k + 1) % 4]) > 1e-6 * scale * scale for k in range(4)):
        return "minimum_rotated_rectangle is not a rectangle"
    return None


def outside(h, p):
    """largest distance of a point of p outside the convex ring h (either orientation)"""
    e = np.roll(h, -1, axis=0) - h
    area = (h[:, 0] * np.roll(h[:, 1], -1) - h[:, 1] * np.roll(h[:, 0], -1)).sum()
    s = 1 if ((h - h.mean(0))[:, 0] * np.roll((h - h.mean(0))[:, 1], -1) - (h - h.mean(0))[:, 1] * np.roll((h - h.mean(0))[:, 0], -1)).sum() >= 0 else -1
    ln = np.hypot(e[:, 0], e[:, 1])
    ok = ln > 0
    d = s * (e[ok, 0][:, None] * (p[None, :, 1] - h[ok, 1][:, None]) - e[ok, 1][:, None] * (p[None, :, 0] - h[ok, 0][:, None])) / ln[ok][:, None]
    return float(-d.min())
