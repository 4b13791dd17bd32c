from base import *
from pointpats import geometry as G
import shapely
from scipy.spatial import ConvexHull
from sim import gen_hull, mk_hull
RULE = "boxes, arrays, polygons, multipolygons, hulls x area/bbox/contains (corners, edges, interior, exterior)/centroid/prepare_hull"
SHRINK = []


def gen(r):
    a, b = sorted([r.i(-9, 9), r.i(-9, 9)]), sorted([r.i(-9, 9), r.i(-9, 9)])
    b1 = [a[0], b[0], a[1], b[1]]
    if r.flag(.5):
        b1 = [x / 4 for x in b1]
    return {"box": b1, "int": r.flag(.3), "flip": r.flag(.1), "hull": gen_hull(r), "q": [[r.pick(b1[0], b1[2], (b1[0] + b1[2]) / 2, b1[0] - .5, b1[2] + .25), r.pick(b1[1], b1[3], (b1[1] + b1[3]) / 2, b1[1] - .5, b1[3] + .25)] for _ in range(8)], "pts": r.coords(r.n(3, cap=40))}


def check(c):
    b = np.array(c["box"], float)
    if c["int"] and all(float(x).is_integer() for x in c["box"]):
        b = b.astype(int)
    if c["flip"]:
        b2 = b[[2, 1, 0, 3]]
        if abs(float(G.area(b2)) - abs((b2[2] - b2[0]) * (b2[3] - b2[1]))) > 1e-12:
            return "area of a box with exchanged sides"
    x0, y0, x1, y1 = (float(v) for v in b)
    if float(G.area(b)) != (x1 - x0) * (y1 - y0):
        return f"area {G.area(b)} of box {b.tolist()}"
    if not np.array_equal(np.asarray(G.bbox(b)), b):
        return f"bbox of box {b.tolist()} is {G.bbox(b)}"
    for x, y in c["q"]:
        if bool(G.contains(b, x, y)) != (x0 <= x <= x1 and y0 <= y <= y1):
            return f"contains(box {b.tolist()}, {x}, {y}) is {G.contains(b, x, y)}"
    m = np.asarray(G.centroid(b), float)
    if m.shape != (2,) or not close(m, [(x0 + x1) / 2, (y0 + y1) / 2]):
        return f"centroid of box {b.tolist()} is {m}"
    if G.prepare_hull(np.zeros((3, 2)), b) is not b:
        return "a box does not pass through prepare_hull unchanged"
    p = np.asarray(c["pts"], float)
    want = [*p.min(0), *p.max(0)]
    for nm, v in (("bbox", G.bbox(p)), ("bbox of a list", G.bbox(c["pts"])) if len(p) != 4 or True else (0, 0), ("prepare_hull(None)", G.prepare_hull(p)), ("prepare_hull('bbox')", G.prepare_hull(p, "bbox"))):
        if not close(v, want, 0, 0):
            return f"{nm} of the points is {v}, not {want}"
    if not close(G.centroid(p), p.mean(0)):
        return f"centroid of points {G.centroid(p)}"
    h = c["hull"]
    H = mk_hull(h)
    if h["kind"] in ("poly", "nonconvex", "multi", "hole"):
        if G.prepare_hull(p, H) is not H:
            return "a polygon does not pass through prepare_hull unchanged"
        if not close(G.area(H), H.area) or not close(G.bbox(H), H.bounds) or not close(G.centroid(H), [H.centroid.x, H.centroid.y]):
            return f"area, bbox or centroid of a {h['kind']} polygon"
        bb = H.bounds
        for k in range(30):
            x, y = bb[0] + (bb[2] - bb[0]) * ((k * 7) % 30 + .37) / 30, bb[1] + (bb[3] - bb[1]) * ((k * 11) % 30 + .61) / 30
            q = shapely.Point(x, y)
            if H.boundary.distance(q) > 1e-9 and bool(G.contains(H, x, y)) != bool(H.covers(q)):
                return f"contains(polygon, {x}, {y}) is wrong"
    elif h["kind"] == "convex":
        if G.prepare_hull(p, H) is not H:
            return "a convex hull does not pass through prepare_hull unchanged"
        v = np.asarray(h["pts"])
        if not close(G.area(H), H.volume) or not close(G.bbox(H), [*v.min(0), *v.max(0)], 0, 0) or not close(G.centroid(H), v[H.vertices].mean(0)):
            return "area, bbox or centroid of a convex hull"
        for k in range(12):
            q = v.min(0) + np.ptp(v, axis=0) * [((k * 5) % 12 + .3) / 12, ((k * 7) % 12 + .4) / 12]
            s = (q @ H.equations[:, :2].T + H.equations[:, 2]).max()
            if abs(s) > 1e-9 and bool(G.contains(H, q[0], q[1])) != (s < 0):
                return f"contains(convex hull, {q}) is wrong"
    if len(p) >= 3 and np.linalg.svd(p - p.mean(0))[1][1] > 1e-4 * max(1, abs(p).max()):
        k = G.prepare_hull(p, "convex")
        if not isinstance(k, ConvexHull) or not np.array_equal(k.points, p):
            return "prepare_hull('convex')"
    return None
