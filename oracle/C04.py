from base import *
import libpysal as ps
from pointpats import PoissonPointProcess, PoissonClusterPointProcess, PointPattern
from pointpats.process import runif_in_circle
from pointpats.window import as_window, poly_from_bbox, Window
from sim import limit
RULE = "windows (boxes, triangles, L-shapes, holes) x process x n, samples, conditioning, asPP, keep; keys, sizes and containment checked, uniform draws in circles"
SHRINK = []


def gen(r):
    if r.flag(.25):
        return {"fn": "circle", "n": r.i(0, 30), "radius": float(r.pick(1, .3, 7, 100)), "center": [float(x) for x in r.pick([0, 0], [5, -3], [1e4, 2])], "seed": r.i(0, 10**6), "burn": r.pick(1, 2, 5)}
    return {"fn": r.pick("poisson", "cluster"), "win": r.pick("box", "tri", "ell", "hole"), "n": r.i(1, 40), "samples": r.i(1, 4), "cond": r.flag(), "asPP": r.flag(), "keep": r.flag(), "parents": r.i(1, 5), "radius": float(r.pick(.5, 1, 3)), "seed": r.i(0, 10**6)}


def window(k):
    if k == "box":
        return as_window(poly_from_bbox([0, 0, 10, 6]))
    if k == "tri":
        return as_window(ps.cg.Polygon([(0, 0), (10, 0), (4, 8), (0, 0)]))
    if k == "hole":
        return Window([[(0, 0), (0, 10), (10, 10), (10, 0), (0, 0)]], [[(3, 3), (6, 3), (6, 6), (3, 6), (3, 3)]])
    return as_window(ps.cg.Polygon([(0, 0), (0, 8), (4, 8), (4, 3), (9, 3), (9, 0), (0, 0)]))


def check(c):
    np.random.seed(c["seed"])
    if c["fn"] == "circle":
        q = runif_in_circle(c["n"], radius=c["radius"], center=tuple(c["center"]), burn=c["burn"])
        q = np.asarray(q)
        if q.shape != (c["n"], 2):
            return f"runif_in_circle returned shape {q.shape} for n={c['n']}"
        d = np.hypot(q[:, 0] - c["center"][0], q[:, 1] - c["center"][1])
        if len(d) and d.max() > c["radius"] * (1 + 1e-9) + 1e-9 * max(map(abs, c["center"])) * 1e-3:
            return f"runif_in_circle returned a point {d.max()} from the centre, radius {c['radius']}"
        return None
    w = window(c["win"])
    with limit(4.0):
        if c["fn"] == "poisson":
            o = PoissonPointProcess(w, c["n"], c["samples"], conditioning=c["cond"], asPP=c["asPP"])
        else:
            if c["n"] < c["parents"]:
                raise Skip
            # int(n / children) parents are drawn: at least one
            o = PoissonClusterPointProcess(w, c["n"], c["parents"], c["radius"], c["samples"], asPP=c["asPP"], keep=c["keep"], conditioning=c["cond"])
    if list(o.realizations) != list(range(c["samples"])):
        return f"realizations are keyed {list(o.realizations)}"
    if list(o.parameters) != list(range(c["samples"])):
        return f"parameters are keyed {list(o.parameters)}"
    for k, v in o.realizations.items():
        if c["asPP"]:
            if not isinstance(v, PointPattern) or v.window is not w:
                return "a realization is not a PointPattern in the window"
            v = v.points.values
        v = np.asarray(v)
        want = o.parameters[k]["n"]
        if not c["cond"] and want != c["n"]:
            return f"parameter of sample {k} is {want}, n is {c['n']}"
        if len(v) != want:
            return f"sample {k} has {len(v)} points, its parameter is {want}"
        if want and v.reshape(len(v), -1).shape[1] != 2:
            return f"sample {k} has shape {v.shape}"
        for q in v.reshape(-1, 2) if want else []:
            if not w.contains_point(ps.cg.shapes.Point((q[0], q[1]))):
                return f"sample {k} has a point {q.tolist()} outside the window"
    if c["cond"] and c["fn"] == "cluster":
        for k in o.parameters:
            if o.parameters[k]["n"] != o.num_parents[k] * o.children:
                return "number of points is not parents x children"
    return None
