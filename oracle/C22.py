from base import *
import pandas as pd
from pointpats import PointPattern
from pointpats.window import as_window, poly_from_bbox
RULE = "marked patterns (duplicate rows, column order, coordinate names anywhere, string marks) x operation (explode, unique, superimpose, membership); rows compared as multisets in order"
SHRINK = ["rows"]


def gen(r):
    n = r.n(1, big=False, cap=40)
    m = r.i(0, 2)
    p = r.r.integers(0, r.pick(2, 3, 6), (n, 2)).astype(float).tolist()
    rows = [q + [r.pick("a", "b", "c") if k == 0 and m == 2 else r.i(0, 3) for k in range(m)] for q in p]
    rows2 = [r.pick(*rows) if r.flag() else (r.r.integers(0, 6, 2).astype(float).tolist() + [r.pick("a", "b") if k == 0 and m == 2 else r.i(0, 3) for k in range(m)]) for _ in range(r.i(1, 8))]
    return {"rows": rows, "rows2": rows2, "m": m, "layout": r.pick("default", "named", "swapped", "middle") if m else r.pick("default", "named", "swapped"), "win": r.flag(.4), "op": r.pick("explode", "unique", "super", "in") if m else r.pick("unique", "super", "in")}


def layout(c):
    """(names, coord_names, row permutation) of the column layout"""
    m = c["m"]
    if c["layout"] == "default":
        return None, None, None
    marks = [f"m{k}" for k in range(m)]
    if c["layout"] == "named":
        return ["east", "north"] + marks, ["east", "north"], None
    if c["layout"] == "swapped":
        return ["north", "east"] + marks, ["east", "north"], [1, 0] + list(range(2, 2 + m))
    return [marks[0], "east", "north"] + marks[1:], ["east", "north"], [2, 0, 1] + list(range(3, 2 + m))


def build(rows, c, window=None):
    names, cn, perm = layout(c)
    if perm:
        rows = [[row[i] for i in perm] for row in rows]
    return PointPattern([tuple(r) for r in rows] if c["m"] == 2 else rows, names=names, coord_names=cn, window=window)


def vals(pp):
    return [tuple(str(v) if isinstance(v, str) else float(v) for v in row) for row in pp.df.values.tolist()]


def same_layout(a, b):
    if list(a.df.columns) != list(b.df.columns):
        return f"columns {list(a.df.columns)} != {list(b.df.columns)}"
    if list(a.coord_names) != list(b.coord_names):
        return f"coordinate names {a.coord_names} != {b.coord_names}"
    if not np.array_equal(np.asarray(a.points, float), a.df[list(b.coord_names)].values.astype(float)):
        return "points are not the coordinate columns"
    if a.n != len(a.df) or len(a) != len(a.df):
        return "size is not the number of rows"
    return None


def check(c):
    if not c["rows"]:
        raise Skip
    win = as_window(poly_from_bbox([-1, -1, 9, 9])) if c["win"] else None
    pp = build(c["rows"], c, win)
    names, cn, perm = layout(c)
    xs = [(row[0], row[1]) for row in c["rows"]]
    if not np.array_equal(np.asarray(pp.points, float), np.asarray(xs, float)):
        return "points are not the coordinates given"
    V = vals(pp)
    if c["op"] == "explode":
        mark = [x for x in pp.df.columns if x not in pp.coord_names][-1]
        k = list(pp.df.columns).index(mark)
        parts = pp.explode(mark)
        u = sorted({v[k] for v in V})
        if len(parts) != len(u):
            return f"{len(parts)} patterns for {len(u)} mark values"
        seen = []
        for q in parts:
            m = same_layout(q, pp)
            if m:
                return "explode: " + m
            w = vals(q)
            s = {v[k] for v in w}
            if len(s) != 1:
                return f"an exploded pattern holds mark values {s}"
            if w != [v for v in V if v[k] in s]:
                return "an exploded pattern does not hold its mark's rows in order"
            seen += sorted(s)
        if sorted(seen) != u:
            return f"exploded patterns hold {seen}"
    elif c["op"] == "unique":
        q = pp.unique()
        m = same_layout(q, pp)
        if m:
            return "unique: " + m
        want = list(dict.fromkeys(V))
        if vals(q) != want:
            return f"unique rows {vals(q)} != {want}"
        if c["win"] and q.window is not pp.window:
            return "unique does not keep the window"
        a, b = q.window.bbox, pp.window.bbox
        if list(a) != list(b):
            return f"unique has window {a}, the pattern {b}"
    elif c["op"] == "super":
        p2 = build(c["rows2"], c)
        q = pp.superimpose(p2)
        m = same_layout(q, pp)
        if m:
            return "superimpose: " + m
        want = list(dict.fromkeys(V + vals(p2)))
        if sorted(map(str, vals(q))) != sorted(map(str, want)):
            return f"superimposed rows {vals(q)} != {want}"
    else:
        for a in range(-1, 7):
            for b in range(-1, 7):
                got = (float(a), float(b)) in pp
                if bool(got) != ((a, b) in {(x, y) for x, y in xs}):
                    return f"({a}, {b}) in pattern is {got}"
    if vals(pp) != V:
        return f"{c['op']} changed the pattern"
    return None
