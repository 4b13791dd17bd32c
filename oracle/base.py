"""Concrete contract evaluation on the real code.

Each property module defines
    gen(r)      -> a JSON case (r is a Gen: seeded source of inputs)
    check(case) -> None, or a sentence saying which clause of the contract failed on this input
The same `check` replays a recorded case.  Used for two things: as the search for a failing input when an
obligation is not discharged, and as the conformance run that compares the code with its contracts on concrete
inputs (bounded; never counted as proved).
"""
import ast
import math
import os
import sys
import warnings

warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np  # noqa: E402


class Skip(Exception):
    """the generated input is outside the property's quantifier"""


_consts = None


def harvested():
    """integer literals of the source tree: sizes worth trying"""
    global _consts
    if _consts is None:
        s = set()
        d = os.path.join(REPO, "pointpats")
        for f in os.listdir(d):
            if f.endswith(".py"):
                try:
                    for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                        if isinstance(n, ast.Constant) and type(n.value) is int and 3 <= n.value <= 700:
                            s.add(n.value)
                except SyntaxError:
                    pass
        _consts = sorted(s)
    return _consts


class Gen:
    def __init__(self, seed, hints=()):
        self.r = np.random.default_rng(seed)
        self.hints = list(hints)

    def i(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def pick(self, *xs):
        return xs[int(self.r.integers(len(xs)))]

    def flag(self, p=0.5):
        return bool(self.r.random() < p)

    def seed(self):
        return int(self.r.integers(2**31))

    def n(self, lo=1, big=True, cap=300):
        u = self.r.random()
        if self.hints and u < 0.3:
            v = int(self.pick(*self.hints)) + self.i(-1, 1)
        elif u < 0.62:
            v = self.i(lo, lo + 7)
        elif u < 0.85 or not big:
            v = self.i(lo, lo + 25)
        elif u < 0.95:
            v = self.i(20, 80)
        elif harvested():
            v = self.pick(*harvested()) + self.i(-1, 1)
        else:
            v = self.i(50, 200)
        return max(lo, min(v, cap))

    def coords(self, n, style=None):
        r = self.r
        style = style or self.pick("grid", "grid", "quarter", "unit", "float", "float", "offset", "neg", "dup", "sym", "round", "tiny", "line")
        if style == "grid":
            m = self.pick(2, 3, 5, 10)
            p = r.integers(0, m + 1, (n, 2)).astype(float)
        elif style == "quarter":
            p = r.integers(-20, 21, (n, 2)) / 4.0
        elif style == "unit":
            p = r.random((n, 2))
        elif style == "float":
            p = r.random((n, 2)) * [self.pick(1, 10, 100), self.pick(1, 10, 100)] + r.integers(-5, 50, 2)
        elif style == "offset":
            p = r.random((n, 2)) * 10 + [self.pick(1e4, 1e5, 1e6), self.pick(-1e5, 1e6)]
        elif style == "neg":
            p = -r.random((n, 2)) * 50 - 1
        elif style == "dup":
            base = r.integers(0, 8, (max(1, n // 2), 2)).astype(float)
            p = base[r.integers(0, len(base), n)]
        elif style == "sym":
            q = r.integers(1, 6, (max(1, (n + 3) // 4), 2)).astype(float)
            p = np.vstack([q, q * [-1, 1], q * [1, -1], -q])[:n]
        elif style == "round":
            p = np.round(r.random((n, 2)) * 10, 1)
        elif style == "tiny":
            p = r.random((n, 2)) * 1e-3
        elif style == "line":
            t = r.integers(0, 12, n).astype(float)
            d = np.array(self.pick((1, 0), (0, 1), (1, 1), (2, -1)), float)
            p = t[:, None] * d + [1, 2]
        return [[float(a), float(b)] for a, b in p]

    def area2(self, n, style=None):
        """coordinates spanning a box of positive width and height"""
        for _ in range(50):
            p = self.coords(n, style if style != "line" else None)
            a = np.ptp(np.asarray(p), axis=0)
            if (a > 1e-6).all():
                return p
        return self.coords(n, "unit") if n > 1 else p

    def form(self, geo=True, lists=True):
        fs = ["array", "array", "fortran", "view", "readonly"]
        if lists:
            fs += ["list", "tuples"]
        if geo:
            fs += ["gs", "gs_idx", "gdf", "gdf_col"]
        return self.pick(*fs)


def is_integral(p):
    return all(float(v).is_integer() for q in p for v in q)


def make(p, form="array", dtype=float, extra=None):
    a = np.asarray(p, dtype=dtype).reshape(-1, 2)
    if form == "array":
        return a
    if form == "list":
        return a.tolist()
    if form == "tuples":
        return [tuple(q) for q in a.tolist()]
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "view":
        b = np.full((len(a) * 2, 4), -777.0).astype(a.dtype)
        b[::2, 1:3] = a
        return b[::2, 1:3]
    if form == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    import geopandas as gpd
    geo = gpd.points_from_xy(a[:, 0], a[:, 1])
    idx = list(range(len(a)))
    if form in ("gs_idx", "gdf_col"):
        idx = [(7 * k + 3) % 1009 for k in idx][::-1]
    if form in ("gs", "gs_idx"):
        return gpd.GeoSeries(geo, index=idx)
    d = gpd.GeoDataFrame({"x": range(len(a)), **(extra or {})}, geometry=geo, index=idx)
    if form == "gdf_col":
        d = d.rename_geometry("place")
    return d


def snap(x):
    """deep snapshot for frame checks"""
    import pandas as pd
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ("df", type(x).__name__, list(map(str, x.columns)), [snap(x[c]) for c in x.columns], list(x.index))
    if isinstance(x, pd.Series):
        vals = [v.wkt if hasattr(v, "wkt") else repr(v) for v in x.values]
        return ("s", type(x).__name__, str(x.name), vals, list(x.index))
    if isinstance(x, dict):
        return ("d", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if hasattr(x, "wkt"):
        return ("g", x.wkt)
    return ("v", repr(x)) if isinstance(x, (int, float, str, bool, type(None), np.generic)) else ("o", id(x))


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def xy(p):
    """coordinates of a Point or array result"""
    if hasattr(p, "x") and hasattr(p, "y"):
        return np.array([p.x, p.y])
    return np.asarray(p, float)


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def dmat(p):
    p = np.asarray(p, float)
    return np.sqrt(((p[:, None, :] - p[None, :, :]) ** 2).sum(-1))


class recording:
    """record what module.name returns while the block runs; nothing is recorded when there is no such name"""

    def __init__(self, module, name):
        self.m, self.n, self.out = module, name, []
        self.orig = getattr(module, name, None)

    def __enter__(self):
        if self.orig is not None:
            def spy(*a, **k):
                o = self.orig(*a, **k)
                self.out.append((a, k, np.array(o)))
                return o
            setattr(self.m, self.n, spy)
        return self.out

    def __exit__(self, *e):
        if self.orig is not None:
            setattr(self.m, self.n, self.orig)
        return False
