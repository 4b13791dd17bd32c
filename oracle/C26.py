from base import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from pointpats import plot_density
RULE = "asymmetric patterns x bandwidth x engine (statsmodels, KDEpy kernels) x resolution (number, tuple, None) x margin; the arguments of contour/contourf are recorded and the density recomputed per grid position"
SHRINK = []


def gen(r):
    return {"pts": r.area2(r.n(4, cap=40), r.pick("float", "unit", "grid", "offset", "quarter")), "form": r.pick("array", "gs", "gdf"), "bw": float(r.pick(.3, 1, 2.5)), "kernel": r.pick(None, None, "gaussian", "tri", "epa"),
            "res": r.pick(8, 9, [7, 12], [12, 5], None), "margin": r.pick(.1, 0, .3), "fill": r.flag()}


def check(c):
    p = np.asarray(c["pts"], float)
    w = np.ptp(p, axis=0)
    if len(p) < 3 or (w <= 1e-6).any():
        raise Skip
    bw = c["bw"] * float(w.max()) / 8
    rec = []
    fig, ax = plt.subplots()
    for nm in ("contour", "contourf"):
        def wrap(*a, _o=getattr(ax, nm), _n=nm, **k):
            rec.append((_n, a))
            return _o(*a, **k)
        setattr(ax, nm, wrap)
    kw = {"fill": c["fill"], "margin": c["margin"], "ax": ax}
    res = tuple(c["res"]) if isinstance(c["res"], list) else c["res"]
    if c["kernel"]:
        kw["kernel"] = c["kernel"]
        if res is None or (isinstance(res, int) and res < 5):
            res = 16
        res = tuple(4 * x for x in res) if isinstance(res, tuple) else 4 * res
    kw["resolution"] = res
    try:
        try:
            out = plot_density(make(c["pts"], c["form"]), bw, return_contourset=True, **kw)
        except ValueError as e:
            if c["kernel"] and ("inside the grid" in str(e) or "must be" in str(e)):
                raise Skip
            raise
    finally:
        plt.close("all")
    if len(rec) != 1:
        raise Skip
    if rec[0][0] != ("contourf" if c["fill"] else "contour"):
        return f"fill={c['fill']} but {rec[0][0]} was drawn"
    X, Y, Z = (np.asarray(x, float) for x in rec[0][1][:3])
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    if not (X.shape == Y.shape == Z.shape):
        return f"grid {X.shape}, {Y.shape} and density {Z.shape} do not match"
    if not (np.allclose(X, X[:1]) and np.allclose(Y, Y[:, :1]) and (np.diff(X[0]) > 0).all() and (np.diff(Y[:, 0]) > 0).all()):
        return "x does not run along the columns or y along the rows"
    xr, yr = (res if isinstance(res, tuple) else (res, res)) if res is not None else (100, 100)
    if Z.shape != (yr, xr):
        return f"grid has {Z.shape[1]} x {Z.shape[0]} positions, resolution {xr} x {yr}"
    lo, hi = p.min(0), p.max(0)
    if not c["kernel"]:
        m = w * c["margin"]
        if not close([X[0, 0], Y[0, 0], X[0, -1], Y[-1, 0]], [*(lo - m), *(hi + m)], atol=1e-9 * max(1, abs(p).max())):
            return f"grid spans {X[0, 0]}..{X[0, -1]}, {Y[0, 0]}..{Y[-1, 0]}"
        want = sum(np.exp(-((X - q[0]) ** 2 + (Y - q[1]) ** 2) / (2 * bw * bw)) for q in p) / (len(p) * 2 * math.pi * bw * bw)
        if not np.allclose(Z, want, rtol=1e-6, atol=1e-9 * want.max()):
            return "density is not the kernel estimate at its grid positions"
    else:
        if X[0, 0] > lo[0] or X[0, -1] < hi[0] or Y[0, 0] > lo[1] or Y[-1, 0] < hi[1]:
            return "the grid does not cover the data"
        from KDEpy import FFTKDE
        grid, v = FFTKDE(bw=bw, kernel=c["kernel"]).fit(p).evaluate(res)
        gx, gy = np.unique(grid[:, 0]), np.unique(grid[:, 1])
        ix = {float(x): i for i, x in enumerate(gx)}
        iy = {float(y): i for i, y in enumerate(gy)}
        W = np.zeros((len(gy), len(gx)))
        for (x, y), d in zip(grid, v):
            W[iy[float(y)], ix[float(x)]] = d
        if not (close(X[0], gx) and close(Y[:, 0], gy)) or not np.allclose(Z, W, rtol=1e-7, atol=1e-12):
            return "density is not the kernel estimate at its grid positions"
    return None
