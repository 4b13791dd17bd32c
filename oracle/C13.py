from base import *
from pointpats import QStatistic, PointPattern, RectangleM, HexagonM
import pointpats.quadrat_statistics as qs
RULE = "patterns x grid shape and size x realizations (0, 1, several) x windows; chi-square, contributions, df and simulated p-value recomputed from the count tables (the grids used for the realizations are recorded)"
SHRINK = []


def gen(r):
    p = r.area2(r.n(2, cap=120))
    w = np.ptp(np.asarray(p), axis=0)
    sh = r.pick("rectangle", "hexagon")
    return {"pts": p, "form": r.pick(r.form(), "pp"), "shape": sh, "nx": r.i(1, 6), "ny": r.i(1, 6), "wh": [float(w[0] / 2.3), float(w[1] / 3.1)] if r.flag(.25) else None,
            "lh": float(w.max() * r.pick(.1, .3, .6, 1.5)), "R": r.pick(0, 1, 2, 3, 5, 9), "seed": r.seed(), "win": r.flag(.3)}


def check(c):
    p = np.asarray(c["pts"], float)
    if len(p) < 2 or (np.ptp(p, axis=0) <= 1e-9).any():
        raise Skip
    import shapely
    data = PointPattern(c["pts"]) if c["form"] == "pp" else make(c["pts"], c["form"])
    kw = dict(shape=c["shape"], nx=c["nx"], ny=c["ny"], lh=c["lh"], realizations=c["R"], rng=c["seed"])
    if c["wh"]:
        kw.update(rectangle_width=c["wh"][0], rectangle_height=c["wh"][1])
    if c["win"]:
        lo, hi = p.min(0), p.max(0)
        kw["window"] = shapely.box(lo[0] - 1, lo[1] - 1, hi[0] + 1, hi[1] + 1)
        if np.prod(hi - lo + 2) > 50 * np.prod(hi - lo):
            raise Skip
    made = []
    cls = "RectangleM" if c["shape"] == "rectangle" else "HexagonM"
    orig = getattr(qs, cls)
    if isinstance(orig, type):
        class Spy(orig):
            def point_location_sta(self):
                o = super().point_location_sta()
                made.append((self, dict(o)))
                return o
        Spy.__name__ = orig.__name__
        setattr(qs, cls, Spy)
    try:
        q = QStatistic(data, **kw)
    except (KeyError, ValueError):
        if c["R"] and len(p) < 3:
            raise Skip
        raise
    finally:
        setattr(qs, cls, orig)
    t = q.mr.point_location_sta()
    o = np.array(list(t.values()), float)
    if o.sum() != len(p):
        return "counts do not add up"
    e = o.mean()
    chi = ((o - e) ** 2).sum() / e
    if not close(q.chi2, chi):
        return f"chi2 {q.chi2} != {chi}"
    if q.df != len(o) - 1:
        return f"df {q.df} != {len(o) - 1}"
    if not close(q.chi2_contrib, (o - e) ** 2 / e) or list(q.cell_ids) != list(t.keys()):
        return "chi2_contrib are not the cells' contributions in cell order"
    import scipy.stats
    if len(o) > 1 and not abs(q.chi2_pvalue - scipy.stats.chi2.sf(chi, len(o) - 1)) < 1e-9:
        return f"chi2_pvalue {q.chi2_pvalue}"
    if c["R"]:
        R = c["R"]
        v = np.asarray(q.chi2_realizations, float)
        if v.shape != (R,):
            return f"{v.shape} simulated statistics for {R} realizations"
        pv = (1 + (v >= q.chi2).sum()) / (R + 1)
        if not abs(q.chi2_r_pvalue - pv) < 1e-12:
            return f"chi2_r_pvalue {q.chi2_r_pvalue}, {int((v >= q.chi2).sum())} of {R} simulated statistics are at least as large"
        sims = [m for m in made if m[0] is not q.mr]
        if len(sims) == R:
            for (m, tt), s in zip(sims, v):
                oo = np.array(list(tt.values()), float)
                if oo.sum() and not close(s, ((oo - oo.mean()) ** 2).sum() / oo.mean(), rtol=1e-8):
                    return "a simulated statistic is not the chi-square of its counts"
                if c["shape"] == "rectangle" and (m.count_column, m.count_row) != (q.mr.count_column, q.mr.count_row):
                    return f"a realization is counted on a {m.count_column} x {m.count_row} grid"
                if c["shape"] == "hexagon" and m.h_length != q.mr.h_length:
                    return "a realization is counted on another hexagon size"
    return None
