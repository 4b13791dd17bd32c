from base import *
import pointpats.distance_statistics as ds
from C06 import support, mk_support, grid, mmat, nn
RULE = "patterns x supports x precomputed (G, F) distance vectors, truncate on/off; J compared with (1-G)/(1-F) evaluated by f and g on the same distances, cut at the first nan/inf"
SHRINK = ["pts"]


def gen(r):
    n = r.n(2, cap=60)
    return {"pts": r.area2(n), "form": r.form(), "sup": support(r), "given": r.flag(.7), "trunc": r.flag(), "fd": [float(x) for x in (r.r.integers(0, 9, r.i(1, 12)) / 2 if r.flag() else r.r.random(r.i(1, 20)) * r.pick(.3, 1, 10))], "seed": r.seed()}


def check(c):
    p = np.asarray(c["pts"], float)
    if len(p) < 2:
        raise Skip
    d1 = nn(p, "euclidean")
    sup = grid(c["sup"], float(d1.max()))
    if len(sup) < 2 or not (np.diff(sup) > 0).all():
        raise Skip
    fd = np.asarray(c["fd"], float)
    data = make(c["pts"], c["form"])
    kw = dict(support=mk_support(c["sup"]))
    if ((d1 >= sup[0]) & (d1 <= sup[-1])).sum() == 0:
        raise Skip
    if c["given"]:
        if ((fd >= sup[0]) & (fd <= sup[-1])).sum() == 0:
            raise Skip
        _, F = ds.f(data, distances=fd, **kw)
        s, G = ds.g(data, distances=d1, **kw)
        js, jv = ds.j(data, distances=(d1, fd), truncate=c["trunc"], **kw)
    else:
        with recording(ds, "poisson") as rec, np.errstate(all="ignore"):
            js, jv = ds.j(data, truncate=c["trunc"], **kw)
        if len(rec) != 1:
            raise Skip
        rec = {"r": rec[0][2]}
        fd = mmat(rec["r"], p, "euclidean").min(1)
        if ((fd >= sup[0]) & (fd <= sup[-1])).sum() == 0:
            raise Skip
        _, F = ds.f(data, distances=fd, **kw)
        s, G = ds.g(data, **kw)
        if any(abs(x - y) < 1e-9 * max(1, x) for x in sup[1:] for y in fd):
            raise Skip
    F, G = np.asarray(F), np.asarray(G)
    with np.errstate(all="ignore"):
        want = np.where((F == 1) & (G == 1), np.nan, (1 - G) / (1 - F))
    cut = len(want)
    if c["trunc"]:
        bad = [k for k in range(len(want)) if not math.isfinite(want[k])]
        cut = bad[0] if bad else cut
    if len(js) != cut or len(jv) != cut:
        return f"J returns {len(js)} support values and {len(jv)} values, expected {cut} (truncate={c['trunc']})"
    if not close(js, sup[:cut]) and cut:
        return f"J support {js} != {sup[:cut]}"
    if not np.allclose(np.asarray(jv, float), want[:cut], rtol=1e-9, atol=1e-12, equal_nan=True):
        return f"J = {jv}, (1-G)/(1-F) = {want[:cut]}"
    return None
