from base import *
import pointpats.centrography as cg
RULE = "random patterns of 3..n points (axis-aligned, symmetric, collinear, offset) x method x flags x weights; the ellipse is compared with numpy's eigen decomposition"
SHRINK = ["pts", "w"]
FIXED = [{"pts": [[0, 0], [4, 0], [4, 2], [0, 2]], "w": None, "method": m, "cc": a, "df": b, "form": "array"} for m in ("crimestat", "yuill") for a in (True, False) for b in (True, False)] + \
        [{"pts": [[0, 0], [2, 0], [2, 4], [0, 4]], "w": None, "method": "yuill", "cc": False, "df": False, "form": "array"}]


def gen(r):
    n = r.n(3)
    return {"pts": r.coords(n), "w": None if r.flag(.4) else [float(x) for x in (r.r.integers(1, 6, n) if r.flag() else r.r.random(n) + .05)],
            "method": r.pick("crimestat", "yuill", "CrimeStat", "YUILL"), "cc": r.flag(), "df": r.flag(), "form": r.form()}


def check(c):
    p = np.asarray(c["pts"], float)
    n = len(p)
    if n < 3:
        raise Skip
    w = np.ones(n) if c["w"] is None else np.asarray(c["w"])
    m = (p * w[:, None]).sum(0) / w.sum()
    q = p - m
    cov = (q * w[:, None]).T @ q / w.sum()
    ev, vec = np.linalg.eigh(cov)
    if c["method"].lower() == "crimestat":
        fac = 2 * n / (n - 2)
    else:
        fac = (2 if c["cc"] else 1) * (n / (n - 2) if c["df"] else 1)
    big, small = math.sqrt(max(ev[1], 0) * fac), math.sqrt(max(ev[0], 0) * fac)
    scale = max(1.0, abs(p).max())
    d = make(c["pts"], c["form"])
    wa = None if c["w"] is None else (list(c["w"]) if c["form"] in ("list", "array") else np.asarray(c["w"]))
    got = cg.ellipse(d, weights=wa, method=c["method"], crimestatCorr=c["cc"], degfreedCorr=c["df"])
    if big < 1e-6 * scale:
        raise Skip
    if c["form"][0] == "g":
        # the polygon is the unit circle about the weighted centre scaled and turned
        if abs(np.array([got.bounds[0] + got.bounds[2], got.bounds[1] + got.bounds[3]]) / 2 - m).max() > 1e-6 * scale + 1e-3 * big:
            return f"ellipse polygon centred in {got.bounds}, not {m}"
        e = np.asarray(got.exterior.coords) - m
        r = np.hypot(e[:, 0], e[:, 1])
        if abs(r.max() - big) > 2e-2 * big + 1e-6 * scale:
            return f"ellipse polygon extends {r.max()}, major semi-axis is {big}"
        if (big - small) > 0.05 * big:
            u = e[r.argmax()] / r.max()
            if abs(u[0] * vec[0, 1] + u[1] * vec[1, 1]) < 0.97:
                return "ellipse polygon is not turned to the major axis"
        return None
    a, b, th = (float(v) for v in got)
    if abs(a - big) > 1e-6 * big + 1e-7 * scale or abs(b - small) > 1e-6 * big + 1e-7 * scale * (1 + (big / max(small, 1e-9)) ** .5):
        if abs(a * a - big * big) > 1e-6 * big * big + 1e-7 * scale * big or abs(b * b - small * small) > 1e-6 * big * big + 1e-7 * scale * big:
            return f"axes ({a}, {b}) != ({big}, {small})"
    if big - small > 1e-3 * big + 1e-5 * scale:
        u = np.array([math.cos(th), math.sin(th)])
        if abs(u @ vec[:, 1]) < 1 - 1e-4:
            return f"rotation {th} is not the direction of the major axis {vec[:, 1]}"
    return None
