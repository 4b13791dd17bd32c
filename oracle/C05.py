from st import *
import pointpats as pp_
import pointpats.centrography as cg
import pointpats.distance_statistics as ds
import pointpats.random as rnd
import pointpats.spacetime as sp
from pointpats import geometry as G, PointPattern, QStatistic, RectangleM, HexagonM, Knox, KnoxLocal
from pointpats.window import as_window, poly_from_bbox
import shapely
RULE = "every public statistic, test, constructor and simulator x argument kinds; a deep snapshot of each argument is compared after the call"
SHRINK = []
FNS = ["mean_center", "weighted_mean_center", "manhattan_median", "std_distance", "euclidean_median", "ellipse", "hull", "mbr", "mrr", "mbc", "dtot",
       "f", "g", "k", "l", "j", "f_test", "g_test", "k_test", "l_test", "j_test", "rect", "hex", "q", "knox", "mantel", "jacquez", "modified_knox", "Knox", "KnoxLocal", "Knox_df", "KnoxLocal_df",
       "PP", "PP_df", "PP_knn", "PP_ops", "PP_marks", "poisson", "normal", "cluster_poisson", "cluster_normal", "strauss", "bbox", "contains", "prepare_hull", "centroid", "k_neighbors", "window", "hotspots", "kde", "dist_j"]


def gen(r):
    n = r.n(5, big=False, cap=25)
    return {"fn": r.pick(*FNS), "pts": r.area2(n, r.pick("float", "grid", "unit", "quarter", "sym")), "t": [float(x) for x in r.r.integers(0, 6, n)], "w": [float(x) for x in r.r.integers(1, 5, n)],
            "form": r.pick("array", "array", "list", "gs", "gdf", "fortran", "view"), "seed": r.seed(), "kd": r.flag()}


def cases(c):
    p = c["pts"]
    a = np.asarray(p, float)
    n = len(a)
    lo, hi = a.min(0), a.max(0)
    d = make(p, c["form"])
    arr = make(p, c["form"] if c["form"] in ("array", "fortran", "view") else "array")
    w = np.asarray(c["w"]) if c["kd"] else list(c["w"])
    t = np.asarray(c["t"]).reshape(-1, 1)
    sup = np.linspace(0, float(np.ptp(a)) + 1, 5)
    D = dmat(a)
    box = np.array([lo[0], lo[1], hi[0], hi[1]])
    fn = c["fn"]
    centre = shapely.Point(1, 2) if c["form"][0] == "g" else np.array([1.0, 2.0]) if isinstance(d, np.ndarray) else [1.0, 2.0]
    simple = {"mean_center": cg.mean_center, "manhattan_median": cg.manhattan_median, "std_distance": cg.std_distance, "euclidean_median": cg.euclidean_median, "hull": cg.hull,
              "mbr": cg.minimum_bounding_rectangle, "mrr": cg.minimum_rotated_rectangle, "mbc": cg.minimum_bounding_circle}
    if fn in simple:
        return [d], {}, simple[fn]
    if fn == "weighted_mean_center":
        return [d, w], {}, cg.weighted_mean_center
    if fn == "ellipse":
        return [d, w], {"method": "yuill" if c["kd"] else "crimestat"}, cg.ellipse
    if fn == "dtot":
        return [centre, d], {}, cg.dtot
    if fn in ("f", "g", "k", "l"):
        kw = {"support": sup}
        if c["kd"]:
            kw["distances"] = D if fn != "k" else D[np.triu_indices(n, 1)]
        return [d], kw, getattr(ds, fn)
    if fn in ("j", "dist_j"):
        E = D + np.diag([np.inf] * n)
        E[np.isinf(E)] = 1e9
        kw = {"support": sup, "distances": (E.min(1), np.abs(np.sin(np.arange(9.0))) * hi.max())}
        return [d], kw, ds.j
    if fn.endswith("_test"):
        return [arr if c["form"] == "list" else d], {"support": sup, "hull": box, "n_simulations": 2, "n_jobs": 1, "keep_simulations": True}, getattr(ds, fn)
    if fn == "rect":
        return [d], {"count_column": 2}, lambda *a, **k: RectangleM(*a, **k).point_location_sta()
    if fn == "hex":
        return [d, float(np.ptp(a)) / 3 + .1], {}, lambda *a, **k: HexagonM(*a, **k).point_location_sta()
    if fn == "q":
        return [d], {"nx": 2, "ny": 2, "realizations": 2, "rng": 3, "window": shapely.box(*box)}, QStatistic
    if fn in ("knox", "modified_knox"):
        return [arr, t, 2.0, 1.0], {"permutations": 3}, getattr(sp, fn)
    if fn == "mantel":
        return [arr, t], {"permutations": 3}, sp.mantel
    if fn == "jacquez":
        return [arr, t, 2], {"permutations": 3}, sp.jacquez
    if fn in ("Knox", "KnoxLocal"):
        return [arr, t, 2.0, 1.0], {"permutations": 3, "keep": True}, getattr(pp_, fn)
    if fn in ("Knox_df", "KnoxLocal_df"):
        import geopandas as gpd
        g = gpd.GeoDataFrame({"when": c["t"], "z": range(n)}, geometry=gpd.points_from_xy(a[:, 0], a[:, 1]), crs=3857, index=[3 * i + 1 for i in range(n)])
        return [g, "when", 2.0, 1.0], {"permutations": 3}, getattr(pp_, fn[:-3]).from_dataframe
    if fn == "hotspots":
        ids = [f"e{i}" for i in range(n)]

        def hs(s, t_, ids_):
            k = KnoxLocal(s, t_, 3.0, 2.0, permutations=9, ids=ids_)
            before = snap(k.adjlist), snap(k._gdf), snap(k.p_sims)
            if len(k.adjlist) and (k.p_hypergeom <= .99).any():
                k.hotspots(crit=.99, inference="analytic")
            if (snap(k.adjlist), snap(k._gdf), snap(k.p_sims)) != before:
                raise AssertionError("hotspots() changed the fitted object")
        return [arr, t, ids], {}, hs
    if fn == "PP":
        rows = [q + [i] for i, q in enumerate(p)]
        return [rows if c["kd"] else np.array(rows)], {"names": ["x", "y", "m"], "coord_names": ["x", "y"]} if c["kd"] else {"coord_names": ["a", "b"]}, read_all
    if fn == "PP_df":
        import pandas as pd
        f = pd.DataFrame({"x": a[:, 0], "y": a[:, 1], "m": range(n)})
        return [f], {"names": ["x", "y", "m"]}, lambda *a, **k: PointPattern(*a, **k).n
    if fn == "PP_knn":
        return [arr], {}, lambda x: (lambda q: (q.knn(2), q.nnd, q.min_nnd, q.find_pairs(2.0), q.knn_other(q, 1)))(PointPattern(x))
    if fn == "PP_ops":
        rows = [q + [i % 2] for i, q in enumerate(p)]
        return [rows, rows[:2]], {}, pp_ops
    if fn == "PP_marks":
        marks = [list(range(n)), list(c["w"])]
        return [arr, marks, ["u", "v"]], {}, lambda x, m, nm: PointPattern(x).add_marks(m, nm)
    if fn in ("poisson", "normal", "strauss", "cluster_normal"):
        kw = {"size": (4, 2), "rng": c["seed"]}
        h = box.copy() if c["kd"] else (arr if fn != "strauss" else box)
        if fn == "normal":
            kw.update(center=np.array([(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2]), cov=np.diag((hi - lo) ** 2 / 4))
        if fn == "strauss":
            kw.update(size=3, n_iter=40, max_iter=50, gamma=1.0)
        return [h], kw, getattr(rnd, fn)
    if fn == "cluster_poisson":
        m = float(min(hi - lo))
        return [box], {"size": (6, 2), "n_seeds": 2, "cluster_radius": [m / 3, m / 4] if c["kd"] else np.array([m / 3, m / 4]), "rng": c["seed"]}, rnd.cluster_poisson
    if fn == "bbox":
        return [arr], {}, G.bbox
    if fn == "contains":
        return [box, 1.0, 2.0], {}, G.contains
    if fn == "prepare_hull":
        return [arr, box if c["kd"] else "convex"], {}, G.prepare_hull
    if fn == "centroid":
        return [arr], {}, G.centroid
    if fn == "k_neighbors":
        return [arr], {}, lambda x: G.k_neighbors(G.build_best_tree(x, "euclidean"), x, 2)
    if fn == "window":
        return [list(map(float, box))], {}, lambda b: as_window(poly_from_bbox(b)).filter_contained([(1, 2), (3, 4)])
    if fn == "kde":
        return [arr if c["form"] != "gdf" else make(p, "gdf"), 1.0], {"resolution": 8}, kde
    raise Skip


def kde(d, bw, **k):
    import matplotlib.pyplot as plt
    from pointpats import plot_density
    try:
        plot_density(d, bw, **k)
    finally:
        plt.close("all")


def read_all(*a, **k):
    q = PointPattern(*a, **k)
    for nm in ("n", "mbb", "mbb_area", "hull", "hull_area", "lambda_mbb", "lambda_window", "rot"):
        getattr(q, nm)
    q.unique()


def pp_ops(rows, rows2):
    q, q2 = PointPattern(rows), PointPattern(rows2)
    b = snap(q.df), snap(q2.df), snap(q.points), list(q.coord_names)
    q.explode("mark_0"), q.unique(), q.superimpose(q2), ((1.0, 2.0) in q)
    if (snap(q.df), snap(q2.df), snap(q.points), list(q.coord_names)) != b:
        raise AssertionError("a set operation changed its pattern")


def check(c):
    a = np.asarray(c["pts"], float)
    if len(a) < 5 or np.linalg.svd(a - a.mean(0))[1][1] < 1e-3 * max(1, abs(a).max()):
        raise Skip
    args, kw, f = cases(c)
    base_ = [x.base if isinstance(x, np.ndarray) and x.base is not None else None for x in args]
    before = [snap(x) for x in args], {k: snap(v) for k, v in kw.items()}, [snap(b) if isinstance(b, np.ndarray) else 0 for b in base_]
    np.random.seed(c["seed"] % 2**32)
    from sim import limit
    err = None
    with np.errstate(all="ignore"), limit(6):
        try:
            f(*args, **kw)
        except AssertionError as e:
            if "changed" in str(e):
                return str(e)
            err = e
        except Exception as e:
            if isinstance(e, Skip):
                raise
            err = e
    after = [snap(x) for x in args], {k: snap(v) for k, v in kw.items()}, [snap(b) if isinstance(b, np.ndarray) else 0 for b in base_]
    for i, (x, y) in enumerate(zip(before[0], after[0])):
        if x != y:
            return f"{c['fn']} changed its argument {i}"
    for k in before[1]:
        if before[1][k] != after[1][k]:
            return f"{c['fn']} changed its argument {k}"
    if before[2] != after[2]:
        return f"{c['fn']} wrote outside the view it was given"
    if err is not None:
        raise Skip
    return None
