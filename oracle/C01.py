from sim import *
RULE = "hull kinds x generator x size/intensity form x parameters x seed; every point of every replication is tested against the hull, shape against the request"
SHRINK = []


def gen(r):
    return gen_call(r)


def check(c):
    H = mk_hull(c["hull"])
    n, R, shape = expected(c, H)
    if c["fn"].startswith("cluster") and n < c["kw"]["n_seeds"]:
        raise Skip
    a = np.asarray(call(c, H))
    if a.shape != shape:
        return f"{c['fn']} returned shape {a.shape}, {n} observations and {R} replications were requested"
    q = a.reshape(-1, 2)
    if not np.isfinite(q).all():
        return f"{c['fn']} returned a coordinate that is not finite"
    i = inside(c["hull"], H, q)
    if i is not None:
        return f"{c['fn']} returned {q[i].tolist()} outside the {c['hull']['kind']} hull"
    return None
