from base import *
import shutil
import tempfile
from datetime import date, timedelta
import geopandas as gpd
import pandas as pd
from pointpats import SpaceTimeEvents
RULE = "random point shapefiles written to a scratch folder (date, integer or float column; ties; several columns) and read back"
SHRINK = []


def gen(r):
    n = r.n(1, big=False, cap=30)
    return {"pts": r.coords(n, r.pick("float", "grid", "dup", "neg", "offset")), "d": [int(x) for x in r.r.integers(0, 4000, n)], "v": [int(x) for x in r.r.integers(-50, 900, n)], "col": r.pick("DAY", "NUM", "VAL"), "infer": r.flag()}


def check(c):
    n = len(c["pts"])
    d = tempfile.mkdtemp(prefix="vf_c27_")
    try:
        day = [date(2001, 3, 5) + timedelta(days=x) for x in c["d"]]
        f = gpd.GeoDataFrame({"OTHER": range(n)}, geometry=gpd.points_from_xy(*np.asarray(c["pts"], float).T))
        path = os.path.join(d, "events.shp")
        f.to_file(path)
        os.remove(os.path.join(d, "events.dbf"))
        import libpysal as lps
        db = lps.io.open(os.path.join(d, "events.dbf"), "w")
        db.header = ["OTHER", "DAY", "NUM", "VAL"]
        db.field_spec = [("N", 9, 0), ("D", 8, 0), ("N", 9, 0), ("N", 14, 4)]
        for k in range(n):
            db.write([k, day[k], c["v"][k], c["v"][k] / 4])
        db.close()
        if c["col"] == "DAY" and not c["infer"]:
            raise Skip
        import io
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            e = SpaceTimeEvents(path, c["col"], infer_timestamp=c["infer"])
        t = [x - min(c["d"]) for x in c["d"]] if c["col"] == "DAY" else c["v"] if c["col"] == "NUM" else [x / 4 for x in c["v"]]
        p = np.asarray(c["pts"], float)
        if e.n != n:
            return f"n is {e.n}, the file has {n} points"
        if not (close(e.space, p, 0, 0) and close(e.x, p[:, :1], 0, 0) and close(e.y, p[:, 1:], 0, 0)):
            return "coordinates are not those of the file, in file order"
        if not close(e.t, np.array(t, float).reshape(-1, 1), 0, 1e-9):
            return f"times {np.ravel(e.t)[:6]} != {t[:6]}"
        if not close(e.time, np.c_[np.array(t, float), np.ones(n)], 0, 1e-9):
            return "time does not hold the times beside ones"
        return None
    finally:
        shutil.rmtree(d)
