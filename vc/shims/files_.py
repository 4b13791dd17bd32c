"""libpysal.io.open of a shapefile and of its attribute table, and calendar dates.
The files of a contract are listed in the engine's ghost state: path -> object."""
import z3
from ..core import I, Unsupported, eng
from ..values import Part, SArr, Sc, Seq, VList, cast_sc, is_num, lift, modelled, plain_dom, sc_op, zi
from .lib import Mod


class timedelta:
    def __init__(self, days=0):
        self.days = lift(days)

    def total_seconds(self):
        return self.days * 86400

    @property
    def vc_number(self):
        return self.days

    def vc_subst(self, sub):
        return timedelta(sub.val(self.days))

    def __floordiv__(self, o):
        return Sc(zi(self.days) / zi(o.days), "i")

    def __truediv__(self, o):
        return cast_sc(self.days, "f") / cast_sc(o.days, "f")


class date:
    """a calendar day, given by its ordinal number"""

    def __init__(self, ordinal):
        self.n = lift(ordinal)

    @property
    def vc_number(self):
        return self.n

    def toordinal(self):
        return self.n

    def vc_subst(self, sub):
        return date(sub.val(self.n))

    def __sub__(self, o):
        if isinstance(o, date):
            return timedelta(self.n - o.n)
        raise Unsupported("date arithmetic")

    def __lt__(self, o): return sc_op("<", self.n, o.n)
    def __le__(self, o): return sc_op("<=", self.n, o.n)
    def __gt__(self, o): return sc_op(">", self.n, o.n)
    def __ge__(self, o): return sc_op(">=", self.n, o.n)
    def __eq__(self, o): return sc_op("==", self.n, o.n)
    __hash__ = None


class _File:
    closed = False

    def close(self):
        self.closed = True

    def _open(self):
        if self.closed:
            raise modelled(ValueError("I/O operation on closed file"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class PointFile(_File):
    """a point shapefile: n coordinate pairs in file order"""

    def __init__(self, n, x, y):
        self.n, self.x, self.y = n, x, y

    def vc_len(self):
        self._open()
        return self.n

    def vc_seq(self):
        self._open()
        return Seq([Part(plain_dom(zi(self.n)), lambda k: (self.x(k), self.y(k)))])

    def read(self, k=-1):
        self._open()
        if k != -1:
            raise Unsupported("reading part of a file")
        return VList(seq=self.vc_seq())

    def get(self, k):
        self._open()
        E = eng()
        E.defined(z3.And(zi(k) >= 0, zi(k) < zi(self.n)), "record of the file")
        return (self.x(zi(k)), self.y(zi(k)))

    type = "Point"
    by_row = property(lambda self: self)


class Table(_File):
    """an attribute table: columns by name, in file order"""

    def __init__(self, n, columns):
        self.n, self.columns = n, columns

    @property
    def header(self):
        return VList(list(self.columns))

    def by_col(self, name):
        self._open()
        if name not in self.columns:
            raise modelled(KeyError(name))
        f = self.columns[name]
        return VList(seq=Seq([Part(plain_dom(zi(self.n)), f)]))

    def vc_len(self):
        return self.n

    def __getattr__(self, n):
        raise Unsupported(f"attribute table: {n}")


def open_(path, mode="r", *a, **k):
    if mode != "r":
        raise Unsupported("writing files")
    files = eng().ghost.get("files", {})
    if path not in files:
        raise modelled(FileNotFoundError(path))
    kind, args = files[path]
    return kind(*args)


datetime = Mod("datetime", date=date, datetime=date, timedelta=timedelta)
io = Mod("libpysal.io", open=open_)
