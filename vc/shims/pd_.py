"""pandas as used by pointpats: a frame is an ordered list of named columns over one row dimension.
The row index is not modelled: operations that read it are outside the verified subset."""
import z3
from ..core import Unsupported, eng, fresh_name
from ..values import Dom, SArr, Sc, VDict, VList, arr, concat_arrays, dim, exists, is_num, lift, modelled, num, same_dim, zi
from .lib import Mod, ModBase

FRAME_NAMES = set("""T abs agg aggregate align all any apply applymap assign astype at attrs axes bool boxplot clip combine compare convert_dtypes copy corr count cov cummax cummin cumprod cumsum
describe diff div dot drop dropna dtypes duplicated empty eq equals eval expanding explode ffill fillna filter first floordiv from_dict from_records ge get groupby gt hist iat idxmax idxmin iloc infer_objects
info insert interpolate isin isna isnull items iterrows itertuples join keys last le lt map mask max mean median melt memory_usage merge min mod mode mul ndim ne nlargest nsmallest nunique pct_change pipe pivot
pop pow prod quantile query rank reindex rename replace resample reset_index rolling round sample select_dtypes set_axis set_index shift size skew sort_index sort_values squeeze stack std sub sum swapaxes tail
to_csv to_dict to_numpy to_records transform transpose truncate unstack update value_counts values var where xs index""".split())


class Columns:
    def __init__(self, names):
        self.names = list(names)

    @property
    def values(self):
        return self

    def tolist(self):
        return VList(list(self.names))

    to_list = tolist

    def __iter__(self):
        return iter(self.names)

    def __len__(self):
        return len(self.names)

    def __contains__(self, n):
        return n in self.names

    def __getitem__(self, k):
        r = self.names[k]
        return Columns(r) if isinstance(k, slice) else r

    def __eq__(self, o):
        return list(self.names) == list(o)

    def __getattr__(self, n):
        raise Unsupported(f"columns.{n}")


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            d = self.df if isinstance(r, slice) and r == slice(None) else self.df._rows(r)
            return d[c]
        return self.df._rows(k)

    def __setitem__(self, k, v):
        raise Unsupported("loc assignment")


class DataFrame:
    """names, cols (name -> one-dimensional SArr), row dimension"""

    def __getattr__(self, n):
        if n.startswith("_") and n not in ("_repr_html_",):
            raise modelled(AttributeError(n))
        d = self.__dict__.get("cols", {})
        if n in d and n not in FRAME_NAMES:
            return d[n]
        if n in FRAME_NAMES:
            raise Unsupported(f"DataFrame.{n}")
        raise modelled(AttributeError(n))

    def __init__(self, data=None, columns=None, index=None, **kw):
        if kw or index is not None:
            raise Unsupported("DataFrame options")
        if isinstance(data, DataFrame):
            self.names, self.cols, self.rows = list(data.names), dict(data.cols), data.rows
            if columns is not None:
                raise Unsupported("DataFrame of a frame with columns")
            return
        if isinstance(data, (VDict, dict)):
            items = list((data._d() if isinstance(data, VDict) else data).items())
            self.names = [k for k, _ in items]
            self.cols = {k: arr(v) for k, v in items}
            self.rows = self.cols[self.names[0]]._shape[0]
            return
        a = arr(data)
        if a.ndim != 2 or not isinstance(a._shape[1], int):
            raise Unsupported("frame of this data")
        p = a._shape[1]
        f = a.snapshot()  # pandas copies an array it is built from
        names = list(range(p)) if columns is None else list(columns)
        if len(names) != p:
            raise ValueError(f"{p} columns passed, passed data had {len(names)} columns")
        self.names = names
        self.rows = a._shape[0]
        self.cols = {nm: SArr((self.rows,), lambda ix, c=c: f((ix[0], z3.IntVal(c))), a.kind) for c, nm in enumerate(names)}

    @classmethod
    def _of(cls, names, cols, rows):
        d = cls.__new__(cls)
        d.names, d.cols, d.rows = list(names), dict(cols), rows
        return d

    def vc_subst(self, sub):
        return DataFrame._of(self.names, {n: sub.val(c) for n, c in self.cols.items()}, sub.dim(self.rows))

    # ---------------------------------------------------------------- shape
    @property
    def shape(self):
        return (Sc(zi(self.rows), "i") if not isinstance(self.rows, int) else self.rows, len(self.names))

    def vc_len(self):
        return self.shape[0]

    @property
    def columns(self):
        return Columns(self.names)

    @columns.setter
    def columns(self, v):
        v = list(v)
        if len(v) != len(self.names):
            raise modelled(ValueError(f"Length mismatch: Expected axis has {len(self.names)} elements, new values have {len(v)} elements"))
        if len(set(v)) != len(v):
            raise Unsupported("columns of equal names")
        self.cols = {b: self.cols[a] for a, b in zip(self.names, v)}
        self.names = v

    def vc_array(self):
        cs = [self.cols[n] for n in self.names]
        fs = [c.snapshot() for c in cs]
        from ..values import cast_sc, ite, rank
        kind = max((c.kind for c in cs), key=rank)

        def fn(ix):
            k = z3.simplify(ix[1])
            if z3.is_int_value(k) and 0 <= k.as_long() < len(fs):
                return cast_sc(fs[k.as_long()]((ix[0],)), kind)
            r = cast_sc(fs[-1]((ix[0],)), kind)
            for j in range(len(fs) - 2, -1, -1):
                r = ite(k == j, cast_sc(fs[j]((ix[0],)), kind), r)
            return r
        return SArr((self.rows, len(cs)), fn, kind)

    @property
    def values(self):
        return self.vc_array()

    def to_numpy(self, *a, **k):
        return self.vc_array()

    def copy(self, deep=True):
        return DataFrame(self)

    @property
    def loc(self):
        return _Loc(self)

    def head(self, n=5):
        return self._rows(SArr((self.rows,), lambda ix: Sc(ix[0] < zi(n), "b"), "b"))

    def tail(self, n=5):
        return self._rows(SArr((self.rows,), lambda ix: Sc(ix[0] >= zi(self.rows) - zi(n), "b"), "b"))

    # ---------------------------------------------------------------- selection
    def _rows(self, m):
        m = arr(m)
        if m.kind != "b":
            raise Unsupported("rows by label")
        cols = {n: self.cols[n][m] for n in self.names}
        return DataFrame._of(self.names, cols, cols[self.names[0]]._shape[0])

    def __getitem__(self, k):
        if isinstance(k, SArr):
            return self._rows(k)
        if isinstance(k, (list, Columns)):
            k = list(k)
            for n in k:
                if n not in self.cols:
                    raise modelled(KeyError(n))
            return DataFrame._of(k, {n: self.cols[n] for n in k}, self.rows)
        try:
            return self.cols[k]
        except KeyError:
            raise modelled(KeyError(k))

    def __setitem__(self, k, v):
        if is_num(v):
            x = lift(v)
            v = SArr((self.rows,), lambda ix: x, x.kind)
        v = arr(v)
        if v.ndim != 1 or not same_dim(v._shape[0], self.rows):
            raise modelled(ValueError("Length of values does not match length of index"))
        self.cols = dict(self.cols)
        f = v.snapshot()
        self.cols[k] = SArr((self.rows,), lambda ix: f((ix[0],)), v.kind)
        if k not in self.names:
            self.names = self.names + [k]

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(self.names)

    # ---------------------------------------------------------------- reductions
    def min(self, axis=0, **k):
        return self._reduce("min", axis, k)

    def max(self, axis=0, **k):
        return self._reduce("max", axis, k)

    def mean(self, axis=0, **k):
        return self._reduce("mean", axis, k)

    def sum(self, axis=0, **k):
        return self._reduce("sum", axis, k)

    def _reduce(self, which, axis, k):
        if k or axis != 0:
            raise Unsupported(f"DataFrame.{which} options")
        return arr(tuple(getattr(self.cols[n], which)() for n in self.names))

    # ---------------------------------------------------------------- rows as values
    def duplicated(self, subset=None, keep="first"):
        """row i repeats an earlier row"""
        if subset is not None or keep != "first":
            raise Unsupported("duplicated options")
        fs = [self.cols[n].snapshot() for n in self.names]
        if isinstance(self.rows, Dom):
            raise Unsupported("duplicates of a selection")

        def fn(ix):
            j = z3.Int(fresh_name("dup"))
            same = z3.And(*[num(f((j,)).z) == num(f((ix[0],)).z) for f in fs])
            return Sc(z3.Exists([j], z3.And(j >= 0, j < ix[0], same)), "b")
        return SArr((self.rows,), fn, "b")

    def drop_duplicates(self, subset=None, keep="first", **k):
        if k:
            raise Unsupported("drop_duplicates options")
        return self._rows(~self.duplicated(subset, keep))


def concat(objs, axis=0, **k):
    if axis != 0 or set(k) - {"ignore_index"}:
        raise Unsupported("concat options")
    objs = list(objs)
    names = objs[0].names
    for o in objs[1:]:
        if set(o.names) != set(names):
            raise Unsupported("concat of frames with other columns")
    cols = {n: concat_arrays([o.cols[n] for o in objs]) for n in names}
    return DataFrame._of(names, cols, cols[names[0]]._shape[0])


class _All:
    """truth values that are all alike"""

    def __init__(self, v):
        self.v = bool(v)

    def all(self):
        return self.v

    any = all

    def __invert__(self):
        return _All(not self.v)


class _Series:
    pass


pandas = Mod("pandas", DataFrame=DataFrame, concat=concat, Series=_Series)
api_types = Mod("pandas.api.types")
