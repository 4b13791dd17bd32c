"""Contracts of the numpy functions the repository calls (trusted: numpy itself)."""
import builtins
import math
import types
import z3
from ..core import I, R, B, Unsupported, eng, fresh_name, mentions, to_int, to_real, rv
from .. import sums
from ..values import (Cell, Dom, DType, INF, Part, PiConst, SArr, Sc, SSet, Seq, VList, arr, as_seq, bget, bshape, binop, canon, cast_sc, ceil as _ceil,
                      check_all, concat_arrays, count_int, cumsum as _cumsum, dim, dims_consts, dot as _dot, dtype_kind, ew1, ew2, extreme, flat_dom,
                      floor_of, is_num, ite, lazy_array, lift, mask_get, norm_axis, num, pi_value, plain_dom, quantify, rank, ravel as _ravel,
                      reduce_sum, same_dim, sc_op, sqrt as _sqrt, tolist, ufun, zi)

ndarray = SArr
newaxis = None
nan = float("nan")
inf = float("inf")


class _DT:
    """numpy scalar types, also usable as casts and in isinstance"""

    def __init__(self, name, k, py):
        self.__name__, self.k, self.py = name, k, py

    def __call__(self, x=0):
        if isinstance(x, SArr):
            return x.astype(self.__name__)
        return cast_sc(lift(x), self.k) if isinstance(x, Sc) else self.py(x)

    def vc_isinstance(self, x):
        if isinstance(x, Sc):
            return False  # harness numbers stand for Python numbers; numpy scalars behave alike for the code
        return False

    def __or__(self, o):
        return self
    __ror__ = __or__


float64, int64, bool_, integer, floating, number, int32, uint, uint8, float32 = (_DT(*a) for a in [
    ("float64", "f", float), ("int64", "i", int), ("bool_", "b", bool), ("integer", "i", int), ("floating", "f", float), ("number", "f", float),
    ("int32", "i", int), ("uint", "i", int), ("uint8", "i", int), ("float32", "f", float)])
double = float64
generic = number


def __getattr__(n):
    if n == "pi":
        return pi_value()
    if n.startswith("__"):
        raise AttributeError(n)
    from ..rt import Opaque
    return Opaque("numpy." + n)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_dimv(x) for x in s)
    return (_dimv(s),)


def _dimv(x):
    if isinstance(x, SArr):
        x = x.el(*[0] * x.ndim)
    if isinstance(x, float) or isinstance(x, Sc) and x.kind == "f":
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x if isinstance(x, int) else dim(zi(x))


def _as(x, dtype=None):
    a = arr(x) if not hasattr(x, "vc_array") or isinstance(x, SArr) else x.vc_array()
    if dtype is not None:
        k = dtype_kind(dtype)
        if k != a.kind:
            return a.astype(dtype)
    return a


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or dtype_kind(dtype) == x.kind):
        return x
    return _as(x, dtype)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr):
        x = x.copy()
    return _as(x, dtype)


asanyarray = ascontiguousarray = asarray
copy = array


def _const(shape, v, kind):
    v = lift(v)
    return SArr(_shape(shape), lambda ix: v, kind)


def zeros(shape, dtype=float, **k):
    kd = dtype_kind(dtype)
    return _const(shape, {"f": 0.0, "i": 0, "b": False}[kd], kd)


def ones(shape, dtype=float, **k):
    kd = dtype_kind(dtype)
    return _const(shape, {"f": 1.0, "i": 1, "b": True}[kd], kd)


def full(shape, v, dtype=None, **k):
    v = lift(v)
    kd = dtype_kind(dtype) or v.kind
    return _const(shape, cast_sc(v, kd), kd)


def empty(shape, dtype=float, **k):
    kd = dtype_kind(dtype)
    sh = _shape(shape)
    f = eng().fresh_fun("uninit", [I] * len(sh), {"f": R, "i": I, "b": B}[kd])
    return SArr(sh, lambda ix: Sc(f(*ix), kd), kd)


def zeros_like(a, dtype=None):
    a = arr(a)
    return _const(a._shape, 0.0 if (dtype is None and a.kind == "f") else 0, dtype_kind(dtype) or a.kind) if True else None


def ones_like(a, dtype=None):
    a = arr(a)
    kd = dtype_kind(dtype) or a.kind
    v = lift({"f": 1.0, "i": 1, "b": True}[kd])
    return SArr(a._shape, lambda ix: v, kd)


def full_like(a, v, dtype=None):
    a = arr(a)
    kd = dtype_kind(dtype) or a.kind
    v = cast_sc(lift(v), kd)
    return SArr(a._shape, lambda ix: v, kd)


def empty_like(a, dtype=None):
    a = arr(a)
    return empty(a._shape, dtype or {"f": "float", "i": "int", "b": "bool"}[a.kind])


def eye(n, dtype=float, **k):
    kd = dtype_kind(dtype)
    o, z = cast_sc(lift(1), kd), cast_sc(lift(0), kd)
    return SArr(_shape((n, n)), lambda ix: ite(z3.simplify(ix[0] == ix[1]), o, z), kd)


identity = eye


def arange(*a, **k):
    from ..rt import v_range
    if builtins.all(isinstance(x, int) or isinstance(x, Sc) and x.kind in "ib" for x in a):
        r = v_range(*a)
        if isinstance(r, range):
            if len(r) == 0:
                return SArr((0,), lambda ix: lift(0), "i")
            st, sp = r.start, r.step
            return SArr((len(r),), lambda ix: Sc(z3.simplify(st + sp * ix[0]), "i"), "i")
        return r.vc_array()
    raise Unsupported("arange of floats")


def linspace(a, b, num=50, endpoint=True, **k):
    if k or endpoint is not True:
        raise Unsupported("linspace options")
    n = num if isinstance(num, int) else dim(zi(num))
    if isinstance(num, float) or isinstance(num, Sc) and num.kind == "f":
        raise TypeError("'float' object cannot be interpreted as an integer")
    E = eng()
    if isinstance(n, int):
        if n < 0:
            raise ValueError("Number of samples, must be non-negative.")
    elif not E.decide(zi(n) >= 0):
        raise ValueError("Number of samples, must be non-negative.")
    a, b = _scalar(a), _scalar(b)
    x, y = to_real(num_(a).z), to_real(num_(b).z)
    m = z3.ToReal(zi(n)) if not isinstance(n, int) else z3.RealVal(n)

    def fn(ix):
        i = z3.ToReal(ix[0])
        if isinstance(n, int):
            return Sc(x, "f") if n <= 1 else Sc(x + i * (y - x) / (n - 1), "f")
        v = x + i * ((y - x) / (m - 1))
        if E.valid(zi(n) > 1, 300):
            return Sc(v, "f")
        return Sc(z3.If(zi(n) > 1, v, x), "f")
    r = SArr((n,), fn, "f")
    r.linspace = (x, y, n)
    return r


def num_(x):
    return lift(x)


def _scalar(x):
    if isinstance(x, SArr):
        if x.ndim == 0 or builtins.all(isinstance(d, int) and d == 1 for d in x._shape):
            return x.el(*[0] * x.ndim)
        raise Unsupported("array where a number is expected")
    return lift(x)


# ------------------------------------------------------------------ elementwise
def _map1(f, a, kind=None):
    if is_num(a):
        return f(lift(a))
    return ew1(f, a, kind)


def sqrt(x):
    def f(v):
        return _sqrt(cast_sc(v, "f"))
    if not is_num(x):
        a = arr(x)
        g = a.snapshot()
        E = eng()
        if not E.errstate:
            check_all(a._shape, lambda ix: _sqrt(cast_sc(g(ix), "f")))
        r = ew1(f, a, "f")
        return r if r.ndim else r.el()
    return f(lift(x))


def abs(x):
    return _map1(lambda v: v.__abs__(), x)


absolute = fabs = abs


def _un(name, facts=None):
    def f(x):
        def g(v):
            v = cast_sc(v, "f")
            a = canon(v.z)
            t = ufun(name, 1)(a)
            if facts:
                E = eng()
                E.once((name, t), lambda: facts(a, t))
            return Sc(t, "f", v.sp)
        return _map1(g, x, "f")
    f.__name__ = name
    return f


def _sincos(a):
    s, c = ufun("sin", 1)(a), ufun("cos", 1)(a)
    return s * s + c * c == 1


def _sin0(name):
    def facts(a, t):
        s, c = ufun("sin", 1)(a), ufun("cos", 1)(a)
        fs = [s * s + c * c == 1]
        if z3.is_rational_value(a) and a.as_fraction() == 0:
            fs += [s == 0, c == 1]
        pi_value()
        from ..values import PI
        d = sums.p_add(sums.poly(a), sums.poly(PI / 2), -1)
        if not d:
            fs += [s == 1, c == 0]
        k = a.decl()
        if k.name() == "arctan":
            u = a.arg(0)
            # cos(arctan u) > 0 and tan = u
            fs += [c > 0, s == u * c]
        return z3.And(*fs)
    return facts


_sin, _cos = _un("sin", _sin0("sin")), _un("cos", _sin0("cos"))


def _exact(x):
    """(cos, sin) of 0, pi/2, arctan(u) and arctan2(y, x) in closed form, else None"""
    if not is_num(x) and not (isinstance(x, SArr) and x.ndim == 0):
        return None
    a = canon(to_real(num(lift(x if is_num(x) else x.el()).z)))
    one, zero = Sc(z3.RealVal(1), "f"), Sc(z3.RealVal(0), "f")
    if z3.is_rational_value(a) and a.as_fraction() == 0:
        return one, zero
    pi_value()
    from ..values import PI
    if not sums.p_add(sums.poly(a), sums.poly(PI / 2), -1):
        return zero, one
    if not sums.p_add(sums.poly(a), sums.poly(PI / 6), -1):
        return sqrt(Sc(z3.RealVal(3), "f")) / Sc(z3.RealVal(2), "f"), Sc(z3.Q(1, 2), "f")
    if z3.is_app(a) and a.decl().name() == "arctan":
        u = Sc(a.arg(0), "f")
        q = one + u * u
        sums.mark_positive(eng(), q.z)
        c = one / sqrt(q)
        return c, u * c
    if z3.is_app(a) and a.decl().name() == "arctan2":
        u, v = Sc(a.arg(0), "f"), Sc(a.arg(1), "f")
        if eng().decide(z3.And(u.z == 0, v.z == 0)):
            return one, zero
        h = sqrt(u * u + v * v)
        return v / h, u / h
    return None


def sin(x):
    r = _exact(x)
    return r[1] if r is not None else _sin(x)


def cos(x):
    r = _exact(x)
    return r[0] if r is not None else _cos(x)




def _atan_facts(a, t):
    from ..values import PI
    pi_value()
    return z3.And(t > -PI / 2, t < PI / 2, (t > 0) == (a > 0), (t == 0) == (a == 0))


arctan = _un("arctan", _atan_facts)
arccos = _un("arccos", lambda a, t: z3.Implies(z3.And(a >= -1, a <= 1), z3.And(t >= 0, t <= z3.Real("π"))))
exp, log = _un("exp", lambda a, t: t > 0), _un("log")


def arctan2(y, x):
    return Sc(ufun("arctan2", 2)(canon(lift(y).z), canon(lift(x).z)), "f")


def power(a, b):
    return arr(a) ** b if not is_num(a) else lift(a) ** b


def square(a):
    return a * a


def _ew(op):
    def f(a, b, **k):
        return binop(op, a if is_num(a) else arr(a), b if is_num(b) else arr(b))
    return f


add, subtract, multiply, divide, greater, greater_equal, less, less_equal, equal, not_equal = (_ew(o) for o in ["+", "-", "*", "/", ">", ">=", "<", "<=", "==", "!="])
logical_and, logical_or = _ew("&"), _ew("|")


def logical_not(a):
    return ~arr(a)


def _pick(op):
    def f(a, b):
        if is_num(a) and is_num(b):
            return ite(sc_op(op, lift(a), lift(b)).z, lift(a), lift(b))
        a, b = arr(a), arr(b)
        sh = bshape([a._shape, b._shape])
        fa, fb = bget(a, sh, len(sh)), bget(b, sh, len(sh))
        kind = a.kind if rank(a.kind) >= rank(b.kind) else b.kind
        return SArr(sh, lambda ix: cast_sc(ite(sc_op(op, fa(ix), fb(ix)).z, fa(ix), fb(ix)), kind), kind)
    return f


minimum, maximum = _pick("<="), _pick(">=")


def floor(x):
    return _map1(lambda v: Sc(z3.ToReal(floor_of(to_real(num(v.z)))), "f", v.sp), x, "f")


def ceil(x):
    return _map1(lambda v: cast_sc(_ceil(v), "f"), x, "f")


def isnan(x):
    return _map1(lambda v: Sc(v.sp[0] if v.sp else z3.BoolVal(False), "b"), x, "b")


def isinf(x):
    return _map1(lambda v: Sc(z3.And(v.sp[1], z3.Not(v.sp[0])) if v.sp else z3.BoolVal(False), "b"), x, "b")


def isfinite(x):
    return _map1(lambda v: Sc(z3.Not(z3.Or(*v.sp)) if v.sp else z3.BoolVal(True), "b"), x, "b")


def where(c, a=None, b=None):
    if a is None:
        return np_where(arr(c))
    if is_num(c) and is_num(a) and is_num(b):
        return ite(cast_sc(lift(c), "b").z, lift(a), lift(b))
    c, a, b = arr(c), arr(a), arr(b)
    sh = bshape([c._shape, a._shape, b._shape])
    n = len(sh)
    fc, fa, fb = bget(c, sh, n), bget(a, sh, n), bget(b, sh, n)
    kind = a.kind if rank(a.kind) >= rank(b.kind) else b.kind
    return SArr(sh, lambda ix: ite(cast_sc(fc(ix), "b").z, cast_sc(fa(ix), kind), cast_sc(fb(ix), kind)), kind)


def np_where(c):
    c = arr(c)
    if c.kind != "b":
        c = c.astype("bool")
    idx = []
    for d in range(c.ndim):
        if isinstance(c._shape[d], Dom):
            raise Unsupported("where over a domain")
        idx.append(SArr(c._shape, lambda ix, d=d: Sc(ix[d], "i"), "i"))
    out = []
    dom = None
    for a in idx:
        r = mask_get(a, c)
        if dom is None:
            dom = r._shape[0]
        r._shape = (dom,)
        r.bshape = (dom,)
        out.append(r)
    return tuple(out)


nonzero = np_where


def flatnonzero(c):
    return np_where(_ravel(arr(c)))[0]


# ------------------------------------------------------------------ reductions
def sum(a, axis=None, **k):
    if is_num(a):
        return lift(a).sum()
    if not isinstance(a, SArr) and hasattr(a, "vc_seq") or isinstance(a, VList) and a.symbolic:
        a = arr(a)
    return reduce_sum(arr(a), axis)


def mean(a, axis=None, **k):
    return arr(a).mean(axis)


def min(a, axis=None, **k):
    return extreme(arr(a), "min", axis)


def max(a, axis=None, **k):
    return extreme(arr(a), "max", axis)


amin, amax = min, max


def any(a, axis=None):
    return quantify(arr(a), "any", axis)


def all(a, axis=None):
    return quantify(arr(a), "all", axis)


def prod(a, axis=None):
    if isinstance(a, (tuple, list)) and not getattr(a, "symbolic", False):
        r = 1
        for x in a:
            r = r * x
        return r
    return arr(a).prod(axis)


def argmax(a, axis=None):
    return arr(a).argmax(axis)


def argmin(a, axis=None):
    return arr(a).argmin(axis)


def cumsum(a, axis=None, **k):
    return _cumsum(arr(a))


def dot(a, b):
    return _dot(a, b)


def average(a, axis=None, weights=None):
    a = arr(a)
    if weights is None:
        return a.mean(axis)
    w = arr(weights)
    if a.ndim == 1 and w.ndim == 1:
        return (a * w).sum() / w.sum()
    if a.ndim == 2 and w.ndim == 1 and axis == 0:
        f, g = a.snapshot(), w.snapshot()
        wa = SArr(a._shape, lambda ix: sc_op("*", f(ix), g((ix[0],))), "f")
        return wa.sum(axis=0) / w.sum()
    raise Unsupported("average")


def _canon_stat(name, f, n, facts):
    """a number determined by a finite list of numbers f(0..n-1): equal lists give the same number"""
    E = eng()
    k = z3.Int(fresh_name("st"))
    with E.quiet(), E.scope([k], [k >= 0, k < n]):
        t = to_real(num(f(k).z))
    key = (name, z3.substitute(canon(t), (k, z3.Int("ι0"))).sexpr(), z3.simplify(n).sexpr())
    hit = E.hash_cons.get(key)
    gs = E.generics()
    if hit is not None and len(hit[1]) <= len(gs):
        return hit[0]
    m = E.fresh(name, R)
    for q in facts(m):
        E.assume(q)
    E.hash_cons[key] = (m, gs)
    return m


def median(a, axis=None):
    a = arr(a)
    g = a.snapshot()
    if a.ndim == 1:
        axis = 0
    if axis != 0:
        raise Unsupported("median")
    n = zi(a._shape[0])
    E = eng()
    if not E.decide(n > 0):
        raise Unsupported("median of nothing")

    def one(rest):
        f = lambda k: g((k,) + tuple(rest))

        def facts(m):
            le = sums.mk_sum(E, z3.IntVal(0), n, lambda j: to_real(num(f(j).z)) <= m)
            ge = sums.mk_sum(E, z3.IntVal(0), n, lambda j: to_real(num(f(j).z)) >= m)
            return [2 * le >= z3.ToReal(n), 2 * ge >= z3.ToReal(n)]
        return Sc(_canon_stat("median", f, n, facts), "f")
    if a.ndim == 1:
        return one(())
    return lazy_array(a._shape[1:], lambda ix: one(ix), "f")


def std(a, **k):
    raise Unsupported("std")


# ------------------------------------------------------------------ building
def _seq_items(xs):
    if isinstance(xs, SArr) and xs._shape and isinstance(xs._shape[0], int):
        return [xs[i] for i in range(xs._shape[0])]
    if isinstance(xs, VList) and xs.symbolic or isinstance(xs, Seq):
        return None
    if isinstance(xs, SArr) and xs.ndim > 2:
        return None
    return list(xs)


def vstack(xs, **k):
    xs = _seq_items(xs) if _seq_items(xs) is not None else xs
    if isinstance(xs, list):
        ys = [arr(x) for x in xs]
        ys = [y.reshape((1,) + y._shape) if y.ndim == 1 else y for y in ys]
        return concat_arrays(ys)
    return _stack_sym(as_seq(xs), False)


def _stack_sym(s, hstack_):
    """vstack of a symbolic number of equally long blocks: row r of block b, as a flattened domain"""
    if len(s.parts) != 1 or s.parts[0].dom is None:
        raise Unsupported("stack of a composite sequence")
    p = s.parts[0]
    E = eng()
    ks = [z3.Int(fresh_name("v")) for _ in p.dom.ranges]
    with E.quiet(), E.scope(ks, p.dom.conds(ks)):
        probe = arr(p.item(*ks))
    if probe.ndim == 1 and not hstack_:
        from ..values import seq_array
        return seq_array(s)
    m = len(ks)
    d0 = probe._shape[0]
    if isinstance(d0, Dom):
        def r2(r):
            def f(*k):
                a, b = r(*k[m:])
                q = list(zip(ks, k[:m]))
                return z3.substitute(a, *q), z3.substitute(b, *q)
            return f
        ranges = list(p.dom.ranges) + [r2(r) for r in d0.ranges]
        guard = lambda *k: z3.And(p.dom.guard(*k[:m]), z3.substitute(d0.guard(*k[m:]), *zip(ks, k[:m])))
        tail = lambda k: (tuple(k[m:]),)
    else:
        ranges = list(p.dom.ranges) + [lambda *k: (z3.IntVal(0), z3.substitute(zi(d0), *zip(ks, k[:m])))]
        guard = lambda *k: p.dom.guard(*k[:m])
        tail = lambda k: (k[m],)
    dom = Dom(ranges, guard)
    if not isinstance(d0, Dom) and not mentions(zi(d0), ks) and m == 1 and z3.is_true(z3.simplify(p.dom.guard(*ks))):
        lo, hi = p.dom.ranges[0]()
        if z3.is_int_value(lo) and lo.as_long() == 0:
            dom = flat_dom((dim(hi), d0))
    return SArr((dom,) + probe._shape[1:], lambda ix: arr(p.item(*ix[0][:m])).el(*tail(ix[0]), *ix[1:]), probe.kind)


def hstack(xs, **k):
    it = _seq_items(xs)
    if it is None:
        return _stack_sym(as_seq(xs), True)
    ys = [arr(x) for x in it]
    if ys[0].ndim <= 1:
        ys = [y.reshape((1,)) if y.ndim == 0 else y for y in ys]
        return concat_arrays(ys)
    return concat_arrays(ys, 1)


def column_stack(xs):
    it = _seq_items(xs)
    if it is None:
        raise Unsupported("column_stack")
    ys = [arr(x) for x in it]
    ys = [y.reshape((1,)) if y.ndim == 0 else y for y in ys]
    if builtins_all(y.ndim == 1 for y in ys):
        sh = bshape([y._shape for y in ys]) if False else ys[0]._shape
        for y in ys[1:]:
            if not same_dim(y._shape[0], sh[0]):
                raise ValueError("all the input array dimensions must match")
        kind = builtins_max((y.kind for y in ys), key=rank)
        fs = [y.snapshot() for y in ys]

        def fn(ix):
            c = z3.simplify(ix[1])
            if z3.is_int_value(c):
                return cast_sc(fs[builtins_min(builtins_max(c.as_long(), 0), len(fs) - 1)]((ix[0],)), kind)
            r = cast_sc(fs[-1]((ix[0],)), kind)
            for j in range(len(fs) - 2, -1, -1):
                r = ite(c == j, cast_sc(fs[j]((ix[0],)), kind), r)
            return r
        return SArr((sh[0], len(ys)), fn, kind)
    return concat_arrays([y.reshape((y._shape[0], 1)) if y.ndim == 1 else y for y in ys], 1)


import builtins as _b
builtins_all, builtins_max, builtins_min = _b.all, _b.max, _b.min


def concatenate(xs, axis=0):
    it = _seq_items(xs)
    if it is None:
        return _stack_sym(as_seq(xs), True)
    return concat_arrays([arr(x) for x in it], axis)


def stack(xs, axis=0):
    return arr(xs) if axis == 0 else _no("stack")


def _no(n):
    raise Unsupported(n)


def reshape(a, s, **k):
    return arr(a).reshape(s)


def ravel(a):
    return _ravel(arr(a))


def squeeze(a, axis=None):
    return arr(a).squeeze(axis)


def transpose(a):
    return arr(a).T


def ndim(a):
    return 0 if is_num(a) else arr(a).ndim


def shape(a):
    return arr(a).shape


def size(a):
    return arr(a).size


def atleast_1d(a):
    a = arr(a)
    return a if a.ndim else a.reshape((1,))


def atleast_2d(a):
    a = arr(a)
    return a if a.ndim >= 2 else a.reshape((1, a._shape[0])) if a.ndim else a.reshape((1, 1))


def tril_indices(n, k=0, m=None):
    return _tri(n, k, True)


def triu_indices(n, k=0, m=None):
    return _tri(n, k, False)


def _tri(n, k, low):
    if m_ := (not isinstance(k, int)):
        raise Unsupported("tri indices")
    nz_ = zi(n)
    z0 = z3.IntVal(0)
    if low:
        # rows in order, columns 0..i+k
        if k not in (0, -1):
            raise Unsupported("tril offset")
        ranges = [lambda: (z0, nz_), lambda i: (z0, i + k + 1)]
    else:
        if k not in (0, 1):
            raise Unsupported("triu offset")
        ranges = [lambda: (z0, nz_), lambda i: (i + k, nz_)]
    d = Dom(ranges, key=("tri", low, k, z3.simplify(nz_).sexpr()))
    d.pairs = (low, k, nz_)
    off = 1 if k == 0 else -1
    # number of pairs
    d._size = Sc(z3.simplify(nz_ * (nz_ + off)) / 2, "i")
    E = eng()
    E.assume(z3.Implies(nz_ >= 0, 2 * d._size.z == nz_ * (nz_ + off)), "n(n-1) is even")
    return (SArr((d,), lambda ix: Sc(ix[0][0], "i"), "i"), SArr((d,), lambda ix: Sc(ix[0][1], "i"), "i"))


def tril_indices_from(a, k=0):
    return _tri(arr(a).shape[0], k, True)


def triu_indices_from(a, k=0):
    return _tri(arr(a).shape[0], k, False)


def diagonal(a):
    a = arr(a)
    f = a.snapshot()
    return SArr((a._shape[0],), lambda ix: f((ix[0], ix[0])), a.kind)


def fill_diagonal(a, v):
    v = lift(v)
    f = a.snapshot()
    from ..values import write_region
    write_region(a, None, SArr(a._shape, lambda ix: ite(z3.simplify(ix[0] == ix[1]), cast_sc(v, a.kind), f(ix)), a.kind))


def meshgrid(x, y, **k):
    if k:
        raise Unsupported("meshgrid options")
    x, y = arr(x), arr(y)
    f, g = x.snapshot(), y.snapshot()
    sh = (y._shape[0], x._shape[0])
    return VList([SArr(sh, lambda ix: f((ix[1],)), x.kind), SArr(sh, lambda ix: g((ix[0],)), y.kind)])


def delete(a, i, axis=None):
    a = arr(a)
    if not is_num(i) or not (a.ndim == 1 or axis == 0) or isinstance(a._shape[0], Dom):
        raise Unsupported("delete")
    from ..values import nidx
    k = nidx(i, a._shape[0])
    f = a.snapshot()
    return SArr((dim(zi(a._shape[0]) - 1),) + tuple(a._shape[1:]), lambda ix: ite(z3.simplify(ix[0] < k), f(ix), f((ix[0] + 1,) + tuple(ix[1:]))), a.kind)


def diff(a, **k):
    a = arr(a)
    return a[1:] - a[:-1]


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """|a - b| <= atol + rtol |b| everywhere"""
    a, b = arr(a), arr(b)
    if equal_nan or a.ndim != b.ndim or not builtins_all(same_dim(p, q) for p, q in zip(a._shape, b._shape)):
        raise Unsupported("allclose of these arrays")
    return (absolute(a - b) <= absolute(b) * rtol + atol).all()


def isclose(a, b, **k):
    raise Unsupported("isclose")


def array_equal(a, b):
    raise Unsupported("array_equal")


def histogram(a, bins=10, **k):
    """counts[i] = number of a with bins[i] <= a < bins[i+1], the last interval closed; bins must not decrease"""
    if k:
        raise Unsupported("histogram options")
    if is_num(bins):
        raise Unsupported("histogram with a number of bins")
    a, b = arr(a), arr(bins)
    E = eng()
    m = b._shape[0]
    n1 = dim(zi(m) - 1)
    i = z3.Int(fresh_name("bin"))
    fb = b.snapshot()
    with E.scope([i], [i >= 0, i + 1 < zi(m)]):
        E.defined(to_real(num(fb((i,)).z)) <= to_real(num(fb((i + 1,)).z)), "histogram bins increase")
    g = a.snapshot()
    from ..values import dim_sum

    def below(t):
        """how many values lie below bin edge t (up to it, for the last edge)"""
        edge = to_real(num(fb((t,)).z))
        last = t == zi(m) - 1

        def rec(rest, got):
            if not rest:
                v = to_real(num(g(tuple(got)).z))
                return z3.If(z3.Or(v < edge, z3.And(last, v <= edge)), z3.RealVal(1), z3.RealVal(0))
            return dim_sum(rest[0], lambda kx: rec(rest[1:], got + [kx]))
        return count_int(rec(list(a._shape), []))
    below = E.define("below", [I], I, below)

    def fn(ix):
        q = ix[0]
        z = below(q + 1) - below(q)
        E.once(("count", z), lambda: z3.Implies(z3.And(q >= 0, q < zi(m) - 1), z >= 0))  # the edges do not decrease
        return Sc(z, "i")
    return SArr((n1,), fn, "i"), b


def _unique_axis(a):
    """distinct values of a flattened product that vary along one axis only, strictly increasing there: the values along that axis"""
    E = eng()
    fac = a._shape[0].factors
    f = a.snapshot()
    ks = [z3.Int(fresh_name("u")) for _ in fac]
    k2 = z3.Int(fresh_name("u"))
    inside = [z3.And(k >= 0, k < zi(d)) for k, d in zip(ks, fac)]
    with E.quiet():
        if not E.valid(z3.And(*[zi(d) > 0 for d in fac]), 600):
            return None
        with E.scope(ks, inside):
            v = z3.simplify(num(f((tuple(ks),)).z))
        used = [q for q in range(len(ks)) if mentions(v, [ks[q]])]
        if len(used) != 1:
            return None
        q = used[0]
        with E.scope(ks + [k2], inside + [k2 > ks[q], k2 < zi(fac[q])]):
            if not E.valid(v < z3.substitute(v, (ks[q], k2)), 600):
                return None
    zero = z3.IntVal(0)
    return SArr((fac[q],), lambda ix: f((tuple(ix[0] if r == q else zero for r in range(len(fac))),)), a.kind)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = arr(a)
    if axis is None and not (return_index or return_inverse or return_counts) and a.ndim == 1 and isinstance(a._shape[0], Dom) and a._shape[0].factors:
        r = _unique_axis(a)
        if r is not None:
            return r
    if axis is not None or return_index or return_inverse or return_counts or a.ndim != 1 or isinstance(a._shape[0], Dom):
        raise Unsupported("unique options")
    E = eng()
    f = a.snapshot()
    n = zi(a._shape[0])
    jj = z3.Int(fresh_name("j"))
    with E.quiet(), E.scope([jj], [jj >= 0, jj < n]):
        content = z3.substitute(num(f((jj,)).z), (jj, z3.Int("ι0")))
    key = ("unique", z3.simplify(content).sexpr(), z3.simplify(n).sexpr())
    gs, hit = E.generics(), E.hash_cons.get(key)
    if hit is not None and builtins.all(builtins.any(g.eq(h) for h in gs) for g in hit[1]):
        return SArr(*hit[0])  # the same content
    m = E.fresh("nuniq", I)
    u = E.fresh_fun("uniq", [I], {"f": R, "i": I, "b": B}[a.kind])
    src, at = E.fresh_fun("src", [I], I), E.fresh_fun("at", [I], I)
    i, j = z3.Ints(f"{fresh_name('i')} {fresh_name('j')}")
    E.assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), u(i) < u(j)), patterns=[z3.MultiPattern(u(i), u(j))]))
    with E.quiet():
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(src(i) >= 0, src(i) < n, u(i) == num(f((src(i),)).z))), patterns=[u(i)]))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(at(i) >= 0, at(i) < m, u(at(i)) == num(f((i,)).z))), patterns=[at(i)] + E._patterns([i], num(f((i,)).z))))
    r = ((dim(m),), lambda ix: Sc(u(ix[0]), a.kind), a.kind)
    E.hash_cons[key] = (r, gs)
    return SArr(*r)


def sort(a, axis=-1, **k):
    a = arr(a)
    if a.ndim != 1 or isinstance(a._shape[0], Dom):
        raise Unsupported("sort")
    p = permutation_of(a._shape[0], "sort")
    f = a.snapshot()
    r = SArr(a._shape, lambda ix: f((p(ix[0]),)), a.kind)
    E = eng()
    i, j = z3.Ints(f"{fresh_name('i')} {fresh_name('j')}")
    n = zi(a._shape[0])
    with E.quiet():
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), num(f((p(i),)).z) <= num(f((p(j),)).z)), patterns=[z3.MultiPattern(p(i), p(j))]), "sort orders")
    return r


def argsort(a, **k):
    a = arr(a)
    if a.ndim != 1:
        raise Unsupported("argsort")
    p = permutation_of(a._shape[0], "argsort")
    f = a.snapshot()
    E = eng()
    i, j = z3.Ints(f"{fresh_name('i')} {fresh_name('j')}")
    n = zi(a._shape[0])
    with E.quiet():
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), num(f((p(i),)).z) <= num(f((p(j),)).z)), patterns=[z3.MultiPattern(p(i), p(j))]), "argsort orders")
    return SArr(a._shape, lambda ix: Sc(p(ix[0]), "i"), "i")


def permutation_of(d, why):
    """an arbitrary bijection of 0..d-1 with its inverse"""
    E = eng()
    n = zi(d)
    p, q = E.fresh_fun("perm", [I], I), E.fresh_fun("inv", [I], I)
    i = z3.Int(fresh_name("i"))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n, q(p(i)) == i)), patterns=[p(i)]), f"{why} is a permutation")
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(q(i) >= 0, q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    p.inverse = q
    return p


def array_split(a, k, axis=0):
    """k parts in order; the first len % k of them have one element more"""
    a = arr(a)
    if axis != 0 or not isinstance(k, int) or isinstance(k, bool):
        raise Unsupported("array_split")
    if isinstance(a._shape[0], int):
        n = a._shape[0]
        sizes = [n // k + (1 if i < n % k else 0) for i in range(k)]
    else:
        E = eng()
        n = zi(a._shape[0])
        sizes = []
        sizes = [z3.simplify((n + (k - 1 - i)) / z3.IntVal(k)) for i in range(k)]
    out, off = [], 0
    for m in sizes:
        end = off + m
        out.append(a[slice(off if isinstance(off, int) else Sc(off, "i"), end if isinstance(end, int) else Sc(end, "i"))])
        off = end
    return VList(out)


def repeat(a, n, axis=None):
    raise Unsupported("repeat")


def tile(a, n):
    raise Unsupported("tile")


def isin(a, b):
    raise Unsupported("isin")


class errstate:
    def __init__(self, **k):
        self.k = k

    def __enter__(self):
        self.c = eng().err("ignore")
        return self.c.__enter__()

    def __exit__(self, *a):
        return self.c.__exit__(*a)


def seterr(**k):
    return {}


class _Linalg:
    @staticmethod
    def norm(a, axis=None):
        a = arr(a)
        if axis is None and a.ndim == 1:
            return sqrt((a * a).sum())
        if axis is None:
            return sqrt((a * a).sum())
        return sqrt((a * a).sum(axis=axis))

    def __getattr__(self, n):
        from ..rt import Opaque
        return Opaque("numpy.linalg." + n)


linalg = _Linalg()


class _MA:
    @staticmethod
    def masked_greater_equal(a, v):
        a = arr(a)
        return MaskedArr(a, binop(">=", a, v))

    @staticmethod
    def count_masked(m, axis=None):
        if isinstance(m, MaskedArr):
            return m.mask.sum(axis)
        raise Unsupported("count_masked")


class MaskedArr:
    def __init__(self, a, mask):
        self.data, self.mask = a, mask


ma = _MA()
typing = types.SimpleNamespace(NDArray=None, ArrayLike=None)


from .rng import random  # noqa: E402
