"""Runtime of the rewritten code: builtins, displays, unpacking, attribute stores, module loading."""
import ast
import builtins
import functools
import operator
import os
import sys
import types
import z3
from .core import I, R, B, Unsupported, eng, fresh_name, to_real, to_int
from . import xform, sums
from .values import (AttrCell, Cell, Part, SArr, Sc, SSet, Seq, SymStr, UNDEF, VDict, VList, arr, as_seq, as_set, binop, cast_sc, contains, count_int,
                     dim, ew1, extreme, is_num, ite, lift, num, plain_dom, quantify, range_dom, rank, reduce_sum, same_dim, zi, trunc, sc_op)
from . import loops
from .loops import concrete, for_loop, while_loop, comp, Poison, id_of

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Arg(Exception):
    pass


# ------------------------------------------------------------------ builtins
def v_len(x):
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return builtins.len(x)


class SRange:
    _seq_or_arr = True

    def __init__(self, lo, hi):
        self.lo, self.hi = zi(lo), zi(hi)

    def vc_seq(self):
        d = plain_dom(self.hi) if z3.is_int_value(self.lo) and self.lo.as_long() == 0 and eng().valid(self.hi >= 0, 500) else range_dom(self.lo, self.hi)
        return Seq([Part(d, lambda k: Sc(k, "i"))])

    def vc_len(self):
        n = z3.simplify(self.hi - self.lo)
        return dim(n) if eng().valid(n >= 0, 500) else Sc(z3.If(n >= 0, n, z3.IntVal(0)), "i")

    def vc_array(self):
        from .values import seq_array
        return seq_array(self.vc_seq())

    def vc_contains(self, x):
        return Sc(z3.And(zi(x) >= self.lo, zi(x) < self.hi), "b")

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic range")
        from .values import nidx
        return Sc(self.lo + nidx(k, dim(self.hi - self.lo)), "i")


def v_range(*a):
    a = [int(x) if isinstance(x, Sc) and False else x for x in a]
    if any(isinstance(x, SArr) and x.ndim == 0 for x in a):
        a = [x.el() if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    cs = []
    for x in a:
        if isinstance(x, Sc):
            if x.kind == "f":
                raise TypeError("'float' object cannot be interpreted as an integer")
            s = z3.simplify(to_int(x.z))
            x = s.as_long() if z3.is_int_value(s) else x
        elif isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        cs.append(x)
    if all(isinstance(x, int) for x in cs):
        r = builtins.range(*cs)
        if builtins.len(r) > 400:
            return SRange(r.start, r.stop) if r.step == 1 else r
        return r
    if len(cs) == 1:
        return SRange(0, cs[0])
    if len(cs) == 2:
        return SRange(*cs)
    if isinstance(cs[2], int) and cs[2] == 1:
        return SRange(cs[0], cs[1])
    raise Unsupported("range with step")


def v_int(x=0, *a):
    if isinstance(x, SArr):
        if all(isinstance(d, int) and d == 1 for d in x._shape):
            x = x.el(*[0] * x.ndim)
        else:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
    if isinstance(x, Sc):
        if x.sp is not None:
            eng().defined(z3.Not(z3.Or(*x.sp)), "int of a finite number")
        return trunc(x)
    return builtins.int(x, *a)


def v_float(x=0.0):
    if isinstance(x, SArr) and all(isinstance(d, int) and d == 1 for d in x._shape):
        x = x.el(*[0] * x.ndim)
    if isinstance(x, SArr):
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if isinstance(x, Sc):
        return cast_sc(x, "f")
    if hasattr(x, "__vcfloat__"):
        return x.__vcfloat__()
    if isinstance(x, (list, tuple)):
        raise TypeError("float() argument must be a string or a real number")
    return builtins.float(x)


def v_bool(x=False):
    if isinstance(x, Sc):
        return cast_sc(x, "b")
    return builtins.bool(x)


def v_abs(x):
    return builtins.abs(x)


def v_round(x, n=None):
    if isinstance(x, (Sc, SArr)):
        raise Unsupported("round")
    return builtins.round(x) if n is None else builtins.round(x, n)


def fold(xs, op):
    r = xs[0]
    for x in xs[1:]:
        c = binop(op, x, r)
        if isinstance(c, Sc):
            r = ite(c.z, x, r)
        elif c:
            r = x
    return r


def _minmax(which, op):
    def f(*a, **kw):
        if kw:
            if "key" in kw:
                raise Unsupported("min/max with key")
        if len(a) == 1:
            x = a[0]
            if concrete(x):
                xs = builtins.list(x)
                if not xs:
                    if "default" in kw:
                        return kw["default"]
                    raise ValueError(f"{which}() arg is an empty sequence")
                if all(isinstance(v, SArr) and v.ndim == 0 or is_num(v) for v in xs):
                    return fold([v.el() if isinstance(v, SArr) else v for v in xs], op)
                return getattr(builtins, which)(xs)
            q = as_seq(x)
            if len(q.parts) == 1 and q.parts[0].dom is not None:
                ks = [z3.Int(fresh_name("mm")) for _ in q.parts[0].dom.ranges]
                with eng().quiet(), eng().scope(ks, q.parts[0].dom.conds(ks)):
                    one = q.parts[0].item(*ks)
                if hasattr(one, "vc_number"):  # ordered by a number
                    it = q.parts[0].item
                    return type(one)(extreme(arr(VList(seq=Seq([Part(q.parts[0].dom, lambda *k: it(*k).vc_number)]))), which))
            return extreme(arr(x if not hasattr(x, "vc_seq") or isinstance(x, SArr) else VList(seq=as_seq(x))), which)
        return fold(a, op)
    f.__name__ = which
    return f


v_min, v_max = _minmax("min", "<"), _minmax("max", ">")


def v_sum(x, start=0):
    if concrete(x):
        r = start
        for v in x:
            r = r + v
        return r
    s = as_seq(x)
    if isinstance(x, SArr) and x.ndim > 1:
        return x.sum(axis=0)
    E = eng()
    # element kind
    kind = "i"
    for p in s.parts:
        if p.dom is None:
            v = p.item()
        else:
            ks = [z3.Int(fresh_name("s")) for _ in p.dom.ranges]
            with E.quiet(), E.scope(ks, p.dom.conds(ks)):
                v = p.item(*ks)
        if not is_num(v):
            raise Unsupported("sum of arrays")
        if lift(v).kind == "f":
            kind = "f"
    t = s.sum(lambda v: to_real(num(lift(v).z)))
    r = Sc(t, "f") if kind == "f" else Sc(count_int(t), "i")
    return r if isinstance(start, int) and start == 0 else start + r


def v_any(x):
    if concrete(x):
        for v in x:
            if v:
                return True
        return False
    if isinstance(x, SArr):
        return quantify(x, "any")
    return Sc(as_seq(x).exists(lambda v: cast_sc(lift(v), "b").z), "b")


def v_all(x):
    if concrete(x):
        for v in x:
            if not v:
                return False
        return True
    if isinstance(x, SArr):
        return quantify(x, "all")
    return Sc(z3.Not(as_seq(x).exists(lambda v: z3.Not(cast_sc(lift(v), "b").z))), "b")


def v_enumerate(x, start=0):
    if concrete(x):
        return builtins.list(builtins.enumerate([x[i] for i in range(x._shape[0])] if isinstance(x, SArr) else builtins.list(x), start))
    s = as_seq(x)
    sm = s.simple()
    if sm is None:
        raise Unsupported("enumerate of a composite sequence")
    n, f = sm
    return VList(seq=Seq([Part(plain_dom(n), lambda k: (Sc(k + zi(start), "i"), f(k)))]))


def v_zip(*xs, strict=False):
    if all(concrete(x) for x in xs):
        return VList(builtins.zip(*[builtins.list(x) for x in xs], strict=strict))
    E = eng()
    sims = []
    for x in xs:
        if concrete(x):
            x = VList(builtins.list(x))
            if all(is_num(v) for v in x) and False:
                pass
            raise Unsupported("zip of a symbolic and a concrete sequence")
        sm = as_seq(x).simple()
        if sm is None:
            # sequences over the same domain
            ss = [as_seq(y) for y in xs]
            if all(len(s.parts) == 1 and s.parts[0].dom is not None for s in ss):
                d = ss[0].parts[0].dom
                if all(same_dim(s.parts[0].dom, d) or s.parts[0].dom is d for s in ss[1:]):
                    return VList(seq=Seq([Part(d, lambda *k: tuple(s.parts[0].item(*k) for s in ss))]))
            raise Unsupported("zip of composite sequences")
        sims.append(sm)
    n = sims[0][0]
    for m, _ in sims[1:]:
        if m.eq(n) or E.valid(m == n, 800):
            continue
        if strict:
            if not E.decide(m == n):
                raise ValueError("zip() arguments have different lengths")
            continue
        n = z3.If(m < n, m, n)
    fs = [f for _, f in sims]
    return VList(seq=Seq([Part(plain_dom(z3.simplify(n)), lambda k: tuple(f(k) for f in fs))]))


def zip_star(x, strict=False):
    """zip(*rows)"""
    if isinstance(x, SArr) and x.ndim == 2 and isinstance(x._shape[1], int):
        if not eng().decide(zi(x._shape[0]) > 0):
            return VList([])
        return VList([VList(seq=as_seq(x[:, c])) for c in range(x._shape[1])])
    s = as_seq(x)
    sm = s.simple()
    if sm is None:
        if len(s.parts) == 1 and s.parts[0].dom is not None:
            p = s.parts[0]
            E = eng()
            ks = [z3.Int(fresh_name("z")) for _ in p.dom.ranges]
            with E.quiet(), E.scope(ks, p.dom.conds(ks)):
                w = unpack(p.item(*ks), None)
            return VList([VList(seq=Seq([Part(p.dom, lambda *k, c=c: unpack(p.item(*k), len(w))[c])])) for c in range(len(w))])
        raise Unsupported("zip(*sequence)")
    n, f = sm
    E = eng()
    k = z3.Int(fresh_name("z"))
    with E.quiet(), E.scope([k], [k >= 0, k < n]):
        w = unpack(f(k), None)
    if not E.decide(n > 0):
        return VList([])
    return VList([VList(seq=Seq([Part(plain_dom(n), lambda k, c=c: unpack(f(k), len(w))[c])])) for c in range(len(w))])


v_zip.vc_star = lambda parts, kw: zip_star(parts[0][1], **kw) if len(parts) == 1 else None


def v_list(x=()):
    if concrete(x):
        return VList(builtins.list(x))
    return VList(seq=as_seq(x))


def v_tuple(x=()):
    if concrete(x):
        return builtins.tuple(builtins.list(x))
    return VList(seq=as_seq(x))


def v_set(x=()):
    if concrete(x):
        xs = builtins.list(x)
        if not any(isinstance(v, (Sc, SArr)) for v in xs):
            return builtins.set(xs)
        return as_set(VList(xs))
    return as_set(x)


def v_dict(*a, **k):
    d = VDict()
    for x in a:
        if isinstance(x, VDict):
            d.cell.v = x.cell.v if x.symbolic else dict(x.cell.v)
        elif isinstance(x, dict):
            for q, v in x.items():
                d[q] = v
        elif concrete(x):
            for q, v in x:
                d[q] = v
        else:
            d = loops.dict_of(as_seq(x))
    for q, v in k.items():
        d[q] = v
    return d


def v_sorted(x, key=None, reverse=False):
    if concrete(x):
        xs = builtins.list(x)
        if not any(isinstance(v, (Sc, SArr)) for v in xs):
            return VList(builtins.sorted(xs, key=key, reverse=reverse))
        if key is None and len(xs) <= 2 and all(is_num(v) or isinstance(v, Sc) for v in xs):
            if len(xs) < 2:
                return VList(xs)
            a, b = (lift(v) for v in xs)
            c = sc_op("<=", a, b)
            lo, hi = ite(c.z, a, b), ite(c.z, b, a)
            return VList([hi, lo] if reverse else [lo, hi])
    if key is not None or reverse:
        raise Unsupported("sorted with key")
    from .shims import np_
    return VList(seq=as_seq(np_.sort(arr(x))))


def v_reversed(x):
    if concrete(x):
        return builtins.list(builtins.reversed(builtins.list(x)))
    raise Unsupported("reversed")


def v_map(f, *xs):
    if len(xs) == 1:
        return comp("list", xs[0], None, f, [], False)
    return comp("list", v_zip(*xs), tuple(None for _ in xs), f, [], False)


def v_filter(f, x):
    return comp("list", x, None, lambda v: v, [f], False)


TYPES = {}


def _types(t):
    if isinstance(t, tuple):
        return tuple(y for x in t for y in (_types(x) if isinstance(_types(x), tuple) else (_types(x),)))
    if isinstance(t, types.UnionType):
        return tuple(_types(x) for x in t.__args__)
    return TYPES.get(t, t)


def v_isinstance(x, t):
    ts = _types(t)
    if not isinstance(ts, tuple):
        ts = (ts,)
    if isinstance(x, Poison):
        raise Unsupported("isinstance of an undescribed value")
    for c in ts:
        if hasattr(c, "vc_isinstance"):
            if c.vc_isinstance(x):
                return True
            continue
        if isinstance(x, Sc):
            if c is int and x.kind in "ib" or c is float and x.kind == "f" or c is bool and x.kind == "b":
                return True
            import numbers
            if c in (numbers.Number, numbers.Real) or c is numbers.Integral and x.kind in "ib":
                return True
            continue
        if isinstance(x, SymStr) and c is str:
            return True
        if isinstance(c, type) and builtins.isinstance(x, c):
            return True
    return False


def v_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, Sc):
        return {"i": int, "f": float, "b": bool}[x.kind]
    if isinstance(x, VList):
        return v_list
    if isinstance(x, VDict):
        return v_dict
    return builtins.type(x)


def v_print(*a, **k):
    pass


def v_iter(x):
    return builtins.iter(x)


for _n, _f in dict(int=v_int, float=v_float, bool=v_bool, list=v_list, tuple=v_tuple, set=v_set, dict=v_dict, range=v_range).items():
    _f.__name__ = _n
    TYPES[_f] = getattr(builtins, _n)

OVERRIDES = dict(len=v_len, range=v_range, int=v_int, float=v_float, bool=v_bool, abs=v_abs, round=v_round, min=v_min, max=v_max, sum=v_sum, any=v_any, all=v_all,
                 enumerate=v_enumerate, zip=v_zip, list=v_list, tuple=v_tuple, set=v_set, dict=v_dict, sorted=v_sorted, reversed=v_reversed, map=v_map,
                 filter=v_filter, isinstance=v_isinstance, print=v_print, type=v_type)


# ------------------------------------------------------------------ the names the rewritten code refers to
def unpack(v, n):
    if isinstance(v, SArr):
        d = v._shape[0] if v._shape else None
        if isinstance(d, int):
            if n is not None and d != n:
                raise ValueError("wrong number of values to unpack")
            return [v[i] for i in range(d)]
        if n is None:
            raise Unsupported("unpacking of a symbolic array")
        if d is None:
            raise TypeError("cannot unpack")
        if not eng().decide(zi(d) == n):
            raise ValueError("wrong number of values to unpack")
        return [v[i] for i in range(n)]
    if isinstance(v, VList):
        if v.symbolic:
            if n is None:
                raise Unsupported("unpacking")
            if not eng().decide(zi(v.vc_len()) == n):
                raise ValueError("wrong number of values to unpack")
            return [v[i] for i in range(n)]
        v = list(v)
    elif hasattr(v, "vc_unpack"):
        return v.vc_unpack(n)
    elif isinstance(v, Sc):
        raise TypeError("cannot unpack non-iterable number")
    else:
        v = builtins.list(v)
    if n is not None and builtins.len(v) != n:
        raise ValueError("wrong number of values to unpack")
    return v


_attr_cells = {}


def journal_attr(c):
    E = eng()
    d = c.obj.__dict__
    if not d:  # first attribute of a new object: it is made here
        d["_vc_born"] = len(E.journals)
    for jn in E.journals[d.get("_vc_born", 0):]:
        k = id_of(c)
        if k not in jn:
            jn[k] = (c, c.get())


def v_setattr(obj, name, v):
    d = getattr(type(obj), name, None)
    if isinstance(obj, (SArr, Sc)) or isinstance(d, property) or not hasattr(obj, "__dict__") or hasattr(d, "__set__"):
        setattr(obj, name, v)
        return
    if obj.__dict__.get("_vc_frozen"):
        eng().frame_violation(obj.__dict__["_vc_frozen"])
    journal_attr(AttrCell(obj, name))
    setattr(obj, name, v)


_OPS = dict(Add=operator.iadd, Sub=operator.isub, Mult=operator.imul, Div=operator.itruediv, FloorDiv=operator.ifloordiv, Mod=operator.imod, Pow=operator.ipow, BitAnd=operator.iand, BitOr=operator.ior)


def v_augattr(obj, name, op, v):
    v_setattr(obj, name, _OPS[op](getattr(obj, name), v))


def display(kind, parts):
    out = VList()
    for t, v in parts:
        if t == "*":
            out.extend(v if concrete(v) else VList(seq=as_seq(v))) if not concrete(v) else [out.append(x) for x in v]
        else:
            out.append(v)
    if kind == "tuple" and not out.symbolic:
        return tuple(out)
    return out


def star_call(f, parts, **kw):
    if all(t == "." or concrete(v) for t, v in parts):
        args = []
        for t, v in parts:
            if t == "*":
                args += builtins.list(v)
            else:
                args.append(v)
        return f(*args, **kw)
    h = getattr(f, "vc_star", None)
    if h is not None:
        r = h(parts, kw)
        if r is not None:
            return r
    raise Unsupported(f"call of {getattr(f, '__name__', f)} with a symbolic *argument")


def mkdict_star(items):
    d = VDict()
    for k, v in items:
        if k == "**":
            for q in v:
                d[q] = v[q]
        else:
            d[k] = v
    return d


class VC:
    UNDEF = UNDEF
    setattr = staticmethod(v_setattr)
    augattr = staticmethod(v_augattr)
    unpack = staticmethod(unpack)
    for_loop = staticmethod(for_loop)
    while_loop = staticmethod(while_loop)
    comp = staticmethod(comp)
    display = staticmethod(display)
    star_call = staticmethod(star_call)
    contains = staticmethod(contains)
    mkdict_star = staticmethod(mkdict_star)

    @staticmethod
    def mklist(items):
        return VList(items)

    @staticmethod
    def mkset(items):
        return v_set(VList(items))

    @staticmethod
    def mkdict(items):
        d = VDict()
        for k, v in items:
            d[k] = v
        return d

    @staticmethod
    def gget(g, names):
        return tuple(g.get(n, UNDEF) for n in names)

    @staticmethod
    def gset(g, names, vals):
        for n, v in zip(names, vals):
            if v is UNDEF:
                g.pop(n, None)
            else:
                g[n] = v


# ------------------------------------------------------------------ modules
class Opaque:
    """something of an imported library that has no contract: using it leaves the verified subset"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__") or n.startswith("vc_") or n == "_seq_or_arr":
            raise AttributeError(n)
        return Opaque(self._n + "." + n)

    def __call__(self, *a, **k):
        # decorators are harmless
        raise Unsupported(f"no contract for {self._n}")

    def __mro_entries__(self, bases):
        return (OpaqueBase,)

    def __or__(self, o):
        return Opaque(self._n + "|")

    def __iter__(self):
        raise Unsupported(f"no contract for {self._n}")

    def vc_isinstance(self, x):
        return False


class OpaqueBase:
    pass


REAL = {"functools", "collections", "collections.abc", "abc", "copy", "itertools", "sys", "os", "operator", "typing", "datetime", "numbers"}


class Loader:
    """loads pointpats modules of the tree under verification, rewritten"""

    def __init__(self, shims, repo=None, package="pointpats"):
        self.shims, self.repo, self.package = shims, repo or REPO, package
        self.mods = {}
        self.files = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(self.repo, *name.split("."), "__init__.py")
            if not os.path.exists(path):
                raise ImportError(name)
        src = open(path).read()
        code, _ = xform.transform(src, path)
        m = types.ModuleType(name)
        m.__file__ = path
        b = dict(vars(builtins))
        b.update(OVERRIDES)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["_vc_"] = VC
        m.__dict__["__package__"] = self.package
        self.mods[name] = m
        self.files[name] = path
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = self.package
            full = base + ("." + name if name else "")
            if not name:
                holder = types.SimpleNamespace()
                for f in fromlist:
                    setattr(holder, f, self.module(base + "." + f))
                return holder
            m = self.module(full)
            return m
        top = name.split(".")[0]
        if top == self.package:
            return self.module(name)
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[top] if top in self.shims else self.shims[name]
        if top in self.shims:
            m = self.shims[top]
            if not fromlist:
                return m
            for part in name.split(".")[1:]:
                m = getattr(m, part, None) or Opaque(name)
            return m
        if top in REAL:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if top in ("numba",):
            raise ModuleNotFoundError(name)
        return Opaque(name if fromlist else top)
