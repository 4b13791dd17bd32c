"""Symbolic values: scalars, arrays (index -> term, with views and writable buffers), sequences, sets, dictionaries."""
import itertools
import math
import z3
from .core import (I, R, B, Unsupported, eng, fresh_name, rv, to_int, to_real, mentions, symbols, is_z3)
from . import sums

PI = z3.Real("π")


# ------------------------------------------------------------------ mutable state
class Cell:
    """a mutable location; writes inside summarised regions are journalled so that they can be rolled back"""
    __slots__ = ("v", "frozen", "born", "info", "__weakref__")

    def __init__(self, v, frozen=None, info=None):
        self.v, self.frozen, self.info = v, frozen, info
        self.born = len(eng().journals)

    def set(self, v):
        E = eng()
        if self.frozen == "!":
            raise Unsupported("write through an item of a symbolic sequence")
        if self.frozen:
            E.frame_violation(self.frozen)
        for jn in E.journals[self.born:]:  # not those it was made in
            if id(self) not in jn:
                jn[id(self)] = (self, self.v)
        self.v = v


class AttrCell:
    """attribute of a native object, as a location"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def get(self):
        return self.obj.__dict__.get(self.name, UNDEF)

    def put(self, v):
        if v is UNDEF:
            self.obj.__dict__.pop(self.name, None)
        else:
            self.obj.__dict__[self.name] = v


class _Undef:
    def __repr__(self):
        return "UNDEF"

    def __bool__(self):
        raise UnboundLocalError("variable not assigned")


UNDEF = _Undef()


# ------------------------------------------------------------------ scalars
ND_NAMES = frozenset("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod
 cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize mT max mean min nbytes ndim newbyteorder nonzero
 partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device
 tobytes tofile tolist tostring trace transpose var view""".split())
LIST_NAMES = frozenset(n for n in dir(list) if not n.startswith("__"))
DICT_NAMES = frozenset(n for n in dir(dict) if not n.startswith("__"))


def modelled(e):
    """an exception the modelled operation itself raises"""
    e.modelled = True
    return e


class Sc:
    """a number or truth value: z3 term + kind ('f', 'i', 'b'); sp = (nan, inf) conditions for floats"""
    __slots__ = ("z", "kind", "sp")
    __array_priority__ = 100

    def __init__(self, z, kind=None, sp=None):
        if kind is None:
            kind = "b" if z.sort() == B else "i" if z.sort() == I else "f"
        self.z, self.kind, self.sp = z, kind, sp

    # -- python protocol
    def __bool__(self):
        z = self.z
        if z.sort() != B:
            z = z != (rv(0) if z.sort() == R else 0)
        return eng().decide(z)

    def _noconv(self, *a):
        raise Unsupported("symbolic number used where Python needs a concrete one")
    __int__ = __index__ = __float__ = _noconv

    def __repr__(self):
        return f"Sc<{self.kind}:{str(self.z)[:60]}>"

    def __hash__(self):
        raise Unsupported("symbolic number used as a concrete key")

    def __format__(self, spec):
        return "<symbolic>"

    def __str__(self):
        return "<symbolic>"

    def __add__(a, b): return binop("+", a, b)
    def __radd__(a, b): return binop("+", b, a)
    def __sub__(a, b): return binop("-", a, b)
    def __rsub__(a, b): return binop("-", b, a)
    def __mul__(a, b): return binop("*", a, b)
    def __rmul__(a, b): return binop("*", b, a)
    def __truediv__(a, b): return binop("/", a, b)
    def __rtruediv__(a, b): return binop("/", b, a)
    def __floordiv__(a, b): return binop("//", a, b)
    def __rfloordiv__(a, b): return binop("//", b, a)
    def __mod__(a, b): return binop("%", a, b)
    def __rmod__(a, b): return binop("%", b, a)
    def __pow__(a, b): return binop("**", a, b)
    def __rpow__(a, b): return binop("**", b, a)
    def __lt__(a, b): return binop("<", a, b)
    def __le__(a, b): return binop("<=", a, b)
    def __gt__(a, b): return binop(">", a, b)
    def __ge__(a, b): return binop(">=", a, b)
    def __eq__(a, b): return binop("==", a, b)
    def __ne__(a, b): return binop("!=", a, b)
    def __and__(a, b): return binop("&", a, b)
    def __rand__(a, b): return binop("&", b, a)
    def __or__(a, b): return binop("|", a, b)
    def __ror__(a, b): return binop("|", b, a)
    def __xor__(a, b): return binop("^", a, b)
    def __neg__(a): return Sc(-a.z, a.kind, a.sp)
    def __pos__(a): return a
    def __abs__(a): return Sc(z3.If(a.z >= 0, a.z, -a.z), a.kind, a.sp)
    def __invert__(a):
        if a.kind == "b":
            return Sc(z3.Not(a.z), "b")
        raise Unsupported("~ on a number")

    # numpy scalar protocol
    ndim = 0
    shape = ()
    size = 1
    def item(self): return self
    def sum(self, axis=None): return Sc(to_int(self.z), "i") if self.kind == "b" else self
    def any(self): return self
    def all(self): return self
    def squeeze(self): return self
    def copy(self): return self
    def min(self): return self
    def max(self): return self
    def mean(self): return self
    def is_integer(self): return Sc(z3.IsInt(to_real(self.z)), "b")
    def astype(self, t): return cast_sc(self, dtype_kind(t))
    def __iter__(self): raise modelled(TypeError("iteration over a 0-d array"))
    def __getitem__(self, i):
        if i == ():
            return self
        raise IndexError("invalid index to scalar variable.")
    @property
    def real(self): return self


def lift(x):
    """python number -> Sc"""
    if isinstance(x, Sc):
        return x
    if isinstance(x, bool):
        return Sc(z3.BoolVal(x), "b")
    if isinstance(x, int):
        return Sc(z3.IntVal(x), "i")
    if isinstance(x, float):
        if math.isnan(x):
            return Sc(rv(0), "f", (z3.BoolVal(True), z3.BoolVal(False)))
        if math.isinf(x):
            return Sc(INF if x > 0 else -INF, "f", (z3.BoolVal(False), z3.BoolVal(True)))
        return Sc(rv(x), "f")
    if is_z3(x):
        return Sc(x)
    if type(x).__name__ == "PiConst":
        return Sc(PI, "f")
    raise Unsupported(f"not a number: {type(x).__name__}")


INF = z3.Real("∞")


class PiConst(float):
    """np.pi / math.pi: the symbolic constant"""


def pi_value():
    E = eng()
    if "pi" not in E.ghost:
        E.ghost["pi"] = True
        E.assume_global(z3.And(PI > rv("3.14159265") if False else PI > z3.RealVal("3.14159265"), PI < z3.RealVal("3.14159266")))
    return Sc(PI, "f")


def inf_facts():
    """values above every number that occurs (used only for masking before a minimum)"""
    return Sc(INF, "f", (z3.BoolVal(False), z3.BoolVal(True)))


def is_num(x):
    return isinstance(x, (Sc, int, float, bool)) and not isinstance(x, str)


def dtype_kind(t):
    if t is None:
        return None
    n = t if isinstance(t, str) else getattr(t, "__name__", str(t))
    n = n.lower()
    if "bool" in n:
        return "b"
    if "int" in n:
        return "i"
    if "float" in n or "double" in n or n in ("f8", "f"):
        return "f"
    if "str" in n or "object" in n:
        raise Unsupported(f"dtype {n}")
    raise Unsupported(f"dtype {n}")


def cast_sc(x, k):
    x = lift(x)
    if k is None or x.kind == k:
        return x
    if k == "f":
        return Sc(to_real(x.z), "f", x.sp)
    if k == "i":
        return trunc(x)
    if k == "b":
        return Sc(x.z != (rv(0) if x.z.sort() == R else 0), "b")
    raise Unsupported("cast")


def rank(k):
    return {"b": 0, "i": 1, "f": 2}[k]


def num(z):
    return to_int(z) if z.sort() == B else z


def binop(op, a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return ew2(op, a, b)
    if isinstance(a, (str, type(None), list, tuple)) or isinstance(b, (str, type(None), list, tuple)) or not (is_num(a) and is_num(b)):
        if op == "==":
            if hasattr(b, "_seq_or_arr") or hasattr(a, "_seq_or_arr"):
                raise Unsupported("comparison")
            return False
        if op == "!=":
            return True
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if op == "*" and (isinstance(a, list) or isinstance(b, list)):
                return repeat_list(a, b)
            if isinstance(a, (list, tuple)) and isinstance(b, Sc) and op in "+-*/" or isinstance(b, (list, tuple)) and isinstance(a, Sc):
                raise Unsupported("list with symbolic number")
        return NotImplemented
    return sc_op(op, lift(a), lift(b))


def nz(z, what):
    """division is only meaningful for a divisor other than zero: an obligation at every division"""
    E = eng()
    if E.errstate:
        return
    s = z3.simplify(z)
    if z3.is_rational_value(s) or z3.is_int_value(s):
        if (s.as_fraction() if z3.is_rational_value(s) else s.as_long()) != 0:
            return
    E.defined(z != 0, what)


def sp_or(a, b):
    if a is None and b is None:
        return None
    f = z3.BoolVal(False)
    a, b = a or (f, f), b or (f, f)
    return (z3.simplify(z3.Or(a[0], b[0])), z3.simplify(z3.Or(a[1], b[1])))


def sc_op(op, a, b):
    x, y = a.z, b.z
    if op in ("&", "|", "^"):
        if a.kind == b.kind == "b":
            return Sc({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y), "b")
        raise Unsupported("bit operations on numbers")
    if op in ("==", "!=") and a.kind == b.kind == "b":
        r = x == y
        return Sc(r if op == "==" else z3.Not(r), "b")
    x, y = num(x), num(y)
    sp = sp_or(a.sp, b.sp)
    if op in ("<", "<=", ">", ">=", "==", "!="):
        if x.sort() != y.sort():
            x, y = to_real(x), to_real(y)
        r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
        if sp is not None:
            nan = sp[0]
            if op == "==" :
                r = z3.And(r, z3.Not(z3.Or(*sp)) if a.sp is None or b.sp is None else z3.Not(nan))
            elif op == "!=":
                r = z3.Or(r, nan)
            else:
                r = z3.And(r, z3.Not(nan))
        return Sc(z3.simplify(r) if sp is not None else r, "b")
    kind = "f" if "f" in (a.kind, b.kind) else "i"
    if op in ("+", "-", "*"):
        if x.sort() != y.sort():
            x, y = to_real(x), to_real(y)
        return Sc({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op](), kind, sp)
    if op == "/":
        x, y = to_real(x), to_real(y)
        E = eng()
        if E.errstate:
            nan = z3.And(x == 0, y == 0)
            inf = z3.And(x != 0, y == 0)
            return Sc(x / y, "f", sp_or(sp, (nan, inf)))
        nz(y, "/")
        return Sc(x / y, "f", sp)
    if op == "//":
        if kind == "i":
            nz(y, "//")
            if z3.is_int_value(y) and y.as_long() > 0:
                return Sc(x / y, "i")
            return Sc(floor_of(to_real(x) / to_real(y)), "i")
        nz(to_real(y), "//")
        return Sc(z3.ToReal(floor_of(to_real(x) / to_real(y))), "f", sp)
    if op == "%":
        if kind == "i" and z3.is_int_value(y) and y.as_long() > 0:
            return Sc(x % y, "i")
        nz(y, "%")
        q = floor_of(to_real(x) / to_real(y))
        if kind == "i":
            return Sc(x - y * q, "i")
        if z3.is_int_value(z3.simplify(to_int(x))) if x.sort() == I else False:
            pass
        # a real that is known to be integral keeps integer arithmetic
        if x.sort() == R and x.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_rational_value(z3.simplify(y)) and z3.simplify(to_real(y)).denominator_as_long() == 1 and z3.simplify(to_real(y)).numerator_as_long() > 0:
            return Sc(z3.ToReal(x.arg(0) % z3.simplify(to_real(y)).numerator_as_long()), "f", sp)
        return Sc(to_real(x) - to_real(y) * z3.ToReal(q), "f", sp)
    if op == "**":
        ys = z3.simplify(to_real(y))
        if z3.is_rational_value(ys):
            f = ys.as_fraction()
            if f == 2 and z3.is_app(x) and x.sort() == R and x.decl().name() == "sqrt":
                arg = x.arg(0)
                if eng().valid(arg >= 0, 300):
                    return Sc(arg, "f", sp)
            if f.denominator == 1 and 0 <= f <= 6:
                r = z3.RealVal(1) if x.sort() == R else z3.IntVal(1)
                for _ in range(int(f)):
                    r = r * x
                return Sc(r, kind, sp)
            if f.denominator == 1 and -3 <= f < 0:
                nz(x, "**")
                r = z3.RealVal(1)
                for _ in range(int(-f)):
                    r = r * to_real(x)
                return Sc(z3.RealVal(1) / r, "f", sp)
            if f.denominator == 2 and f.numerator == 1:
                return sqrt(Sc(x, a.kind, a.sp))
        return Sc(ufun("pow", 2)(to_real(x), to_real(y)), "f", sp)
    raise Unsupported(op)


def ufun(name, n, sort=R):
    return z3.Function(name, *([R] * n), sort)


def canon(z):
    """canonical form of a real term (so that equal arguments of uninterpreted functions are equal terms)"""
    try:
        return sums.p_term(sums.poly(to_real(z)))
    except Unsupported:
        return z3.simplify(to_real(z))


def sqrt(x):
    x = lift(x)
    E = eng()
    a = canon(x.z)
    if z3.is_rational_value(a):
        v = a.as_fraction()
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Sc(z3.Q(n, d), "f")
    s = ufun("sqrt", 1)(a)
    E.once(("sqrt", s), lambda: z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
    E.once(("sqrt0", s), lambda: z3.Implies(a > 0, s > 0))
    if not E.errstate and not E.scopes_quiet:
        E.defined(a >= 0, "sqrt")
    return Sc(s, "f", x.sp)


def as_integer(z):
    """the Int term equal to a real term built from integers by +, - and *, or None"""
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    from . import sums
    if z.decl().kind() in sums.ARITH:
        return sums.p_int_term(sums.poly(z))
    return None


def floor_of(z):
    """the integer floor of a real term, with its defining facts"""
    E = eng()
    z = z3.simplify(z) if False else z
    s = z3.simplify(z)
    if z3.is_rational_value(s):
        f = s.as_fraction()
        return z3.IntVal(f.numerator // f.denominator)
    n = as_integer(z)
    if n is not None:
        return n
    key = ("floor", z.get_id())
    hit = E.hash_cons.get(key)
    if hit is not None and hit[0].eq(z) and hit[2] is E.scopes[-1]:
        return hit[1]
    # as a function of the canonical argument: equal arguments give equal floors
    q = z3.Function("floor", R, I)(canon(z))
    E.assume(z3.And(z3.ToReal(q) <= z, z < z3.ToReal(q) + 1))
    if z.decl().kind() == z3.Z3_OP_DIV:
        a, b = z.children()
        E.assume(z3.Implies(b > 0, z3.And(z3.ToReal(q) * b <= a, a < z3.ToReal(q) * b + b)))
    E.hash_cons[key] = (z, q, E.scopes[-1])
    return q


def trunc(x):
    x = lift(x)
    if x.kind in "ib":
        return Sc(to_int(x.z), "i")
    z = x.z
    n = as_integer(z)
    if n is not None:
        return Sc(n, "i")
    E = eng()
    from . import sums
    if sums.is_nonneg(E, z) or E.valid(z >= 0, 800):
        return Sc(floor_of(z), "i")
    return Sc(z3.If(z >= 0, floor_of(z), -floor_of(-z)), "i")


def ceil(x):
    x = lift(x)
    if x.kind in "ib":
        return Sc(to_int(x.z), "i")
    z = x.z
    E = eng()
    s = z3.simplify(z)
    if z3.is_rational_value(s):
        f = s.as_fraction()
        return Sc(z3.IntVal(-((-f.numerator) // f.denominator)), "i")
    q = z3.Function("ceil", R, I)(canon(z))
    E.assume(z3.And(z3.ToReal(q) - 1 < z, z <= z3.ToReal(q)))
    if z.decl().kind() == z3.Z3_OP_DIV:
        a, b = z.children()
        E.assume(z3.Implies(b > 0, z3.And(z3.ToReal(q) * b - b < a, a <= z3.ToReal(q) * b)))
    return Sc(q, "i")


def ite(c, a, b):
    """value-level merge"""
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        a, b = lift(a), lift(b)
        k = a.kind if rank(a.kind) >= rank(b.kind) else b.kind
        x, y = a.z, b.z
        if x.sort() != y.sort():
            x, y = (to_real(x), to_real(y)) if k == "f" else (to_int(x), to_int(y))
        if x.eq(y) and a.sp is None and b.sp is None:
            return a
        sp = None
        if a.sp or b.sp:
            f = z3.BoolVal(False)
            p, q = a.sp or (f, f), b.sp or (f, f)
            sp = (z3.If(c, p[0], q[0]), z3.If(c, p[1], q[1]))
        return Sc(z3.If(c, x, y), k, sp)
    if isinstance(a, SArr) and isinstance(b, SArr):
        if len(a.shape) != len(b.shape):
            raise Unsupported("merge of arrays of different rank")
        sh = []
        for p, q in zip(a.shape, b.shape):
            if same_dim(p, q):
                sh.append(p)
            elif isinstance(p, Dom) or isinstance(q, Dom):
                raise Unsupported("merge of arrays over different domains")
            else:
                sh.append(Sc(z3.If(c, zi(p), zi(q)), "i"))
        k = a.kind if rank(a.kind) >= rank(b.kind) else b.kind
        fa, fb = a.snapshot(), b.snapshot()
        return SArr(sh, lambda ix: ite(c, fa(ix), fb(ix)), k)
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b) and not getattr(a, "symbolic", False) and not getattr(b, "symbolic", False):
        r = [ite(c, x, y) for x, y in zip(a, b)]
        return tuple(r) if isinstance(a, tuple) else VList(r)
    if isinstance(a, SSet) and isinstance(b, SSet):
        return SSet(a.arity, lambda *x: z3.If(c, a.pred(*x), b.pred(*x)), a.ranges)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        return SymStr([(c, a), (z3.Not(c), b)])
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        pa = a.cases if isinstance(a, SymStr) else [(z3.BoolVal(True), a)]
        pb = b.cases if isinstance(b, SymStr) else [(z3.BoolVal(True), b)]
        return SymStr([(z3.And(c, x), s) for x, s in pa] + [(z3.And(z3.Not(c), x), s) for x, s in pb])
    if a is None and b is None:
        return None
    if hasattr(a, "vc_merge"):
        return a.vc_merge(c, b)
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


class SymStr:
    """one of several strings"""

    def __init__(self, cases):
        self.cases = cases

    def is_(self, s):
        return z3.Or(*[c for c, t in self.cases if t == s]) if any(t == s for _, t in self.cases) else z3.BoolVal(False)

    def __eq__(self, o):
        if isinstance(o, str):
            return Sc(self.is_(o), "b")
        return NotImplemented
    __hash__ = None


# ------------------------------------------------------------------ dimensions
class Dom:
    """a dimension indexed by a tuple (i, j, ..) with i in range, .. and a guard; size = number of such tuples"""

    def __init__(self, ranges, guard=None, size=None, factors=None, key=None):
        self.ranges = ranges  # list of (lo, hi) functions of the earlier indices: fn(*prev) -> (lo, hi) z3 Int
        self.guard = guard or (lambda *k: z3.BoolVal(True))
        self._size = size
        self.factors = factors  # shape when this is a flattened product
        self.key = key

    def conds(self, ks):
        out = []
        for i, r in enumerate(self.ranges):
            lo, hi = r(*ks[:i])
            out += [lo <= ks[i], ks[i] < hi]
        g = self.guard(*ks)
        if not z3.is_true(g):
            out.append(g)
        return out

    @property
    def size(self):
        if self._size is None:
            self._size = Sc(sums_over(self, lambda *k: z3.IntVal(1)), "f")
            self._size = Sc(count_int(self._size.z), "i")
        return self._size

    def sum(self, fn):
        return sums_over(self, fn)


def sums_over(dom, fn):
    """sum over a Dom of fn(*ks) (z3 Real)"""
    E = eng()

    def rec(ks):
        if len(ks) == len(dom.ranges):
            g = dom.guard(*ks)
            v = fn(*ks)
            v = to_real(num(v) if v.sort() != B else v)
            return v if z3.is_true(g) else z3.If(g, v, z3.RealVal(0))
        lo, hi = dom.ranges[len(ks)](*ks)
        return sums.mk_sum(E, lo, hi, lambda j: rec(ks + [j]))
    return rec([])


def count_int(z):
    """an integer-valued real sum as Int term"""
    E = eng()
    s = z3.simplify(z)
    if z3.is_rational_value(s) and s.denominator_as_long() == 1:
        return z3.IntVal(s.numerator_as_long())
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    return z3.ToInt(z)


def zi(x):
    """dimension / index -> z3 Int"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Sc):
        if x.kind == "f" and x.z.sort() == R and x.z.decl().kind() != z3.Z3_OP_TO_REAL:
            s = z3.simplify(x.z)
            if not (z3.is_rational_value(s) and s.denominator_as_long() == 1):
                raise Unsupported("float used as an index")
        return to_int(x.z)
    if is_z3(x):
        return to_int(x)
    if isinstance(x, Dom):
        return zi(x.size)
    raise Unsupported(f"index {type(x).__name__}")


def dim(z):
    """z3 Int -> dimension"""
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return Sc(z, "i")


def same_dim(p, q):
    if p is q:
        return True
    if isinstance(p, Dom) or isinstance(q, Dom):
        return isinstance(p, Dom) and isinstance(q, Dom) and p.key is not None and p.key == q.key
    if isinstance(p, int) and isinstance(q, int):
        return p == q
    a, b = zi(p), zi(q)
    if a.eq(b):
        return True
    return bool(eng().valid(a == b, 800))


# ------------------------------------------------------------------ arrays
class SArr:
    """numpy array: shape (dims), element function; views share the buffer"""
    __array_priority__ = 1000
    _seq_or_arr = True
    symbolic = True

    def __getattr__(self, n):
        if n in ND_NAMES:
            raise Unsupported(f"{type(self).__name__}.{n}")
        raise modelled(AttributeError(n))

    def __init__(self, shape, fn=None, kind="f", cell=None, vmap=None, bshape=None, frozen=None):
        self._shape = tuple(dim(s.z) if isinstance(s, Sc) else s for s in shape)
        self.kind = kind
        if cell is None:
            cell = Cell(fn, frozen, ("arr", self._shape, kind))
            vmap = [("ix", d) for d in range(len(self._shape))]
            bshape = self._shape
        self.cell, self.vmap, self.bshape = cell, vmap, bshape

    # vmap: per base dimension ('ix', viewdim) | ('fix', z) | ('sl', start, step, viewdim)
    def _b(self, ix):
        out = []
        for m in self.vmap:
            if m[0] == "ix":
                out.append(ix[m[1]])
            elif m[0] == "fix":
                out.append(m[1])
            else:
                k = ix[m[3]]
                out.append(m[1] + k if m[2] == 1 else m[1] + m[2] * k)
        return tuple(out)

    def el(self, *ix):
        """element (Sc) at z3 indices"""
        ix = tuple(i if isinstance(i, tuple) else zi(i) for i in ix)
        assert len(ix) == len(self._shape), (ix, self._shape)
        v = self.cell.v(self._b(ix))
        return v if isinstance(v, Sc) or not is_num(v) else lift(v)

    def snapshot(self):
        """element function frozen at the present state"""
        f, b = self.cell.v, self._b
        return lambda ix: lift(f(b(ix)))

    @property
    def shape(self):
        return tuple(Sc(zi(d), "i") if isinstance(d, Dom) else d for d in self._shape)

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self._shape, self.cell, self.vmap, self.bshape = r._shape, r.cell, r.vmap, r.bshape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        n = self.ndim
        f = self.snapshot()
        return SArr(self._shape[::-1], lambda ix: f(tuple(reversed(ix))), self.kind)

    @property
    def values(self):
        return self

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return self.ravel()

    @property
    def flags(self):
        return _Flags()

    def __len__(self):
        raise Unsupported("len() outside the interpreted code")

    def vc_len(self):
        if not self._shape:
            raise modelled(TypeError("len() of unsized object"))
        d = self._shape[0]
        return Sc(zi(d), "i") if isinstance(d, Dom) else d

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return bool(self.el(*[0] * self.ndim))
        raise Unsupported("truth value of an array")

    def __iter__(self):
        if not self._shape:
            raise modelled(TypeError("iteration over a 0-d array"))
        if isinstance(self._shape[0], int):
            return iter([self[i] for i in range(self._shape[0])])
        raise Unsupported("native iteration over a symbolic array")

    def __repr__(self):
        return f"SArr{self._shape}"
    __hash__ = object.__hash__

    def __format__(self, s):
        return "<array>"

    # ------- reads
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ------- elementwise
    def __add__(a, b): return ew2("+", a, b)
    def __radd__(a, b): return ew2("+", b, a)
    def __sub__(a, b): return ew2("-", a, b)
    def __rsub__(a, b): return ew2("-", b, a)
    def __mul__(a, b): return ew2("*", a, b)
    def __rmul__(a, b): return ew2("*", b, a)
    def __truediv__(a, b): return ew2("/", a, b)
    def __rtruediv__(a, b): return ew2("/", b, a)
    def __floordiv__(a, b): return ew2("//", a, b)
    def __mod__(a, b): return ew2("%", a, b)
    def __pow__(a, b): return ew2("**", a, b)
    def __rpow__(a, b): return ew2("**", b, a)
    def __lt__(a, b): return ew2("<", a, b)
    def __le__(a, b): return ew2("<=", a, b)
    def __gt__(a, b): return ew2(">", a, b)
    def __ge__(a, b): return ew2(">=", a, b)
    def __eq__(a, b): return ew2("==", a, b)
    def __ne__(a, b): return ew2("!=", a, b)
    def __and__(a, b): return ew2("&", a, b)
    def __rand__(a, b): return ew2("&", b, a)
    def __or__(a, b): return ew2("|", a, b)
    def __ror__(a, b): return ew2("|", b, a)
    def __neg__(a): return ew1(lambda x: -x, a)
    def __abs__(a): return ew1(abs, a)
    def __invert__(a): return ew1(lambda x: ~x, a)
    def __matmul__(a, b): return dot(a, b)

    def _inplace(self, op, b):
        r = ew2(op, self, b)
        if r.ndim != self.ndim:
            raise ValueError("non-broadcastable output")
        write_region(self, None, r)
        return self
    def __iadd__(a, b): return a._inplace("+", b)
    def __isub__(a, b): return a._inplace("-", b)
    def __imul__(a, b): return a._inplace("*", b)
    def __itruediv__(a, b): return a._inplace("/", b)
    def __ipow__(a, b): return a._inplace("**", b)
    def __iand__(a, b): return a._inplace("&", b)
    def __ior__(a, b): return a._inplace("|", b)

    # ------- reductions
    def sum(self, axis=None, **kw): return reduce_sum(self, axis, **kw)
    def mean(self, axis=None, **kw):
        s = reduce_sum(self, axis)
        n = 1
        for d, k in enumerate(self.shape):
            if axis is None or d == norm_axis(axis, self.ndim):
                n = n * k
        return s / n
    def min(self, axis=None, **kw): return extreme(self, "min", axis)
    def max(self, axis=None, **kw): return extreme(self, "max", axis)
    def any(self, axis=None, **kw): return quantify(self, "any", axis)
    def all(self, axis=None, **kw): return quantify(self, "all", axis)
    def argmax(self, axis=None): return arg_extreme(self, "max", axis)
    def argmin(self, axis=None): return arg_extreme(self, "min", axis)
    def prod(self, axis=None):
        if axis is None and self.ndim == 1 and isinstance(self._shape[0], int):
            r = 1
            for i in range(self._shape[0]):
                r = r * self.el(i)
            return r
        raise Unsupported("prod")
    def cumsum(self, axis=None): return cumsum(self)

    # ------- shape
    def copy(self, *a, **k):
        f = self.snapshot()
        return SArr(self._shape, f, self.kind)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, t, **k):
        kk = dtype_kind(t)
        f = self.snapshot()
        return SArr(self._shape, lambda ix: cast_sc(f(ix), kk), kk)
    def flatten(self): return ravel(self, copy=True)
    def ravel(self): return ravel(self)
    def squeeze(self, axis=None):
        keep = [d for d, s in enumerate(self._shape) if not (isinstance(s, int) and s == 1)]
        for d in keep:
            s = self._shape[d]
            if not isinstance(s, (int, Dom)) and eng().decide(zi(s) == 1):
                keep = [k for k in keep if k != d]
        return self._drop(keep)
    def _drop(self, keep):
        if len(keep) == self.ndim:
            return self
        pos = {d: i for i, d in enumerate(keep)}
        vm = []
        for m in self.vmap:
            if m[0] == "ix":
                vm.append(("ix", pos[m[1]]) if m[1] in pos else ("fix", z3.IntVal(0)))
            elif m[0] == "sl":
                vm.append(("sl", m[1], m[2], pos[m[3]]) if m[3] in pos else ("fix", m[1]))
            else:
                vm.append(m)
        if any(isinstance(self._shape[d], Dom) for d in range(self.ndim) if d not in pos):
            raise Unsupported("squeeze")
        r = SArr([self._shape[d] for d in keep], kind=self.kind, cell=self.cell, vmap=vm, bshape=self.bshape)
        return r if keep else r.el()
    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)
    def tolist(self): return tolist(self)
    def item(self, *a):
        return self.el(*[0] * self.ndim)
    def dot(self, b): return dot(self, b)
    def nonzero(self):
        from . import shims
        return shims.np_where(self)
    def transpose(self, *a):
        return self.T
    def tobytes(self): raise Unsupported("tobytes")
    def sort(self, *a, **k): raise Unsupported("sort in place")
    def fill(self, v):
        write_region(self, None, v)
    def to_numpy(self): return self


class _Flags:
    writeable = True


class DType:
    def __init__(self, k):
        self.kind = k
        self.__name__ = {"f": "float64", "i": "int64", "b": "bool"}[k]

    def __eq__(self, o):
        try:
            return dtype_kind(o) == self.kind
        except Unsupported:
            return False
    __hash__ = None


def norm_axis(a, nd):
    return a if a >= 0 else a + nd


def arr(x, kind=None):
    """anything array-like -> SArr"""
    if isinstance(x, SArr):
        return x
    if is_num(x):
        v = lift(x)
        return SArr((), lambda ix: v, v.kind)
    if hasattr(x, "vc_array"):
        return x.vc_array()
    if isinstance(x, (list, tuple)) and not getattr(x, "symbolic", False):
        items = [arr(i) for i in x]
        if not items:
            return SArr((0,), lambda ix: lift(0.0), "f")
        nd = items[0].ndim
        if any(i.ndim != nd for i in items):
            raise Unsupported("ragged array")
        for i in items[1:]:
            if not all(same_dim(p, q) for p, q in zip(i._shape, items[0]._shape)):
                raise Unsupported("ragged array")
        kind = max((i.kind for i in items), key=rank)
        fs = [i.snapshot() for i in items]

        def fn(ix):
            k = ix[0]
            s = z3.simplify(k)
            if z3.is_int_value(s):
                v = s.as_long()
                if 0 <= v < len(fs):
                    return cast_sc(fs[v](ix[1:]), kind)
                return cast_sc(fs[0](ix[1:]), kind)
            r = cast_sc(fs[-1](ix[1:]), kind)
            for j in range(len(fs) - 2, -1, -1):
                r = ite(k == j, cast_sc(fs[j](ix[1:]), kind), r)
            return r
        return SArr((len(items),) + items[0]._shape, fn, kind)
    if isinstance(x, VList):
        return seq_array(x.seq())
    if isinstance(x, Seq):
        return seq_array(x)
    raise Unsupported(f"array from {type(x).__name__}")


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            i = k - (nd - len(s))
            if i < 0:
                continue
            e = s[i]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            if same_dim(d, e):
                continue
            if isinstance(d, Dom) or isinstance(e, Dom):
                raise Unsupported("arrays over different domains")
            E = eng()
            if isinstance(d, int) and isinstance(e, int):
                raise ValueError("operands could not be broadcast together")
            if E.decide(zi(d) == zi(e)):
                continue
            if E.decide(zi(e) == 1):
                continue
            if E.decide(zi(d) == 1):
                d = e
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bget(a, sh, nd):
    """index translator for broadcasting"""
    f = a.snapshot()
    off = nd - a.ndim
    one = [isinstance(s, int) and s == 1 and not (isinstance(sh[off + i], int) and sh[off + i] == 1) or (not isinstance(s, (int, Dom)) and not same_dim(s, sh[off + i])) for i, s in enumerate(a._shape)]
    zero = z3.IntVal(0)

    def g(ix):
        return f(tuple(zero if one[i] else ix[off + i] for i in range(len(one))))
    return g


def ew2(op, a, b):
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return op == "!="
    if not (isinstance(a, (SArr, list, tuple)) or is_num(a) or hasattr(a, "vc_array")) or not (isinstance(b, (SArr, list, tuple)) or is_num(b) or hasattr(b, "vc_array")):
        return NotImplemented
    a, b = arr(a), arr(b)
    sh = bshape([a._shape, b._shape])
    nd = len(sh)
    fa, fb = bget(a, sh, nd), bget(b, sh, nd)
    kind = "b" if op in ("<", "<=", ">", ">=", "==", "!=") else "f" if op == "/" else (a.kind if rank(a.kind) >= rank(b.kind) else b.kind)
    if kind == "b" and op in ("+", "-", "*"):
        kind = "i"
    if op in ("/", "//", "%", "**"):
        E = eng()
        if E.errstate == "" or not E.errstate:
            check_all(sh, lambda ix: _defined_only(op, fa(ix), fb(ix)))

    def fn(ix):
        with eng().quiet():
            return cast_sc(sc_op(op, fa(ix), fb(ix)), kind) if op not in ("&", "|", "^") else sc_op(op, fa(ix), fb(ix))
    if eng().errstate:
        es = eng().errstate

        def fn(ix):  # noqa: F811
            with eng().err(es):
                return sc_op(op, fa(ix), fb(ix))
    return SArr(sh, fn, kind) if sh or isinstance(a, SArr) and a.ndim or True and sh else fn(())


def _defined_only(op, x, y):
    sc_op(op, x, y)


def check_all(sh, act):
    """run act (which records definedness obligations) for an arbitrary element"""
    E = eng()
    ks, guard, ix = [], [], []
    for d in sh:
        if isinstance(d, Dom):
            kk = [z3.Int(fresh_name("d")) for _ in d.ranges]
            ks += kk
            guard += d.conds(kk)
            ix.append(tuple(kk))
        else:
            if isinstance(d, int) and d == 1:
                ix.append(z3.IntVal(0))
                continue
            k = z3.Int(fresh_name("d"))
            ks.append(k)
            guard += [k >= 0, k < zi(d)]
            ix.append(k)
    with E.scope(ks, guard):
        act(tuple(ix))


def ew1(f, a, kind=None):
    if is_num(a):
        return f(lift(a))
    a = arr(a)
    g = a.snapshot()
    if getattr(f, "may_fail", False):
        check_all(a._shape, lambda ix: f(g(ix)))

    def fn(ix):
        with eng().quiet():
            return f(g(ix))
    return SArr(a._shape, fn, kind or a.kind)


# ------------------------------------------------------------------ indexing
def nidx(k, d):
    """normalise a scalar index against dimension d, raising IndexError on the path where it is out of range"""
    E = eng()
    n = zi(d)
    z = zi(k)
    s = z3.simplify(z)
    if z3.is_int_value(s):
        v = s.as_long()
        if v < 0:
            z = n + v
            ok = z >= 0
        else:
            ok = s < n
        if isinstance(d, int):
            if not -d <= v < d:
                raise IndexError(f"index {v} is out of bounds for axis with size {d}")
            return z3.IntVal(v % d)
    else:
        if E.valid(z >= 0, 600):
            ok = z < n
        else:
            if E.decide(z >= 0):
                ok = z < n
            else:
                z = n + z
                ok = z >= 0
    if not E.decide(ok):
        raise IndexError("index out of bounds")
    return z3.simplify(z)


def nslice(sl, d):
    """(start, length, step) of a slice"""
    n = zi(d)
    step = 1 if sl.step is None else sl.step
    if not isinstance(step, int):
        raise Unsupported("symbolic step")
    E = eng()

    def clamp(v, default):
        if v is None:
            return default
        z = z3.simplify(zi(v))
        if z3.is_int_value(z) and isinstance(d, int):
            q = z.as_long()
            q = max(0, q + d) if q < 0 else min(q, d)
            return z3.IntVal(q)
        if z3.is_int_value(z):
            q = z.as_long()
            if q < 0:
                return z3.If(n + q >= 0, n + q, z3.IntVal(0)) if not E.valid(n + q >= 0, 500) else z3.simplify(n + q)
            if E.valid(n >= q, 500):
                return z
            return z3.If(z <= n, z, n)
        if E.valid(z3.And(z >= 0, z <= n), 600):
            return z
        z = z3.If(z < 0, z3.If(z + n < 0, z3.IntVal(0), z + n), z)
        return z3.If(z <= n, z, n)
    if step == 1:
        a, b = clamp(sl.start, z3.IntVal(0)), clamp(sl.stop, n)
        ln = z3.simplify(b - a)
        if not E.valid(ln >= 0, 500):
            ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        return a, dim(ln), 1
    if step == -1 and sl.start is None and sl.stop is None:
        return z3.simplify(n - 1), d, -1
    if step == 2 and sl.start is None and sl.stop is None and isinstance(d, int):
        return z3.IntVal(0), (d + 1) // 2, 2
    raise Unsupported("slice with step")


def selected(dom):
    """indices of the k-th element of a filtered domain: a function into it (the order, that of the filter, is not used)"""
    E = eng()
    key = ("_sel", id(dom))
    if key not in E.ghost:
        fs = [E.fresh_fun("sel", [I], I) for _ in dom.ranges]
        k = z3.Int(fresh_name("k"))
        ix = [f(k) for f in fs]
        n = zi(dom.size.z if isinstance(dom.size, Sc) else dom.size)
        with E.quiet():
            E.assume(n >= 0)
            E.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(*dom.conds(ix))), patterns=[ix[0]]))
        E.ghost[key] = (fs, dom)
    fs = E.ghost[key][0]
    return lambda k: [f(k) for f in fs]


def enumerated(a):
    """the array with its filtered first dimension numbered 0 .. size-1"""
    d = a._shape[0]
    sel, f = selected(d), a.snapshot()
    n = d.size
    return SArr((dim(zi(n.z if isinstance(n, Sc) else n)),) + tuple(a._shape[1:]), lambda ix: f((tuple(sel(ix[0])),) + tuple(ix[1:])), a.kind)


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if isinstance(a._shape[0] if a._shape else None, Dom) and not getattr(a._shape[0], "plain", False) and not any(isinstance(q, Dom) for q in a._shape[1:]) and (is_num(key[0]) and not isinstance(key[0], bool) or isinstance(key[0], slice) and key[0] != slice(None)):
        a = enumerated(a)
    # expand Ellipsis
    n_ix = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + (slice(None),) * (a.ndim - n_ix) + key[i + 1:]
    fancy = [k for k in key if isinstance(k, (SArr, list, VList, Seq)) or hasattr(k, "vc_array") and not is_num(k)]
    if fancy:
        return fancy_get(a, key)
    # basic indexing: view
    shape, d = [], 0
    sel = []
    for k in key:
        if k is None:
            shape.append(1)
            continue
        if d >= a.ndim:
            raise IndexError("too many indices for array")
        if isinstance(k, slice):
            if k == slice(None):
                sel.append(("all", len(shape)))
                shape.append(a._shape[d])
            else:
                if isinstance(a._shape[d], Dom):
                    raise Unsupported("slice of a domain dimension")
                st, ln, step = nslice(k, a._shape[d])
                sel.append(("sl", st, step, len(shape)))
                shape.append(ln)
        elif isinstance(k, bool):
            raise Unsupported("bool index")
        elif is_num(k):
            if isinstance(a._shape[d], Dom):
                raise Unsupported("integer index into a domain dimension")
            sel.append(("fix", nidx(k, a._shape[d])))
        else:
            raise Unsupported(f"index of type {type(k).__name__}")
        d += 1
    while d < a.ndim:
        sel.append(("all", len(shape)))
        shape.append(a._shape[d])
        d += 1
    vm = []
    for m in a.vmap:
        if m[0] == "fix":
            vm.append(m)
        else:
            base, step, vd = (z3.IntVal(0), 1, m[1]) if m[0] == "ix" else (m[1], m[2], m[3])
            s = sel[vd]
            if s[0] == "all":
                vm.append(("ix", s[1]) if m[0] == "ix" else ("sl", base, step, s[1]))
            elif s[0] == "fix":
                vm.append(("fix", s[1] if m[0] == "ix" else z3.simplify(base + step * s[1])))
            else:
                vm.append(("sl", s[1], s[2], s[3]) if m[0] == "ix" else ("sl", z3.simplify(base + step * s[1]), step * s[2], s[3]))
    r = SArr(shape, kind=a.kind, cell=a.cell, vmap=vm, bshape=a.bshape)
    return r if shape else r.el()


def fancy_get(a, key):
    E = eng()
    ks = []
    for k in key:
        if isinstance(k, (list, VList, Seq)) or (hasattr(k, "vc_array") and not isinstance(k, SArr)):
            k = arr(k)
        ks.append(k)
    # boolean mask over the leading dimensions
    if isinstance(ks[0], SArr) and ks[0].kind == "b":
        m = ks[0]
        if len(ks) > 1:
            if m.ndim == 1 and all(isinstance(k, slice) and k == slice(None) for k in ks[1:]):
                return mask_get(a, m)
            raise Unsupported("mask with further indices")
        return mask_get(a, m)
    if any(k is None for k in ks):
        raise Unsupported("newaxis with index array")
    while len(ks) < a.ndim:
        ks.append(slice(None))
    pos = [i for i, k in enumerate(ks) if isinstance(k, SArr) or is_num(k)]
    arrs = [arr(ks[i]) for i in pos]
    sh = bshape([x._shape for x in arrs])
    nd = len(sh)
    gets = [bget(x, sh, nd) for x in arrs]
    for i, g, x in zip(pos, gets, arrs):
        d = a._shape[i]
        if isinstance(d, Dom):
            raise Unsupported("index array into a domain dimension")

        def inb(ix, g=g, d=d):
            z = zi(g(ix))
            E.defined(z3.And(z >= -zi(d), z < zi(d)), "index array")
        check_all(sh, inb)
    # nonneg assumption: negative indices wrap
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("separated index arrays")
    outer = pos[0]
    tail = []
    shape = []
    for i in range(outer):
        if ks[i] != slice(None):
            raise Unsupported("slice before index array")
        shape.append(a._shape[i])
    shape += list(sh)
    for i in range(pos[-1] + 1, a.ndim):
        if ks[i] != slice(None):
            raise Unsupported("slice after index array")
        shape.append(a._shape[i])
    f = a.snapshot()

    def fn(ix):
        mid = ix[outer:outer + nd]
        idx = []
        for g, p in zip(gets, pos):
            z = zi(g(mid))
            s = z3.simplify(z)
            if z3.is_int_value(s) and s.as_long() < 0:
                z = zi(a._shape[p]) + s
            idx.append(z)
        return f(tuple(ix[:outer]) + tuple(idx) + tuple(ix[outer + nd:]))
    return SArr(shape, fn, a.kind)


def mask_get(a, m):
    """a[mask]: the selected elements, as a dimension over the original indices"""
    if m.ndim > a.ndim:
        raise IndexError("mask")
    for p, q in zip(m._shape, a._shape):
        if not same_dim(p, q):
            raise IndexError("boolean index did not match")
    mf = m.snapshot()
    nd = m.ndim
    ranges, guards, unpack = [], [], []
    for d in m._shape:
        if isinstance(d, Dom):
            base = len(ranges)
            for r in d.ranges:
                ranges.append((lambda *k, r=r, base=base: r(*k[base:])))
            guards.append((base, len(d.ranges), d.guard))
            unpack.append((base, len(d.ranges)))
        else:
            ranges.append(lambda *k, d=d: (z3.IntVal(0), zi(d)))
            unpack.append((len(ranges) - 1, None))

    def ixs(k):
        return tuple(k[b] if n is None else tuple(k[b:b + n]) for b, n in unpack)

    def guard(*k):
        gs = [g(*k[b:b + n]) for b, n, g in guards]
        return z3.simplify(z3.And(*gs, mf(ixs(k)).z))
    dom = Dom(ranges, guard, key=("mask", id(m)))
    dom.keep = m
    dom.mask_of = (a._shape[:nd], lambda ix: mf(ix).z)
    f = a.snapshot()
    return SArr((dom,) + tuple(a._shape[nd:]), lambda ix: f(ixs(ix[0]) + tuple(ix[1:])), a.kind)


def setitem(a, key, val):
    if not isinstance(key, tuple):
        key = (key,)
    masks = [k for k in key if isinstance(k, (SArr, VList)) or isinstance(k, list)]
    if masks:
        k0 = arr(key[0])
        if k0.kind == "b":
            mf = k0.snapshot()
            rest = key[1:]
            v = arr(val)
            if not rest:
                if v.ndim:
                    raise Unsupported("masked assignment of an array")
                vf = v.snapshot()
                old = a.snapshot()
                nd = k0.ndim
                new = SArr(a._shape, lambda ix: ite(mf(ix[:nd]).z, cast_sc(vf(()), a.kind), old(ix)), a.kind)
                write_region(a, None, new)
                return
            if len(rest) == 1 and is_num(rest[0]) and k0.ndim == 1 and v.ndim == 0:
                col = nidx(rest[0], a._shape[1])
                vf, old = v.snapshot(), a.snapshot()
                new = SArr(a._shape, lambda ix: ite(z3.And(mf(ix[:1]).z, ix[1] == col), cast_sc(vf(()), a.kind), old(ix)), a.kind)
                write_region(a, None, new)
                return
            # rids_i[rids == i] = rids[i]
            raise Unsupported("masked assignment")
        # integer index array
        if len(key) == 1:
            v = arr(val)
            vf = bget(v, k0._shape, k0.ndim) if v.ndim else v.snapshot()
            raise Unsupported("assignment through an index array")
        raise Unsupported("assignment through an index array")
    view = getitem_view(a, key)
    write_region(view, None, val)


def getitem_view(a, key):
    r = getitem(a, tuple(key) + (Ellipsis,) if not any(k is Ellipsis for k in key) and len([k for k in key if k is not None]) < a.ndim else key)
    if isinstance(r, SArr):
        return r
    # full scalar index: 0-d view
    fixed = []
    d = 0
    for k in key:
        if k is Ellipsis:
            continue
        fixed.append(nidx(k, a._shape[d]))
        d += 1
    vm = []
    for m in a.vmap:
        if m[0] == "fix":
            vm.append(m)
        elif m[0] == "ix":
            vm.append(("fix", fixed[m[1]]))
        else:
            vm.append(("fix", z3.simplify(m[1] + m[2] * fixed[m[3]])))
    return SArr((), kind=a.kind, cell=a.cell, vmap=vm, bshape=a.bshape)


def write_region(view, _, val):
    """assign val (broadcast) to the whole of a view"""
    v = arr(val) if not isinstance(val, SArr) else val
    sh = view._shape
    if v.ndim > len(sh):
        # leading ones are dropped
        lead = v._shape[: v.ndim - len(sh)]
        if all(isinstance(s, int) and s == 1 for s in lead):
            v = v.reshape(v._shape[v.ndim - len(sh):]) if False else v[(0,) * (v.ndim - len(sh))]
            v = arr(v)
        else:
            raise ValueError("could not broadcast input array")
    E = eng()
    off = len(sh) - v.ndim
    if v.ndim and isinstance(v._shape[0], Dom) and not getattr(v._shape[0], "plain", False) and not isinstance(sh[off], Dom) and not any(isinstance(q, Dom) for q in v._shape[1:]):
        v = enumerated(v)
    for i, s in enumerate(v._shape):
        if isinstance(s, int) and s == 1:
            continue
        t = sh[off + i]
        if not same_dim(s, t):
            if isinstance(s, Dom) or isinstance(t, Dom):
                raise Unsupported("assignment between domains")
            if not E.decide(zi(s) == zi(t)):
                raise ValueError("could not broadcast input array from one shape into another")
    g = bget(v, sh, len(sh)) if v.ndim else (lambda ix, f=v.snapshot(): f(()))
    old = view.cell.v
    vm = view.vmap
    kind = view.kind

    def fn(b):
        conds, ix = [], [None] * len(sh)
        for m, x in zip(vm, b):
            if m[0] == "fix":
                if not (is_z3(x) and x.eq(m[1])):
                    conds.append(x == m[1])
            elif m[0] == "ix":
                ix[m[1]] = x
            else:
                st, step, vd = m[1], m[2], m[3]
                n = zi(sh[vd])
                if step == 1:
                    k = z3.simplify(x - st)
                elif step == -1:
                    k = z3.simplify(st - x)
                else:
                    raise Unsupported("strided write")
                conds += [k >= 0, k < n]
                ix[vd] = k
        ix = [z3.IntVal(0) if i is None else i for i in ix]
        c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
        if z3.is_false(c):
            return lift(old(b))
        nv = cast_sc(g(tuple(ix)), kind)
        if z3.is_true(c):
            return nv
        return ite(c, nv, lift(old(b)))
    view.cell.set(fn)


# ------------------------------------------------------------------ reductions
def dim_sum(d, fn):
    """sum over one dimension of fn(index)"""
    if isinstance(d, Dom):
        return sums_over(d, lambda *k: fn(tuple(k)))
    return sums.mk_sum(eng(), z3.IntVal(0), zi(d), fn)


def reduce_sum(a, axis=None, **kw):
    a = arr(a)
    f = a.snapshot()
    kind = "i" if a.kind in "bi" else "f"
    nd = a.ndim
    if nd == 0:
        return f(())
    axes = list(range(nd)) if axis is None else [norm_axis(x, nd) for x in (axis if isinstance(axis, tuple) else (axis,))]
    keep = [d for d in range(nd) if d not in axes]

    def total(ix):
        def rec(rest, got):
            if not rest:
                full = [got.get(d) if d in got else ix[keep.index(d)] for d in range(nd)]
                with eng().quiet():
                    z = f(tuple(full)).z
                return to_real(num(z)) if z.sort() != B else to_real(z)
            d = rest[0]
            return dim_sum(a._shape[d], lambda k: rec(rest[1:], {**got, d: k}))
        z = rec(axes, {})
        if kind == "i":
            return Sc(count_int(z), "i")
        return Sc(z, "f")
    if not keep:
        return total(())
    cache = {}

    def fn(ix):
        key = tuple(i.get_id() if is_z3(i) else tuple(j.get_id() for j in i) for i in ix)
        hit = cache.get(key)
        if hit is None or hit[2] != len(eng().scopes):
            hit = cache[key] = (ix, total(ix), len(eng().scopes))
        return hit[1]
    return SArr([a._shape[d] for d in keep], fn, kind)


def dims_consts(sh, base="i"):
    """fresh index constants for a shape: (flat consts, conditions, index tuple)"""
    ks, guard, ix = [], [], []
    for d in sh:
        if isinstance(d, Dom):
            kk = [z3.Int(fresh_name(base)) for _ in d.ranges]
            ks += kk
            guard += d.conds(kk)
            ix.append(tuple(kk))
        elif isinstance(d, int) and d == 1:
            ix.append(z3.IntVal(0))
        else:
            k = z3.Int(fresh_name(base))
            ks.append(k)
            guard += [k >= 0, k < zi(d)]
            ix.append(k)
    return ks, guard, tuple(ix)


def nonempty(sh, what):
    E = eng()
    for d in sh:
        if isinstance(d, int):
            if d == 0:
                raise ValueError(f"zero-size array to reduction operation {what}")
            continue
        if isinstance(d, Dom):  # an element in sight?
            ks = [z3.Int(fresh_name("w")) for _ in d.ranges]
            if len(ks) == 1 and E.valid(z3.And(*d.conds([d.ranges[0]()[0]])), 500):
                continue
            if E.valid(z3.Exists(ks, z3.And(*d.conds(ks))), 1500):
                continue
        if not E.decide(zi(d) > 0):
            raise ValueError(f"zero-size array to reduction operation {what}")


def reduce_extreme(shape, f, kind, which):
    """least / greatest value of f over the index space `shape`: bound for all, attained by a witness"""
    E = eng()
    n = 1
    for d in shape:
        n = None if not isinstance(d, int) or n is None else n * d
    if n is not None and n <= 6:
        import itertools as it
        vals = [f(tuple(z3.IntVal(i) for i in ix)) for ix in it.product(*[range(d) for d in shape])]
        r = vals[0]
        for v in vals[1:]:
            c = sc_op("<=" if which == "min" else ">=", r, v)
            r = ite(c.z, r, v)
        return r
    # canonical: the same content has the same extreme
    ks, guard, ix = dims_consts(shape)
    sub = [(k, z3.Int(f"ι{n}")) for n, k in enumerate(ks)]
    with E.quiet(), E.scope(ks, guard):
        v = f(ix)
    if v.sp is not None:
        # masked-out elements are at infinity
        inf = z3.simplify(v.sp[1])
    else:
        inf = z3.BoolVal(False)
    key = (which, z3.substitute(num(v.z), *sub).sexpr(), tuple(z3.substitute(z3.And(*guard) if guard else z3.BoolVal(True), *sub).sexpr().split()))
    gs = E.generics()
    hit = E.hash_cons.get(key)
    if hit is not None:
        m, gs0 = hit
        if all(any(g.eq(h) for h in gs) for g in gs0):
            return m
    sort = num(v.z).sort()
    used = [g for g in gs if mentions(z3.And(v.z == v.z if False else (v.z if v.z.sort() == B else v.z == v.z), *guard), [g]) or True]
    m = E.fresh(which, sort)
    ws = [E.fresh("w", I) for _ in ks]
    cmp_ = (m <= num(v.z)) if which == "min" else (m >= num(v.z))
    body = z3.Implies(z3.And(*guard, z3.Not(inf)), cmp_)
    pats = E._patterns(ks, num(v.z))
    if ks:
        E.assume(z3.ForAll(ks, body, patterns=pats) if pats else z3.ForAll(ks, body))
    at = [(k, w) for k, w in zip(ks, ws)]
    E.assume(z3.substitute(z3.And(*guard, z3.Not(inf), m == num(v.z)), *at))
    if len(gs) == 1 and sort == R:
        for d in E.ghost.get("known_extrema", []):
            t = d(gs[0])
            if E.valid(m == t, 800, depth=1) or E.valid(m == t, 2000, depth=2):
                m = t  # proved equal to a ghost term of the contract
                break
    r = Sc(m, v.kind)
    E.hash_cons[key] = (r, gs)
    return r


def extreme(a, which, axis=None):
    a = arr(a)
    f = a.snapshot()
    if axis is None:
        nonempty(a._shape, which)
        return reduce_extreme(a._shape, f, a.kind, which)
    d = norm_axis(axis, a.ndim)
    nonempty([a._shape[d]], which)
    keep = [k for k in range(a.ndim) if k != d]
    cells = {}

    def fn(ix):
        return reduce_extreme([a._shape[d]], lambda jx: f(tuple(jx[0] if k == d else ix[keep.index(k)] for k in range(a.ndim))), a.kind, which)
    return lazy_array([a._shape[k] for k in keep], fn, a.kind)


def lazy_array(sh, fn, kind):
    """array whose element is introduced (with facts) once for a generic index; small concrete dims are enumerated"""
    E = eng()
    conc = [isinstance(d, int) and d <= 6 for d in sh]
    gens, guard, sub = [], [], []
    memo = {}
    for d, c in zip(sh, conc):
        if isinstance(d, Dom):
            raise Unsupported("lazy array over a domain")
        if not c:
            k = z3.Int(fresh_name("g"))
            gens.append(k)
            guard += [k >= 0, k < zi(d)]

    def build(concs):
        if concs in memo:
            return memo[concs]
        it = iter(concs)
        ig = iter(gens)
        ix = tuple(z3.IntVal(next(it)) if c else next(ig) for c in conc)
        with E.scope(gens, guard):
            v = fn(ix)
        memo[concs] = v
        return v
    import itertools as it
    for cs in it.product(*[range(d) for d, c in zip(sh, conc) if c]):
        build(cs)

    def get(ix):
        cs = [i for i, c in zip(ix, conc) if c]
        gv = [i for i, c in zip(ix, conc) if not c]

        def inst(v):
            s = list(zip(gens, gv))
            if not s:
                return v
            return Sc(z3.substitute(v.z, *s), v.kind, None if v.sp is None else tuple(z3.substitute(x, *s) for x in v.sp))
        dims = [d for d, c in zip(sh, conc) if c]

        def sel(i, acc):
            if i == len(cs):
                return inst(memo[tuple(acc)])
            z = z3.simplify(cs[i])
            if z3.is_int_value(z):
                return sel(i + 1, acc + [min(max(z.as_long(), 0), dims[i] - 1)])
            r = sel(i + 1, acc + [dims[i] - 1])
            for v in range(dims[i] - 2, -1, -1):
                r = ite(z == v, sel(i + 1, acc + [v]), r)
            return r
        return sel(0, [])
    if not sh:
        return get(())
    return SArr(sh, get, kind)


def quantify(a, which, axis=None):
    a = arr(a)
    f = a.snapshot()
    if a.kind != "b":
        g = f
        f = lambda ix: cast_sc(g(ix), "b")
    E = eng()

    def q(shape, ff):
        n = 1
        for d in shape:
            n = None if not isinstance(d, int) or n is None else n * d
        if n is not None and n <= 6:
            import itertools as it
            vals = [ff(tuple(z3.IntVal(i) for i in ix)).z for ix in it.product(*[range(d) for d in shape])]
            return Sc(z3.simplify(z3.Or(*vals) if which == "any" else z3.And(*vals)), "b")
        ks, guard, ix = dims_consts(shape)
        with E.quiet(), E.scope(ks, guard):
            v = z3.simplify(ff(ix).z)
        if z3.is_true(v) and which == "all" or z3.is_false(v) and which == "any":
            return Sc(z3.BoolVal(which == "all"), "b")
        if which == "any":
            r = z3.Exists(ks, z3.And(*guard, v))
        else:
            pats = E._patterns(ks, v)
            r = z3.ForAll(ks, z3.Implies(z3.And(*guard), v), patterns=pats) if pats else z3.ForAll(ks, z3.Implies(z3.And(*guard), v))
        return Sc(r, "b")
    if axis is None:
        return q(a._shape, f)
    d = norm_axis(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k != d]
    return SArr([a._shape[k] for k in keep], lambda ix: q([a._shape[d]], lambda jx: f(tuple(jx[0] if k == d else ix[keep.index(k)] for k in range(a.ndim)))), "b")


def arg_extreme(a, which, axis=None):
    """first index of the extreme"""
    a = arr(a)
    E = eng()
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax with axis")
    if a.ndim != 1:
        raise Unsupported("argmax of a matrix")
    nonempty(a._shape, "arg" + which)
    f = a.snapshot()
    n = zi(a._shape[0])
    i = E.fresh("arg" + which, I)
    k = z3.Int(fresh_name("k"))
    with E.quiet(), E.scope([k], [k >= 0, k < n]):
        vk = f((k,)).z
    vi = z3.substitute(vk, (k, i))
    if a.kind == "b":
        # first True, or 0 when there is none
        ex = E.fresh("any", B)
        b1 = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.Not(vk)))
        E.assume(z3.And(i >= 0, i < n, z3.Implies(ex, z3.And(vi, b1)), z3.Implies(z3.Not(ex), z3.And(i == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Not(vk)))))))
        E.ghost.setdefault("argmax", []).append((i, ex))
        return Sc(i, "i")
    vk, vi = num(vk), num(vi)
    le = (vk <= vi) if which == "max" else (vk >= vi)
    lt = (vk < vi) if which == "max" else (vk > vi)
    E.assume(z3.And(i >= 0, i < n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), le)), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), lt))))
    return Sc(i, "i")


def cumsum(a):
    a = arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    f = a.snapshot()
    kind = "i" if a.kind in "bi" else "f"

    def fn(ix):
        z = sums.mk_sum(eng(), z3.IntVal(0), ix[0] + 1, lambda j: to_real(num(f((j,)).z)))
        return Sc(z, "f") if kind == "f" else Sc(count_int(z), "i")
    return SArr(a._shape, fn, kind)


def dot(a, b):
    a, b = arr(a), arr(b)
    fa, fb = a.snapshot(), b.snapshot()
    if a.ndim == 0 or b.ndim == 0:
        return ew2("*", a, b)
    d = a._shape[-1]
    if not same_dim(d, b._shape[0 if b.ndim == 1 else -2]):
        raise ValueError("shapes not aligned")
    kind = "f" if "f" in (a.kind, b.kind) else "i"
    na = a.ndim - 1

    def fn(ix):
        def t(k):
            x = fa(tuple(ix[:na]) + (k,))
            y = fb((k,) + tuple(ix[na:])) if b.ndim <= 2 else None
            return to_real(sc_op("*", x, y).z)
        return Sc(dim_sum(d, t), "f") if kind == "f" else Sc(count_int(dim_sum(d, t)), "i")
    sh = list(a._shape[:-1]) + ([] if b.ndim == 1 else list(b._shape[1:]))
    return SArr(sh, fn, kind) if sh else fn(())


# ------------------------------------------------------------------ reshape
def ravel(a, copy=False):
    if a.ndim == 1:
        return a.copy() if copy else a
    real = [d for d in a._shape if not (isinstance(d, int) and d == 1)]
    if len(real) <= 1 and not (real and isinstance(real[0], Dom) and False):
        keep = [d for d, s in enumerate(a._shape) if not (isinstance(s, int) and s == 1)]
        if not keep:
            return a.reshape((1,))
        r = a._drop(keep)
        return r.copy() if copy else r
    if any(isinstance(d, Dom) for d in a._shape):
        raise Unsupported("ravel of a domain array")
    f = a.snapshot()
    if all(isinstance(d, int) for d in a._shape):
        n = 1
        for d in a._shape:
            n *= d
        dims = a._shape

        def fn(ix):
            k, out = ix[0], []
            for d in reversed(dims):
                out.append(z3.simplify(k % d))
                k = z3.simplify(k / d)
            return f(tuple(reversed(out)))
        return SArr((n,), fn, a.kind)
    return SArr((flat_dom(a._shape),), lambda ix: f(tuple(ix[0])), a.kind)


def flat_dom(shape):
    shape = tuple(shape)
    ranges = [lambda *k, d=d: (z3.IntVal(0), zi(d)) for d in shape]
    size = 1
    for d in shape:
        size = size * (d if isinstance(d, int) else Sc(zi(d), "i"))
    return Dom(ranges, None, size=lift(size), factors=shape, key=("flat",) + tuple(z3.simplify(zi(d)).sexpr() for d in shape))


def reshape(a, s):
    s = [x if isinstance(x, int) else dim(zi(x)) for x in s]
    E = eng()
    # -1 handling
    old = list(a._shape)
    if s.count(-1) > 1:
        raise ValueError("can only specify one unknown dimension")
    if len(s) == len(old) and all((not isinstance(p, Dom) and p != -1 and same_dim(p, q)) or (isinstance(p, int) and p == -1 and sum(1 for x in s if isinstance(x, int) and x == -1) == 1) for p, q in zip(s, old) if True) and not any(isinstance(q, Dom) for q in old):
        return SArr(old, kind=a.kind, cell=a.cell, vmap=a.vmap, bshape=a.bshape)
    core_old = [d for d in old if not (isinstance(d, int) and d == 1)]
    core_new = [d for d in s if not (isinstance(d, int) and d == 1)]
    f = a.snapshot()
    oldpos = [i for i, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
    newpos = [i for i, d in enumerate(s) if not (isinstance(d, int) and d == 1)]
    zero = z3.IntVal(0)
    if len(core_old) == len(core_new) and all((isinstance(p, int) and p == -1) or (not isinstance(q, Dom) and same_dim(p, q)) or (isinstance(q, Dom) and E.valid(zi(p) == zi(q), 600)) for p, q in zip(core_new, core_old)):
        def fn(ix):
            o = [zero] * len(old)
            for p, q in zip(oldpos, newpos):
                o[p] = ix[q]
            return f(tuple(o))
        sh = list(s)
        for p, q in zip(oldpos, newpos):
            sh[q] = old[p]
        r = SArr(sh, fn, a.kind)
        # reshape of a contiguous array is a view: keep writes visible
        if all(m[0] == "ix" for m in a.vmap) and len(a.vmap) == len(old):
            vm = [None] * len(old)
            for p in range(len(old)):
                vm[p] = ("ix", newpos[oldpos.index(p)]) if p in oldpos else ("fix", zero)
            r = SArr(sh, kind=a.kind, cell=a.cell, vmap=vm, bshape=a.bshape)
        return r
    if not core_old and len(core_new) == 1 and core_new[0] == -1:
        return SArr([1 if x == -1 else x for x in s], lambda ix: f(tuple(zero for _ in old)), a.kind)
    if not core_new and not core_old:
        return SArr(s, lambda ix: f(tuple(zero for _ in old)), a.kind)
    if len(core_new) == 1 and core_new[0] == -1 or (len(core_new) == 1 and len(core_old) > 1):
        r = ravel(a)
        return r if len(s) == 1 else reshape(r, s)
    # unflatten
    if len(core_old) == 1 and isinstance(core_old[0], Dom) and core_old[0].factors:
        fac = list(core_old[0].factors)
        want = list(s)
        if -1 in want:
            k = want.index(-1)
            if len(want) == len(fac):
                want[k] = fac[k]
        if len(want) == len(fac) and all(same_dim(p, q) for p, q in zip(want, fac)):
            pos = oldpos[0]
            return SArr(want, lambda ix: f(tuple(tuple(ix) if i == pos else zero for i in range(len(old)))), a.kind)
        # a product of the right size in another order: a permuted layout
        tot = 1
        for x in want:
            tot = tot * (x if isinstance(x, int) else Sc(zi(x), "i"))
        raise Unsupported("reshape of a flattened array to another shape")
    if len(core_old) == 1 and isinstance(core_old[0], Dom) and getattr(core_old[0], "mask_of", None):
        return unmask_rows(a, s)
    if len(core_new) == 0 and len(core_old) >= 1:
        for d in core_old:
            if not E.decide(zi(d) == 1):
                raise ValueError("cannot reshape")
        return SArr(s, lambda ix: f(tuple(zero for _ in old)), a.kind)
    if len(core_old) == 2 and len(core_new) == 2 and -1 in s and all(isinstance(d, int) or not isinstance(d, Dom) for d in core_old):
        # (n, 1) <-> (-1, 2) style: only trivial cases are supported
        pass
    if len(core_old) == 0 and -1 in s:
        return SArr([1 if x == -1 else x for x in s], lambda ix: f(tuple(zero for _ in old)), a.kind)
    # general: total sizes concrete
    if all(isinstance(d, int) for d in old) and all(isinstance(d, int) for d in s):
        r = ravel(a)
        rf = r.snapshot()
        n = r._shape[0]
        want = list(s)
        if -1 in want:
            p = 1
            for x in want:
                if x != -1:
                    p *= x
            want[want.index(-1)] = n // p if p else 0
        p = 1
        for x in want:
            p *= x
        if p != n:
            raise ValueError(f"cannot reshape array of size {n} into shape {tuple(want)}")

        def fn(ix):
            k = z3.IntVal(0)
            for d, i in zip(want, ix):
                k = k * d + i
            return rf((z3.simplify(k),))
        return SArr(want, fn, a.kind)
    # symbolic mismatch: sizes must agree
    p = q = 1
    for d in old:
        p = p * (d if isinstance(d, int) else Sc(zi(d), "i"))
    if -1 not in s:
        for d in s:
            q = q * (d if isinstance(d, int) else Sc(zi(d), "i"))
        if not bool(binop("==", p, q)):
            raise ValueError("cannot reshape array")
    raise Unsupported(f"reshape {a._shape} -> {tuple(s)}")


def unmask_rows(a, s):
    """x[mask].reshape(n, k) for a mask (n, m) that selects exactly k entries in every row: contract of row-wise compression"""
    E = eng()
    dom = [d for d in a._shape if isinstance(d, Dom)][0]
    (msh, mf) = dom.mask_of
    if len(msh) != 2 or len(s) != 2 or not same_dim(s[0], msh[0]):
        raise Unsupported("reshape of a selection")
    n, m, k = zi(msh[0]), zi(msh[1]), zi(s[1])
    # obligation: every row selects exactly k
    i = z3.Int(fresh_name("row"))
    with E.scope([i], [i >= 0, i < n]):
        cnt = sums.mk_sum(E, z3.IntVal(0), m, lambda c: to_real(mf((i, c))))
        E.defined(cnt == z3.ToReal(k), "reshape: every row keeps the same number of entries")
    key = ("rowsel", id(dom.keep))
    pos = E.ghost.get(key)
    if pos is None:
        pos = E.fresh_fun("pos", [I, I], I)
        inv = E.fresh_fun("inv", [I, I], I)
        E.ghost[key] = pos
        E.ghost[("rowsel_dom", id(dom.keep))] = dom
        i, c, d = z3.Ints(f"{fresh_name('i')} {fresh_name('c')} {fresh_name('d')}")
        rng = z3.And(i >= 0, i < n, c >= 0, c < k)
        E.assume(z3.ForAll([i, c], z3.Implies(rng, z3.And(pos(i, c) >= 0, pos(i, c) < m, mf((i, pos(i, c))), pos(i, c) >= c)), patterns=[pos(i, c)]), "row-wise compression keeps the selected entries in order")
        E.assume(z3.ForAll([i, c, d], z3.Implies(z3.And(i >= 0, i < n, 0 <= c, c < d, d < k), pos(i, c) < pos(i, d)), patterns=[z3.MultiPattern(pos(i, c), pos(i, d))]))
        E.assume(z3.ForAll([i, d], z3.Implies(z3.And(i >= 0, i < n, d >= 0, d < m, mf((i, d))), z3.And(inv(i, d) >= 0, inv(i, d) < k, pos(i, inv(i, d)) == d)), patterns=[inv(i, d)] + (E._patterns([i, d], mf((i, d))) or [])))
        E.ghost[("rowinv", id(dom.keep))] = inv
    f = a.snapshot()
    return SArr((msh[0], s[1]), lambda ix: f(((ix[0], pos(ix[0], ix[1])),)), a.kind)


# ------------------------------------------------------------------ sequences
class Part:
    """a run of items: item(*ks) for ks in dom (dom None: a single item)"""
    __slots__ = ("dom", "item")

    def __init__(self, dom, item):
        self.dom, self.item = dom, item


class Seq:
    """a finite sequence given by parts in order"""
    symbolic = True
    _seq_or_arr = True

    def __init__(self, parts):
        self.parts = list(parts)

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (1 if p.dom is None else p.dom.size)
        return n

    def simple(self):
        """(n, fn) when the items are fn(0..n-1)"""
        if all(p.dom is None for p in self.parts):
            return None
        if len(self.parts) == 1:
            d = self.parts[0].dom
            if len(d.ranges) == 1 and getattr(d, "plain", False):
                lo, hi = d.ranges[0]()
                it = self.parts[0].item
                if z3.is_int_value(lo) and lo.as_long() == 0:
                    return hi, it
                return z3.simplify(hi - lo), (lambda k: it(lo + k))
        return None

    def sum(self, fn):
        """sum of fn(item) over the sequence (z3 Real)"""
        t = z3.RealVal(0)
        for p in self.parts:
            t = t + (fn(p.item()) if p.dom is None else sums_over(p.dom, lambda *k, p=p: fn(p.item(*k))))
        return t

    def exists(self, fn):
        out = []
        for p in self.parts:
            if p.dom is None:
                out.append(fn(p.item()))
            else:
                ks = [z3.Int(fresh_name("e")) for _ in p.dom.ranges]
                out.append(exists(ks, z3.And(*p.dom.conds(ks), fn(p.item(*ks)))))
        return z3.Or(*out) if out else z3.BoolVal(False)


def plain_dom(n):
    d = Dom([lambda: (z3.IntVal(0), n)], None, size=Sc(n, "i"), key=("plain", z3.simplify(n).sexpr()))
    d.plain = True
    return d


def range_dom(lo, hi):
    d = Dom([lambda: (lo, hi)], None, size=Sc(z3.If(hi >= lo, hi - lo, z3.IntVal(0)), "i"), key=("range", z3.simplify(lo).sexpr(), z3.simplify(hi).sexpr()))
    d.plain = True
    return d


def exists(ks, body):
    """existential with one-point elimination"""
    body = z3.simplify(body)
    cs = list(body.children()) if z3.is_and(body) else [body]
    ks = list(ks)
    changed = True
    while changed and ks:
        changed = False
        for c in cs:
            if z3.is_eq(c) and c.arg(0).sort() == I:
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    hit = [k for k in ks if k.eq(x)]
                    if hit and not mentions(y, hit):
                        cs = [z3.substitute(d, (x, y)) for d in cs if not d.eq(c)]
                        ks = [k for k in ks if not k.eq(x)]
                        changed = True
                        break
            if changed:
                break
        if not changed:
            # split on a conditional equality:  (c ? a : b) == t
            for c in cs:
                if z3.is_eq(c):
                    ites = [t for t in c.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE]
                    if ites and any(mentions(c, [k]) for k in ks):
                        cond = ites[0].arg(0)
                        rest = [d for d in cs]
                        t = [z3.simplify(z3.substitute(d, (cond, z3.BoolVal(True)))) for d in rest] + [cond]
                        f = [z3.simplify(z3.substitute(d, (cond, z3.BoolVal(False)))) for d in rest] + [z3.Not(cond)]
                        return z3.Or(exists(ks, z3.And(*t)), exists(ks, z3.And(*f)))
    body = z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
    ks = [k for k in ks if mentions(body, [k])]
    return z3.Exists(ks, body) if ks else body


def seq_array(s):
    """np.array of a sequence of numbers / rows"""
    if not s.parts:
        return SArr((0,), lambda ix: lift(0.0), "f")
    sm = s.simple()
    if sm is not None:
        n, fn = sm
        E = eng()
        k = z3.Int(fresh_name("k"))
        with E.quiet(), E.scope([k], [k >= 0, k < n]):
            probe = fn(k)
            if not is_num(probe):
                probe = arr(probe)
        if is_num(probe):
            kind = lift(probe).kind
            return SArr((dim(n),), lambda ix: cast_sc(lift(fn(ix[0])), kind), kind)
        for d in probe._shape:
            if not isinstance(d, Dom) and mentions(zi(d), [k]):
                raise Unsupported("ragged symbolic array")
        return SArr((dim(n),) + probe._shape, lambda ix: arr(fn(ix[0])).el(*ix[1:]), probe.kind)
    if len(s.parts) == 1:
        p = s.parts[0]
        E = eng()
        ks = [z3.Int(fresh_name("k")) for _ in p.dom.ranges]
        with E.quiet(), E.scope(ks, p.dom.conds(ks)):
            probe = p.item(*ks)
            if not is_num(probe):
                probe = arr(probe)
        if is_num(probe):
            kind = lift(probe).kind
            return SArr((p.dom,), lambda ix: cast_sc(lift(p.item(*ix[0])), kind), kind)
        return SArr((p.dom,) + probe._shape, lambda ix: arr(p.item(*ix[0])).el(*ix[1:]), probe.kind)
    # leading single items followed by one simple run, e.g. [0, *fracs]
    lead = []
    rest = list(s.parts)
    while rest and rest[0].dom is None:
        lead.append(rest.pop(0).item())
    if len(rest) == 1 or not rest:
        if not rest:
            return arr(lead)
        tail = seq_array(Seq(rest))
        if isinstance(tail._shape[0], Dom):
            raise Unsupported("mixed sequence")
        return concat_arrays([arr(lead), tail])
    trail = []
    while rest and rest[-1].dom is None:
        trail.insert(0, rest.pop().item())
    if len(rest) == 1:
        mid = seq_array(Seq(rest))
        return concat_arrays(([arr(lead)] if lead else []) + [mid, arr(trail)])
    raise Unsupported("array of a composite sequence")


def concat_arrays(xs, axis=0):
    """concatenate along the first axis"""
    xs = [arr(x) for x in xs]
    kind = max((x.kind for x in xs), key=rank)
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        raise ValueError("all the input array dimensions must match")
    E = eng()
    axis = norm_axis(axis, nd)
    for d in range(nd):
        if d == axis:
            continue
        for x in xs[1:]:
            if not same_dim(x._shape[d], xs[0]._shape[d]):
                if isinstance(x._shape[d], Dom) or isinstance(xs[0]._shape[d], Dom):
                    raise Unsupported("concatenation over domains")
                if not E.decide(zi(x._shape[d]) == zi(xs[0]._shape[d])):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if any(isinstance(x._shape[axis], Dom) for x in xs):
        if len(xs) == 1:
            return xs[0].copy()
        if axis != 0 or any(isinstance(q, Dom) for x in xs for q in x._shape[1:]) or any(getattr(x._shape[0], "plain", False) for x in xs):
            raise Unsupported("concatenation of domains")
        xs = [enumerated(x) if isinstance(x._shape[0], Dom) else x for x in xs]
    offs, tot = [], z3.IntVal(0)
    for x in xs:
        offs.append(tot)
        tot = z3.simplify(tot + zi(x._shape[axis]))
    fs = [x.snapshot() for x in xs]

    def fn(ix):
        k = ix[axis]

        def at(i):
            return cast_sc(fs[i](tuple(ix[:axis]) + (z3.simplify(k - offs[i]),) + tuple(ix[axis + 1:])), kind)
        r = at(len(xs) - 1)
        for i in range(len(xs) - 2, -1, -1):
            r = ite(z3.simplify(k < offs[i + 1]), at(i), r)
        return r
    sh = list(xs[0]._shape)
    sh[axis] = dim(tot)
    return SArr(sh, fn, kind)


def tolist(a):
    if a.ndim == 0:
        return a.el()
    d = a._shape[0]
    if isinstance(d, int):
        return VList([tolist(arr(a[i])) if a.ndim > 1 else a.el(z3.IntVal(i)) for i in range(d)])
    f = a.copy()
    if isinstance(d, Dom):
        raise Unsupported("tolist of a domain array")
    return VList(seq=Seq([Part(plain_dom(zi(d)), lambda k: f[Sc(k, "i")] if a.ndim > 1 else f.el(k))]))


class VList(list):
    """Python list; becomes symbolic when something of symbolic length is put in"""
    _seq_or_arr = True

    def __getattr__(self, n):
        if n in LIST_NAMES:
            raise Unsupported(f"{type(self).__name__}.{n}")
        raise modelled(AttributeError(n))

    def __init__(self, items=(), seq=None):
        list.__init__(self, ())
        st = seq if seq is not None else tuple(items)
        self.cell = Cell(st)

    @property
    def symbolic(self):
        return isinstance(self.cell.v, Seq)

    def seq(self):
        v = self.cell.v
        return v if isinstance(v, Seq) else Seq([Part(None, lambda x=x: x) for x in v])

    def vc_array(self):
        if not self.symbolic:
            return arr(tuple(self.cell.v))
        return seq_array(self.cell.v)

    def _tup(self):
        if self.symbolic:
            raise Unsupported("list of symbolic length used natively")
        return self.cell.v

    def vc_len(self):
        return self.cell.v.length() if self.symbolic else len(self.cell.v)

    def __len__(self):
        return len(self._tup())

    def __bool__(self):
        return bool(binop(">", self.vc_len(), 0))

    def __iter__(self):
        return iter(self._tup())

    def __repr__(self):
        return "VList<sym>" if self.symbolic else repr(list(self.cell.v))

    def __getitem__(self, k):
        return seq_get(self, k)

    def __setitem__(self, k, v):
        if not self.symbolic and isinstance(k, int):
            t = list(self.cell.v)
            t[k] = v
            self.cell.set(tuple(t))
            return
        s = self.seq().simple()
        if s is None and not self.symbolic:
            t = list(self.cell.v)
            i = zi(k)
            self.cell.set(tuple(ite(i == j, v, x) for j, x in enumerate(t)))
            return
        if s is None:
            raise Unsupported("assignment into a composite list")
        n, fn = s
        i = nidx(k, dim(n))
        self.cell.set(Seq([Part(plain_dom(n), lambda j: ListWrite(j, i, v, fn).get())]))
        return

    def append(self, x):
        if self.symbolic:
            self.cell.set(Seq(self.cell.v.parts + [Part(None, lambda: x)]))
        else:
            self.cell.set(self.cell.v + (x,))

    def extend(self, xs):
        if isinstance(xs, (list, tuple)) and not getattr(xs, "symbolic", False):
            for x in xs:
                self.append(x)
            return
        s = as_seq(xs)
        self.cell.set(Seq(self.seq().parts + s.parts))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        r = VList(seq=self.cell.v) if self.symbolic else VList(self.cell.v)
        r.extend(o)
        return r

    def __radd__(self, o):
        r = VList(list(o))
        r.extend(self)
        return r

    def __mul__(self, n):
        return repeat_list(self, n)
    __rmul__ = __mul__

    def pop(self, i=-1):
        t = list(self._tup())
        if not isinstance(i, int):
            raise Unsupported("pop at a symbolic index")
        x = t.pop(i)
        self.cell.set(tuple(t))
        return x

    def index(self, x):
        raise Unsupported("list.index")

    def __contains__(self, x):
        return bool(contains(self, x))

    def copy(self):
        return VList(seq=self.cell.v) if self.symbolic else VList(self.cell.v)

    def __eq__(self, o):
        if isinstance(o, (list, tuple)) and not self.symbolic and not getattr(o, "symbolic", False):
            a, b = list(self), list(o)
            return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))
        if not isinstance(o, list):
            return False
        raise Unsupported("comparison of symbolic lists")
    __hash__ = None

    def sort(self, *a, **k):
        raise Unsupported("list.sort")

    def __ne__(self, o):
        return not (self == o)

    def clear(self):
        self.cell.set(())

    def insert(self, i, x):
        t = list(self._tup())
        if not isinstance(i, int):
            raise Unsupported("insert at a symbolic index")
        t.insert(i, x)
        self.cell.set(tuple(t))

    def reverse(self):
        self.cell.set(tuple(reversed(self._tup())))

    def __reversed__(self):
        return reversed(self._tup())

    def __delitem__(self, i):
        t = list(self._tup())
        if not isinstance(i, (int, slice)):
            raise Unsupported("del at a symbolic index")
        del t[i]
        self.cell.set(tuple(t))

    def _unsupported(self, *a):
        raise Unsupported("operation on lists")
    __lt__ = __le__ = __gt__ = __ge__ = __imul__ = remove = count = _unsupported

    def __deepcopy__(self, memo):
        return self.copy()


class ListWrite:
    def __init__(self, j, i, v, fn):
        self.j, self.i, self.v, self.fn = j, i, v, fn

    def get(self):
        c = z3.simplify(self.j == self.i)
        if z3.is_true(c):
            return self.v
        if z3.is_false(c):
            return self.fn(self.j)
        E = eng()
        if E.valid(c, 300):
            return self.v
        if E.valid(z3.Not(c), 300):
            return self.fn(self.j)
        return ite(c, self.v, self.fn(self.j))


def repeat_list(a, b):
    l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
    if isinstance(n, int):
        return VList(list(l) * n)
    if isinstance(n, Sc) and not getattr(l, "symbolic", False) and len(l) == 1:
        x = list(l)[0]
        return VList(seq=Seq([Part(plain_dom(zi(n)), lambda k: x)]))
    raise Unsupported("repetition of a list a symbolic number of times")


def seq_get(l, k):
    if isinstance(l, VList) and not l.symbolic:
        t = l.cell.v
        if isinstance(k, (int, slice)):
            r = t[k] if not isinstance(k, slice) or all(isinstance(x, (int, type(None))) for x in (k.start, k.stop, k.step)) else None
            if r is None and isinstance(k, slice):
                raise Unsupported("slice of a list at symbolic positions")
            return VList(r) if isinstance(k, slice) else r
        i = zi(k)
        n = len(t)
        E = eng()
        if not E.decide(z3.And(i >= -n, i < n)):
            raise IndexError("list index out of range")
        r = t[-1]
        for j in range(n - 2, -1, -1):
            r = ite(z3.Or(i == j, i == j - n), t[j], r)
        return r
    s = l.seq() if isinstance(l, VList) else l
    sm = s.simple()
    if sm is None:
        if is_num(k) and isinstance(k, int) and k >= 0 and all(p.dom is None for p in s.parts[: k + 1]) and k < len(s.parts):
            return s.parts[k].item()
        if isinstance(k, slice) and isinstance(k.stop, (Sc, int)) and k.start is None and k.step is None:
            return VList(seq=prefix_seq(s, zi(k.stop)))
        raise Unsupported("index into a composite sequence")
    n, fn = sm
    if isinstance(k, slice):
        st, ln, step = nslice(k, dim(n))
        if step != 1:
            if step == -1:
                return VList(seq=Seq([Part(plain_dom(n), lambda j: fn(n - 1 - j))]))
            raise Unsupported("step")
        return VList(seq=Seq([Part(plain_dom(zi(ln)), lambda j: fn(st + j))]))
    return fn(nidx(k, dim(n)))


def prefix_seq(s, m):
    """first m items of a sequence: items given by an order-preserving enumeration of the domain"""
    raise Unsupported("prefix of a composite sequence")


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, VList):
        return x.seq()
    if isinstance(x, (list, tuple)):
        return Seq([Part(None, lambda v=v: v) for v in x])
    if isinstance(x, range):
        return Seq([Part(None, lambda v=v: v) for v in x])
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise modelled(TypeError("iteration over a 0-d array"))
        d = x._shape[0]
        if isinstance(d, int) and d <= 8:
            return Seq([Part(None, lambda i=i: x[i]) for i in range(d)])
        c = x
        if isinstance(d, Dom):
            f = x.snapshot()
            return Seq([Part(d, lambda *k: f((tuple(k),)) if x.ndim == 1 else SArr(x._shape[1:], lambda ix: f((tuple(k),) + tuple(ix)), x.kind))])
        return Seq([Part(plain_dom(zi(d)), lambda k: c.__getitem__row(k) if False else row_at(c, k))])
    if isinstance(x, SSet):
        return x.seq()
    if hasattr(x, "vc_seq"):
        return x.vc_seq()
    raise Unsupported(f"sequence from {type(x).__name__}")


def row_at(a, k):
    """a[k] for an index known to be in range"""
    if a.ndim == 1:
        return a.el(k)
    vm = []
    for m in a.vmap:
        if m[0] == "ix":
            vm.append(("fix", k) if m[1] == 0 else ("ix", m[1] - 1))
        elif m[0] == "sl":
            vm.append(("fix", z3.simplify(m[1] + m[2] * k)) if m[3] == 0 else ("sl", m[1], m[2], m[3] - 1))
        else:
            vm.append(m)
    return SArr(a._shape[1:], kind=a.kind, cell=a.cell, vmap=vm, bshape=a.bshape)


class SSet:
    """finite set of integers or integer tuples: membership predicate + index ranges that enclose it"""
    _seq_or_arr = True
    symbolic = True

    def __init__(self, arity, pred, ranges):
        self.arity, self.pred, self.ranges = arity, pred, ranges  # ranges: list of (lo, hi) z3

    def dom(self):
        return Dom([lambda *k, r=r: r for r in self.ranges], lambda *k: self.pred(*k))

    def seq(self):
        d = self.dom()
        if self.arity == 1:
            return Seq([Part(d, lambda k: Sc(k, "i"))])
        return Seq([Part(d, lambda *k: tuple(Sc(x, "i") for x in k))])

    def vc_len(self):
        return self.dom().size

    def _pred(self, x):
        ks = [zi(i) for i in (x if self.arity > 1 else (x,))]
        inr = []
        for k, (lo, hi) in zip(ks, self.ranges):
            inr += [lo <= k, k < hi]
        return z3.And(*inr, self.pred(*ks))

    def __contains__(self, x):
        return bool(Sc(self._pred(x), "b"))

    def _other(self, o):
        return o if isinstance(o, SSet) else as_set(o)

    def intersection(self, *os):
        r = self
        for o in os:
            o = r._other(o)
            r = SSet(r.arity, lambda *k, r=r, o=o: z3.And(r.pred(*k), inside(k, o.ranges, r.ranges), o.pred(*k)), r.ranges)
        return r
    __and__ = intersection

    def difference(self, *os):
        r = self
        for o in os:
            o = r._other(o)
            r = SSet(r.arity, lambda *k, r=r, o=o: z3.And(r.pred(*k), z3.Not(z3.And(inside(k, o.ranges, r.ranges), o.pred(*k)))), r.ranges)
        return r
    __sub__ = difference

    def union(self, *os):
        raise Unsupported("set union")
    __or__ = union

    def discard(self, x):
        raise Unsupported("set.discard")
    remove = add = discard

    def copy(self):
        return self

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")

    def __len__(self):
        raise Unsupported("native len of a symbolic set")

    def __bool__(self):
        return bool(binop(">", self.vc_len(), 0))


def inside(k, ranges, known):
    cs = []
    for x, (lo, hi), (kl, kh) in zip(k, ranges, known):
        if not (lo.eq(kl) and hi.eq(kh)):
            cs += [lo <= x, x < hi]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def as_set(x):
    """set(iterable)"""
    if isinstance(x, SSet):
        return x
    s = as_seq(x)
    E = eng()
    if all(p.dom is None for p in s.parts):
        items = [p.item() for p in s.parts]
        if not items:
            return SSet(1, lambda k: z3.BoolVal(False), [(z3.IntVal(0), z3.IntVal(0))])
        if all(is_num(i) for i in items):
            zs = [zi(i) for i in items]
            lo, hi = zs[0], zs[0]
            if len(zs) > 1:
                raise Unsupported("set of several symbolic numbers")
            return SSet(1, lambda k: z3.Or(*[k == z for z in zs]), [(lo, hi + 1)])
        raise Unsupported("set of items")
    probe = None
    parts = []
    for p in s.parts:
        if p.dom is None:
            it = p.item()
        else:
            ks = [z3.Int(fresh_name("s")) for _ in p.dom.ranges]
            with E.quiet(), E.scope(ks, p.dom.conds(ks)):
                it = p.item(*ks)
        parts.append((p, it))
        probe = it
    ar = len(probe) if isinstance(probe, (tuple, list)) else 1
    r = listing(s, parts[0][0]) if len(parts) == 1 else None
    if r is not None:
        return r
    hint = E.ghost.get("universe")
    if hint is None:
        raise Unsupported("set without a known universe")
    ranges = [(z3.IntVal(0), hint)] * ar

    def pred(*k):
        def eqs(it):
            its = list(it) if ar > 1 else [it]
            return z3.And(*[zi(a) == b for a, b in zip(its, k)])
        return s.exists(eqs)
    # obligation: every item lies in the universe
    for p, _ in parts:
        if p.dom is None:
            continue
        ks = [z3.Int(fresh_name("s")) for _ in p.dom.ranges]
        with E.scope(ks, p.dom.conds(ks)):
            it = p.item(*ks)
            for a in (list(it) if ar > 1 else [it]):
                E.defined(z3.And(zi(a) >= 0, zi(a) < hint), "set element in universe")
    return SSet(ar, pred, ranges)


def listing(s, part):
    """the set of the items of one part when every item can be solved for the part's indices: the indices themselves, or those of a sorted tuple"""
    d = part.dom
    if d is None:
        return None
    n = len(d.ranges)
    E = eng()
    ks = [z3.Int(fresh_name("s")) for _ in range(n)]
    with E.quiet(), E.scope(ks, d.conds(ks)):
        it = part.item(*ks)
        its = list(it) if isinstance(it, (tuple, list)) else [it]
        if len(its) != n or not all(is_num(x) for x in its):
            return None
        its = [z3.simplify(zi(x)) for x in its]
        ranges = [tuple(z3.simplify(x) for x in r(*ks[:q])) for q, r in enumerate(d.ranges)]
    if not all(lo.eq(ranges[0][0]) and hi.eq(ranges[0][1]) and not mentions(lo, ks) and not mentions(hi, ks) for lo, hi in ranges):
        return None
    cases = [([], its)]
    for _ in range(4):
        nxt = []
        for cs, ts in cases:
            c = next((c for t in ts for c in [ite_cond(t)] if c is not None), None)
            if c is None:
                nxt.append((cs, ts))
            else:
                for v in (True, False):
                    nxt.append((cs + [c if v else z3.Not(c)], [z3.simplify(z3.substitute(t, (c, z3.BoolVal(v)))) for t in ts]))
        cases = nxt
    for cs, ts in cases:
        if {t.get_id() for t in ts} != {k.get_id() for k in ks}:
            return None

    def pred(*xs):
        alt = []
        for cs, ts in cases:
            back = {t.get_id(): x for t, x in zip(ts, xs)}
            vals = [back[k.get_id()] for k in ks]
            alt.append(z3.And(*[z3.substitute(c, *zip(ks, vals)) for c in cs], d.guard(*vals)))
        return z3.simplify(z3.Or(*alt)) if len(alt) > 1 else alt[0]
    return SSet(n, pred, ranges)


def ite_cond(t):
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE:
            return t.arg(0)
        for c in t.children():
            r = ite_cond(c)
            if r is not None:
                return r
    return None


def contains(c, x):
    """x in c"""
    if isinstance(c, SSet):
        return Sc(c._pred(x), "b")
    if isinstance(c, (VList, Seq)) and getattr(c, "symbolic", False):
        s = as_seq(c)
        if is_num(x):
            return Sc(s.exists(lambda it: sc_op("==", lift(it), lift(x)).z), "b")
        raise Unsupported("membership of a composite item")
    if isinstance(c, SArr):
        return quantify(ew2("==", c, x), "any")
    if hasattr(c, "vc_contains"):
        return c.vc_contains(x)
    if isinstance(x, Sc) and isinstance(c, (list, tuple)):
        r = z3.BoolVal(False)
        for it in c:
            if is_num(it):
                r = z3.Or(r, sc_op("==", lift(it), x).z)
        return Sc(r, "b")
    return x in c


# ------------------------------------------------------------------ dictionaries
def is_table(v):
    return isinstance(v, SymDict) or hasattr(v, "vc_table")


class VDict(dict):
    """Python dict; the symbolic form maps integer keys (one part of known domain) to values"""
    _seq_or_arr = True

    def __getattr__(self, n):
        if n in DICT_NAMES:
            raise Unsupported(f"{type(self).__name__}.{n}")
        raise modelled(AttributeError(n))

    def __init__(self, items=(), sym=None):
        dict.__init__(self)
        self.cell = Cell(sym if sym is not None else dict(items))

    @property
    def symbolic(self):
        return is_table(self.cell.v)

    def _d(self):
        if self.symbolic:
            raise Unsupported("symbolic dictionary used natively")
        return self.cell.v

    def __getitem__(self, k):
        v = self.cell.v
        if is_table(v):
            return v.get(k)
        if isinstance(k, Sc):
            s = z3.simplify(k.z)
            if z3.is_int_value(s):
                return v[s.as_long()]
            d = SymDict.of(v)
            if d is not None:
                return d.get(k)
            keys = [q for q in v if isinstance(q, int)]
            E = eng()
            for q in keys:
                if E.decide(k.z == q):
                    return v[q]
            raise modelled(KeyError("symbolic key"))
        return v[k]

    def __setitem__(self, k, x):
        v = self.cell.v
        if is_table(v):
            self.cell.set(v.put(k, x))
            return
        if isinstance(k, Sc):
            s = z3.simplify(k.z)
            if z3.is_int_value(s):
                k = s.as_long()
            elif not v:
                self.cell.set(SymDict.single(k, x))
                return
            else:
                d = SymDict.of(v)
                if d is None:
                    raise Unsupported("symbolic key in a concrete dictionary")
                self.cell.set(d.put(k, x))
                return
        n = dict(v)
        n[k] = x
        self.cell.set(n)

    def __delitem__(self, k):
        n = dict(self._d())
        del n[k]
        self.cell.set(n)

    def __contains__(self, k):
        v = self.cell.v
        if is_table(v):
            return bool(Sc(v.has(zi(k)), "b"))
        if isinstance(k, Sc):
            raise Unsupported("symbolic key")
        return k in v

    def vc_contains(self, k):
        v = self.cell.v
        if is_table(v):
            return Sc(v.has(zi(k)), "b")
        return k in v

    def get(self, k, d=None):
        v = self.cell.v
        if is_table(v):
            if bool(Sc(v.has(zi(k)), "b")):
                return v.get(k)
            return d
        return v.get(k, d)

    def keys(self):
        v = self.cell.v
        return VList(seq=v.keys()) if is_table(v) else v.keys()

    def values(self):
        v = self.cell.v
        return VList(seq=v.values()) if is_table(v) else v.values()

    def items(self):
        v = self.cell.v
        return VList(seq=v.items()) if is_table(v) else v.items()

    def vc_seq(self):
        v = self.cell.v
        return v.keys() if is_table(v) else as_seq(list(v))

    def vc_len(self):
        v = self.cell.v
        return v.keys().length() if is_table(v) else len(v)

    def update(self, *a, **k):
        n = dict(self._d())
        for x in a:
            n.update(x._d() if isinstance(x, VDict) else x)
        n.update(k)
        self.cell.set(n)

    def pop(self, k, *d):
        n = dict(self._d())
        r = n.pop(k, *d)
        self.cell.set(n)
        return r

    def setdefault(self, k, d=None):
        if k not in self._d():
            self[k] = d
        return self[k]

    def copy(self):
        r = VDict()
        r.cell.v = self.cell.v if self.symbolic else dict(self.cell.v)
        return r

    def __iter__(self):
        return iter(self._d())

    def __len__(self):
        return len(self._d())

    def __repr__(self):
        return "VDict<sym>" if self.symbolic else repr(self.cell.v)

    def __eq__(self, o):
        raise Unsupported("comparison of dictionaries")
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __ior__ = __or__ = __ror__ = clear = popitem = __reversed__ = __eq__
    __hash__ = None


class SymDict:
    """keys: distinct integers key(*ks) for ks in dom (with inverse test has(z)); val(z) by key"""

    def __init__(self, parts, has, val, distinct=False):
        self.parts, self.has, self.val, self.distinct = parts, has, val, distinct  # parts: [(dom, key)]

    @staticmethod
    def of(d):
        """a dictionary of numbers by given integers"""
        if not d or not all(type(q) is int and is_num(x) for q, x in d.items()):
            return None
        kind = max((lift(x).kind for x in d.values()), key=rank)
        vals = [(q, cast_sc(lift(x), kind)) for q, x in d.items()]

        def val(z):
            s = z3.simplify(z)
            if z3.is_int_value(s) and s.as_long() in d:
                return cast_sc(lift(d[s.as_long()]), kind)
            r = vals[-1][1]
            for q, x in reversed(vals[:-1]):
                r = ite(z == q, x, r)
            return r
        n = len(d)
        if list(d) == list(range(n)):
            return SymDict([(plain_dom(z3.IntVal(n)), lambda q: q)], lambda q: z3.And(q >= 0, q < n), val, True)
        return SymDict([(None, lambda q=q: z3.IntVal(q)) for q in d], lambda z: z3.Or(*[z == q for q in d]), val, True)

    @staticmethod
    def single(k, x):
        z = zi(k)
        return SymDict([(None, lambda: z)], lambda q: q == z, lambda q: x)

    def get(self, k):
        z = zi(k)
        if not eng().decide(self.has(z)):
            raise modelled(KeyError("missing key"))
        return self.val(z)

    def put(self, k, x):
        z = zi(k)
        E = eng()
        if not E.decide(self.has(z)):
            if any(p[0] is None for p in self.parts):
                pass
            return SymDict(self.parts + [(None, lambda: z)], lambda q, h=self.has: z3.Or(h(q), q == z), lambda q, v=self.val: ite(z3.simplify(q == z), x, v(q)))
        v = self.val
        return SymDict(self.parts, self.has, lambda q: ite(z3.simplify(q == z), x, v(q)))

    def keys(self):
        return Seq([Part(d, (lambda *k, f=f: Sc(f(*k), "i"))) for d, f in self.parts])

    def values(self):
        return Seq([Part(d, (lambda *k, f=f: self.val(f(*k)))) for d, f in self.parts])

    def items(self):
        return Seq([Part(d, (lambda *k, f=f: (Sc(f(*k), "i"), self.val(f(*k))))) for d, f in self.parts])
