"""Building symbolic inputs and stating contracts on the real functions."""
import contextlib
import time
import traceback
import z3
from .core import I, R, B, Abort, Engine, Failed, PathInfeasible, Unsupported, eng, fresh_name, set_engine, to_real
from . import sums
from .values import Cell, SArr, Sc, Seq, Part, VList, VDict, arr, as_seq, cast_sc, dim, is_num, lift, num, plain_dom, zi
from .rt import Loader
from .shims import lib

CONTRACTS = {}  # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fn, allow, functions, needs):
        self.prop, self.name, self.fn, self.allow, self.functions, self.needs = prop, name, fn, allow, functions, needs


def contract(prop, name, functions=(), allow=(), **needs):
    def deco(f):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, f, allow, functions, needs))
        return f
    return deco


def loader():
    L = getattr(loader, "L", None)
    if L is None:
        L = loader.L = Loader(lib.modules())
    return L


def mod(name):
    return loader().module("pointpats." + name)


# ------------------------------------------------------------------ symbolic inputs
def sint(name, lo=None, hi=None):
    c = z3.Int(name)
    E = eng()
    if lo is not None:
        E.assume(c >= lo)
    if hi is not None:
        E.assume(c <= hi)
    return Sc(c, "i")


def sreal(name):
    return Sc(z3.Real(name), "f")


def sbool(name):
    return Sc(z3.Bool(name), "b")


def sarray(name, shape, kind="f", frozen=True):
    f = z3.Function(name, *[I] * len(shape), {"f": R, "i": I, "b": B}[kind])
    return SArr(tuple(shape), lambda ix: Sc(f(*ix), kind), kind, frozen=name if frozen else None)


def points(name="P", n=None, lo=1):
    n = sint("n", lo) if n is None else n
    return sarray(name, (n, 2)), n


def vseq(n, fn):
    return VList(seq=Seq([Part(plain_dom(zi(n)), fn)]))


def points_list(name="P", n=None, lo=1):
    """list of coordinate pairs"""
    n = sint("n", lo) if n is None else n
    f = z3.Function(name, I, I, R)
    l = vseq(n, lambda k: VList([Sc(f(k, z3.IntVal(0)), "f"), Sc(f(k, z3.IntVal(1)), "f")]))
    l.cell.frozen = name
    return l, n


def f_of(a):
    """element function (real terms)"""
    return lambda *ix: to_real(num(a.el(*ix).z))


# ------------------------------------------------------------------ goals
def T(x):
    """z3 real term of a number"""
    if isinstance(x, SArr):
        x = x.el(*[0] * x.ndim)
    return to_real(num(lift(x).z))


def Sum(n, fn, lo=0):
    return sums.mk_sum(eng(), z3.IntVal(lo) if isinstance(lo, int) else lo, zi(n), fn)


def ensure(name, goal):
    return eng().prove(eng().ghost["where"] + ": " + name, goal)


def forall(name, ranges, fn):
    return eng().prove_forall(eng().ghost["where"] + ": " + name, [(z3.IntVal(0) if isinstance(a, int) and a == 0 else zi(a), zi(b)) for a, b in ranges], fn)


def each(name, lo, hi, fn):
    """forall, value by value where the bounds are numbers"""
    if isinstance(lo, int) and isinstance(hi, int):
        return all(ensure(name, fn(z3.IntVal(q))) for q in range(lo, hi))
    return forall(name, [(lo, hi)], fn)


def same_number(name, x, y):
    if not is_num(x) and not isinstance(x, SArr):
        return eng().prove(eng().ghost["where"] + ": " + name, False, f"not a number: {type(x).__name__}")
    if isinstance(x, SArr) and x.ndim:
        return eng().prove(eng().ghost["where"] + ": " + name, False, "an array where a number is expected")
    x = lift(x) if is_num(x) else x.el()
    g = T(x) == y
    if x.sp is not None:
        g = z3.And(z3.Not(z3.Or(*x.sp)), g)
    return ensure(name, g)


def fail(name, why):
    eng().prove(f"{eng().ghost['where']}: {name}", False, why)
    raise Failed()


def dims(name, a, shape):
    """the result is an array of this shape"""
    W = eng().ghost["where"]
    if not isinstance(a, SArr):
        fail(f"{name}: shape", f"result is {type(a).__name__}")
    if a.ndim != len(shape):
        fail(f"{name}: shape", f"rank {a.ndim}")
    ok = eng().prove(f"{W}: {name}: shape", z3.And(*[zi(p) == zi(q) for p, q in zip(a.shape, shape)]) if shape else True)
    if not ok:
        raise Failed()
    return True


def pair(name, r, k=2):
    """the result is a tuple of k values"""
    if not isinstance(r, tuple) or len(r) != k:
        fail(f"{name}: {k} values", f"result is {type(r).__name__}")
    return r


def vector(name, a, n, fn):
    """a has shape (n,) and a[i] == fn(i)"""
    if not dims(name, a, (n,)):
        return False
    return forall(name, [(0, n)], lambda i: T(a.el(i)) == fn(i))


def attained(name, n, pred):
    """some i in 0..n-1 satisfies pred"""
    i = z3.Int(fresh_name("ex"))
    return ensure(name, z3.Exists([i], z3.And(i >= 0, i < zi(n), pred(i))))


def same_truth(name, x, y):
    if isinstance(x, bool):
        x = Sc(z3.BoolVal(x), "b")
    if isinstance(x, SArr):
        if x.ndim:
            return ensure(name, False)
        x = x.el()
    if not isinstance(x, Sc):
        return ensure(name, False)
    z = x.z
    if z.sort() != B:
        z = z != (z3.RealVal(0) if z.sort() == R else 0)
    return ensure(name, z == y)


def sqrt_term(z):
    """z3 term of the square root, with its axioms"""
    from .values import sqrt
    with eng().quiet():
        return sqrt(Sc(z, "f")).z


@contextlib.contextmanager
def by_contract(**functions):
    """modular verification: within the block every pointpats module calls these contracts (verified on their own) instead of the functions' bodies.
    functions: module__name=contract"""
    L = loader()
    undo = []

    def put(d, k, w):
        d.cell.v = {**d.cell.v, k: w}
    for key, new in functions.items():
        m, f = key.split("__")
        old = getattr(mod(m), f, None)
        if old is None:
            continue
        for M in list(L.mods.values()):
            for nm, v in list(vars(M).items()):
                if v is old:
                    undo.append((setattr, M, nm, old))
                    setattr(M, nm, new)
                elif isinstance(v, VDict) and not v.symbolic and not nm.startswith("__"):
                    # a table of functions
                    for k, w in list(v.cell.v.items()):
                        if w is old or isinstance(w, tuple) and any(x is old for x in w):
                            undo.append((put, v, k, w))
                            put(v, k, new if w is old else tuple(new if x is old else x for x in w))
    try:
        yield
    finally:
        for do, M, nm, old in reversed(undo):
            do(M, nm, old)


def known_extremum(d):
    """hint: a least/greatest value computed by the code for row i may provably equal d(i); it is then written as d(i)"""
    eng().ghost.setdefault("known_extrema", []).append(d)


def lemma(name, goal):
    """proved here, then used"""
    if ensure("lemma " + name, goal):
        eng().assume(goal)


def lemma_forall(name, ranges, fn):
    E = eng()
    if forall("lemma " + name, ranges, fn):
        ks = [z3.Int(fresh_name("lk")) for _ in ranges]
        g = [z3.And(k >= zi(lo), k < zi(hi)) for k, (lo, hi) in zip(ks, ranges)]
        E.assume(z3.ForAll(ks, z3.Implies(z3.And(*g), fn(*ks))))


def same_data(a, b):
    """the same value: identical, or arrays/sequences provably equal element by element"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b if type(a) is type(b) else False
    if is_num(a) and is_num(b):
        return bool(eng().valid(to_real(num(lift(a).z)) == to_real(num(lift(b).z)), 1500))
    if isinstance(a, (tuple, list, VList)) and isinstance(b, (tuple, list, VList)):
        try:
            a1, b1 = list(a), list(b)
        except Exception:
            a1 = b1 = None
        if a1 is not None and len(a1) == len(b1):
            return all(same_data(p, q) for p, q in zip(a1, b1))
    try:
        a, b = arr(a), arr(b)
    except Unsupported:
        return False
    return lib.same_rows(a, b)
