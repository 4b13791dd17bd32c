"""Contracts of numpy.random: every draw is arbitrary (within its range); permutations are bijections. Draws are recorded with the source they come from."""
import z3
from ..core import I, R, Unsupported, eng, fresh_name, to_real
from ..values import Dom, SArr, Sc, Seq, Part, VList, arr, as_seq, dim, is_num, lift, num, plain_dom, zi

DRAWS = "draws"


def log(source, kind, **k):
    E = eng()
    E.ghost.setdefault(DRAWS, []).append(dict(source=source, kind=kind, gens=list(E.generics()), **k))
    return E.ghost[DRAWS][-1]


def origin(term, source):
    """which source a drawn number comes from, by the name of its function"""
    eng().ghost.setdefault("origin", {})[term.decl().name()] = source


def draw_fun(tag, dom, sort):
    """an arbitrary function for the next draw; the same one on every path of an iteration that reaches its q-th draw"""
    E = eng()
    sc = next((s for s in reversed(E.scopes) if s.ks), None)
    if sc is None:
        return E.fresh_fun(tag, dom, sort), True
    sc.draws = getattr(sc, "draws", 0) + 1
    gs = E.generics()
    key = (tag, tuple(g.get_id() for g in gs), sc.draws, tuple(str(d) for d in dom))
    reg = E.ghost.setdefault("draw_funs", {})
    if key not in reg:
        reg[key] = (E.fresh_fun(tag, dom, sort), gs)
    return reg[key][0], True


def bijection(n, tag="perm"):
    """an arbitrary permutation of 0..n-1 (as a function on z3 Ints) and its inverse"""
    E = eng()
    nz = zi(n)
    p, _ = draw_fun(tag, [I], I)
    q, _ = draw_fun(tag + "_inv", [I], I)
    i = z3.Int(fresh_name("i"))
    rng = lambda x: z3.And(x >= 0, x < nz)
    with E.quiet():
        E.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), patterns=[p(i)]), "a random permutation is a bijection")
        E.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    return p, q


def table_bijection(dom):
    """an arbitrary permutation of the index tuples of a flattened table"""
    m = len(dom.ranges)
    ps = [draw_fun(f"perm{i}", [I] * m, I)[0] for i in range(m)]
    qs = [draw_fun(f"perm_inv{i}", [I] * m, I)[0] for i in range(m)]
    ks = [z3.Int(fresh_name("k")) for _ in range(m)]
    for a, b in ((ps, qs), (qs, ps)):
        to = [f(*ks) for f in a]
        with eng().quiet():
            eng().assume(z3.ForAll(ks, z3.Implies(z3.And(*dom.conds(ks)), z3.And(*dom.conds(to), *[g(*to) == k for g, k in zip(b, ks)])), patterns=[to[0]]), "a random permutation is a bijection")
    return (lambda k: tuple(f(*k) for f in ps)), (lambda k: tuple(f(*k) for f in qs))


class Permuted:
    """content of a shuffled array: rows of base in another order"""

    def __init__(self, base, perm):
        self.base, self.perm = base, perm

    def __call__(self, b):
        return self.base((self.perm(b[0]),) + tuple(b[1:]))


class Source:
    """a generator of random numbers"""

    def __init__(self, name):
        self.name = name

    # ---- permutations
    def permutation(self, x):
        if is_num(x):
            n = x
            p, q = bijection(n)
            log(self, "permutation", n=n, perm=p, inv=q)
            return SArr((dim(zi(n)),), lambda ix: Sc(p(ix[0]), "i"), "i")
        a = arr(x)
        p, q = bijection(Sc(zi(a._shape[0]), "i"))
        log(self, "permutation", n=a._shape[0], perm=p, inv=q)
        f = a.snapshot()
        return SArr(a._shape, lambda ix: f((p(ix[0]),) + tuple(ix[1:])), a.kind)

    def shuffle(self, x):
        if isinstance(x, SArr):
            if any(m != ("ix", d) for d, m in enumerate(x.vmap)):
                raise Unsupported("shuffle of a view")
            p, q = table_bijection(x._shape[0]) if isinstance(x._shape[0], Dom) else bijection(Sc(zi(x._shape[0]), "i"))
            log(self, "shuffle", n=x._shape[0], perm=p, inv=q)
            c = x.cell.v
            x.cell.set(Permuted(c.base if isinstance(c, Permuted) else c, p))
            return None
        if isinstance(x, VList):
            s = x.seq().simple()
            if s is None:
                raise Unsupported("shuffle of a composite list")
            n, fn = s
            p, q = bijection(Sc(zi(n), "i"))
            log(self, "shuffle", n=n, perm=p, inv=q)
            x.cell.set(Seq([Part(plain_dom(zi(n)), lambda k: fn(p(k)))]))
            return None
        raise Unsupported("shuffle")

    # ---- numbers
    def _draw(self, kind, size, k="f", fact=None, tail=()):
        E = eng()
        shape = () if size is None else tuple(size) if isinstance(size, (tuple, list, VList)) else (size,)
        shape = tuple(shape) + tuple(tail)
        f, _ = draw_fun(kind, [I] * len(shape), R if k == "f" else I)
        log(self, kind, size=size, fun=f)
        origin(f(*[z3.IntVal(0)] * len(shape)), self)
        if fact is not None:
            xs = [z3.Int(fresh_name("x")) for _ in shape]
            g = fact(f(*xs))
            with E.quiet():
                E.assume(z3.ForAll(xs, g, patterns=[f(*xs)]) if xs else g)
        if not shape:
            return Sc(f(), k)
        return SArr(shape, lambda ix: Sc(f(*ix), k), k)

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = lift(low), lift(high)
        if not (is_num(low) and is_num(high)):
            raise Unsupported("uniform of arrays")
        a, b = to_real(num(lo.z)), to_real(num(hi.z))
        return self._draw("uniform", size, fact=lambda t: z3.Implies(a <= b, z3.And(a <= t, t <= b)))

    def random(self, size=None):
        return self._draw("random", size, fact=lambda t: z3.And(t >= 0, t < 1))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw("normal", size)

    def standard_normal(self, size=None):
        return self._draw("normal", size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        d = arr(mean)._shape[0]
        return self._draw("normal", size, tail=(d,))

    def integers(self, low, high=None, size=None, **k):
        if set(k) - {"dtype", "endpoint"} or k.get("endpoint"):
            raise Unsupported("integers options")
        lo, hi = (0, low) if high is None else (low, high)
        return self._draw("integers", size, "i", fact=lambda t: z3.And(t >= zi(lo), t < zi(hi)))

    def randint(self, low, high=None, size=None, **k):
        return self.integers(low, high, size)

    def poisson(self, lam=1.0, size=None):
        return self._draw("poisson", size, "i", fact=lambda t: t >= 0)


class Generator(Source):
    """a stream that is determined by its seed"""

    def __init__(self, seed=None):
        Source.__init__(self, "generator")
        self.seed_ = seed


class RandomState(Source):
    def __init__(self, seed=None):
        Source.__init__(self, "random state")
        self.seed_ = seed


class BitGenerator:
    pass


GLOBAL = Source("global")
GENERATORS = "generators"


def default_rng(seed=None):
    if isinstance(seed, Generator):
        return seed
    g = Generator(seed)
    log(g, "created", seed=seed)
    return g


def seed(x=None):
    log(GLOBAL, "seed")


class Random:
    """numpy.random: the functions draw from the global state"""
    _name = "numpy.random"
    Generator, RandomState, BitGenerator = Generator, RandomState, BitGenerator
    default_rng = staticmethod(default_rng)
    seed = staticmethod(seed)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("rand", "get_state", "set_state", "choice"):
            raise Unsupported("numpy.random." + n)
        return getattr(GLOBAL, n)


random = Random()
