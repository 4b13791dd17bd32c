"""Loop and comprehension rules: a loop over a symbolic range is summarised exactly from one arbitrary iteration."""
import z3
from .core import (I, R, B, Explorer, PathInfeasible, Scope, Unsupported, eng, fresh_name, mentions, symbols, to_int, to_real)
from . import sums
from .values import (AttrCell, Cell, Dom, Part, SArr, Sc, SSet, Seq, SymDict, SymStr, UNDEF, VDict, VList, as_seq, arr, cast_sc, count_int, dim,
                     is_num, ite, lift, num, plain_dom, rank, sums_over, zi, canon)


class Poison:
    """a value the loop rule could not describe: any use is outside the verified subset"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "_why"))

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_") or n == "_seq_or_arr":
            raise AttributeError(n)
        raise Unsupported(object.__getattribute__(self, "_why"))
    for _m in ("add radd sub rsub mul rmul truediv rtruediv floordiv mod pow lt le gt ge eq ne and or bool iter getitem setitem len call neg abs index int float iadd isub imul contains").split():
        locals()[f"__{_m}__"] = _no
    __hash__ = object.__hash__


SCALAR = {"f": R, "i": I, "b": B}


def generic(ks, guard, run):
    """run() once per path for arbitrary ks satisfying guard; writes are rolled back.
    Returns [(path condition, result, {cell id: (cell, new content)})]"""
    E = eng()
    for k in ks:
        E.indices[k.decl().name()] = k
    ex = Explorer(len(E.scopes) + 1)
    outs = []
    saved = E.hash_cons
    n = 0
    while True:
        n += 1
        if n > 200:
            raise Unsupported("too many paths in a loop body")
        jn = {}
        E.journals.append(jn)
        E.explorers.append(ex)
        ex.start()
        sc = Scope(ks, guard)
        E.scopes.append(sc)
        depth = len(E.scopes)
        E.hash_cons = dict(saved)
        try:
            try:
                v = run()
                outs.append((list(sc.pc), v, {i: (c, c.v if isinstance(c, Cell) else c.get()) for i, (c, _) in jn.items()}))
            except PathInfeasible:
                pass
            except Exception as e:
                if isinstance(e, E.ghost.get("may_raise", ())):
                    pass  # a documented exception ends the function: no such iteration when it returns
                elif not E.valid(False):
                    if getattr(e, "modelled", False) and not E.scopes_quiet:
                        E.record(f"{E.ghost.get('where', '')}: no exception in an iteration", False, "execution", 0.0, f"{type(e).__name__}: {e}")
                    raise Unsupported(f"{type(e).__name__} in a loop iteration: {e}")
        finally:
            del E.scopes[depth:]
            E.scopes.pop()
            E.explorers.pop()
            E.journals.pop()
            for c, old in jn.values():
                if isinstance(c, Cell):
                    c.v = old
                else:
                    c.put(old)
            E.hash_cons = saved
        E.export(sc)
        p = ex.next_prefix()
        if p is None:
            return outs
        ex.prefix = p


def conj(cs):
    return z3.BoolVal(True) if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)


def merge(outs):
    """[(pc list, value)] -> value"""
    if not outs:
        raise PathInfeasible()
    v = outs[-1][1]
    for pc, w in reversed(outs[:-1]):
        v = merge2(conj(pc), w, v)
    return v


def merge2(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("value depends on a loop-carried value")
    if a is UNDEF or b is UNDEF:
        return Poison("variable assigned on some paths only")
    try:
        return ite(c, a, b)
    except Unsupported as e:
        return Poison(str(e))


# ------------------------------------------------------------------ substitution in values
class Sub:
    """replace the generic indices ks (and loop placeholders) by terms, re-evaluating closures in their scope"""

    def __init__(self, ks, guard, pairs, terms=()):
        self.ks, self.guard, self.pairs, self.terms = ks, guard, pairs, list(terms)  # pairs: [(const, term)]; terms: [(fn(term))]

    def z(self, t):
        for f in self.terms:
            t = f(t)
        return z3.substitute(t, *self.pairs) if self.pairs else t

    def sc(self, v):
        v = lift(v)
        return Sc(self.z(v.z), v.kind, None if v.sp is None else tuple(self.z(x) for x in v.sp))

    def val(self, v):
        if isinstance(v, Sc):
            return self.sc(v)
        if isinstance(v, (int, float, str, type(None), bool)):
            return v
        if isinstance(v, SArr):
            f = v.snapshot()
            sh = [self.dim(d) for d in v._shape]

            def fn(ix, f=f):
                E = eng()
                ix, back = self.protect(ix)
                with E.quiet(), E.scope(self.ks, self.guard):
                    x = f(ix)
                return back(self.sc(x))
            return SArr(sh, fn, v.kind, frozen="!")
        if isinstance(v, tuple) and hasattr(v, "_fields"):
            return type(v)(*[self.val(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, VList):
            if v.symbolic:
                return VList(seq=self.seq(v.cell.v))
            return VList([self.val(x) for x in v.cell.v])
        if isinstance(v, Seq):
            return self.seq(v)
        if isinstance(v, VDict):
            if v.symbolic:
                d = v.cell.v
                parts = [(self.dom(q), (lambda *k, f=f: self.scoped(lambda: f(*k)))) for q, f in d.parts]
                return VDict(sym=SymDict(parts, lambda q: self.scoped(lambda: d.has(q)), lambda q: self.val(self.raw(lambda: d.val(q))), d.distinct))
            return VDict({k: self.val(x) for k, x in v.cell.v.items()})
        if isinstance(v, SSet):
            return SSet(v.arity, lambda *k: self.scoped(lambda: v.pred(*k)), [(self.z(a), self.z(b)) for a, b in v.ranges])
        if isinstance(v, SymStr):
            return SymStr([(self.z(c), s) for c, s in v.cases])
        if isinstance(v, Poison) or v is UNDEF:
            return v
        if hasattr(v, "vc_subst"):
            return v.vc_subst(self)
        if callable(v) or isinstance(v, type):
            return v
        if type(v).__module__.startswith("pointpats") and hasattr(v, "__dict__"):
            n = object.__new__(type(v))
            n.__dict__.update({k: (x if k == "_vc_born" else self.val(x)) for k, x in v.__dict__.items()})
            return n
        raise Unsupported(f"loop item of type {type(v).__name__}")

    def protect(self, ix):
        """index arguments must not be captured by the substitution"""
        mine = self.ks + [a for a, _ in self.pairs]
        flat = [t for i in ix for t in (i if isinstance(i, tuple) else (i,))]
        hit = [t for t in flat if z3.is_expr(t) and mentions(t, mine)]
        if not hit:
            return ix, lambda x: x
        E = eng()
        ren = []
        def r(t):
            if z3.is_expr(t) and mentions(t, mine):
                c = z3.Const(fresh_name("cap"), t.sort())
                E.indices[c.decl().name()] = c
                ren.append((c, t))
                return c
            return t
        ix2 = tuple(tuple(r(t) for t in i) if isinstance(i, tuple) else r(i) for i in ix)

        def back(x):
            return Sc(z3.substitute(x.z, *ren), x.kind, None if x.sp is None else tuple(z3.substitute(q, *ren) for q in x.sp))
        return ix2, back

    def raw(self, f):
        E = eng()
        with E.quiet(), E.scope(self.ks, self.guard):
            return f()

    def scoped(self, f):
        return self.z(self.raw(f))

    def dim(self, d):
        if isinstance(d, int):
            return d
        if isinstance(d, Dom):
            return self.dom(d)
        return dim(self.z(zi(d)))

    def dom(self, d):
        if d is None:
            return None
        # unchanged when it does not depend on the substituted indices
        ks = [z3.Int(fresh_name("q")) for _ in d.ranges]
        mine = self.ks + [a for a, _ in self.pairs]
        t = self.raw(lambda: z3.And(*d.conds(ks)))
        t2 = self.z(t)
        if t2.eq(t):
            return d
        n = Dom([lambda *k, r=r: tuple(self.scoped(lambda i=i: r(*k)[i]) for i in (0, 1)) for r in d.ranges],
                lambda *k: self.scoped(lambda: d.guard(*k)), factors=None)
        n.plain = getattr(d, "plain", False)
        if d._size is not None:
            n._size = self.sc(d._size) if isinstance(d._size, Sc) else d._size
        return n

    def seq(self, s):
        return Seq([Part(self.dom(p.dom), (lambda *k, p=p: self.item(p, k))) for p in s.parts])

    def item(self, p, k):
        k, back = self.protect(k)
        return self.val(self.raw(lambda: p.item(*k)))


# ------------------------------------------------------------------ comprehension
def flat(x, pat):
    if pat is None:
        return [x]
    from .rt import unpack
    out = []
    for y, p in zip(unpack(x, len(pat)), pat):
        out += flat(y, p)
    return out


def concrete(it):
    if isinstance(it, SArr):
        return bool(it._shape) and isinstance(it._shape[0], int)
    if isinstance(it, (VList, VDict)):
        return not it.symbolic
    if isinstance(it, (Seq, SSet)) or hasattr(it, "vc_seq"):
        return False
    return True


def comp(kind, it, pat, elt, conds, nested):
    E = eng()
    out = VList()

    def put(v):
        if nested:
            out.extend(v)
        else:
            out.append(v)

    def test(xs):
        for c in conds:
            if not c(*xs):
                return False
        return True
    if concrete(it):
        for x in it:
            xs = flat(x, pat)
            if test(xs):
                put(elt(*xs))
    else:
        for p in as_seq(it).parts:
            if p.dom is None:
                xs = flat(p.item(), pat)
                if test(xs):
                    put(elt(*xs))
            else:
                out.cell.set(Seq(out.seq().parts + [comp_part(p, pat, elt, conds, nested)]))
    if kind in ("list", "gen"):
        return out
    if kind == "set":
        from .rt import v_set
        return v_set(out)
    if kind == "dict":
        if not out.symbolic:
            return VDict(dict(list(out)))
        return dict_of(out.seq())
    raise Unsupported(kind)


def comp_part(p, pat, elt, conds, nested):
    E = eng()
    ks = [z3.Int(fresh_name("c")) for _ in p.dom.ranges]
    guard = p.dom.conds(ks)

    def run():
        xs = flat(p.item(*ks), pat)
        t = []
        for c in conds:
            v = c(*xs)
            v = lift(v) if is_num(v) else lift(bool(v))
            t.append(v.z if v.kind == "b" else v.z != 0)
        c = z3.simplify(conj(t)) if t else z3.BoolVal(True)
        if z3.is_true(c):
            return c, elt(*xs)
        if z3.is_false(c):
            return c, None
        E.scopes[-1].guard.append(c)
        return c, elt(*xs)
    outs = generic(ks, list(guard), run)
    cond = z3.simplify(merge([(pc, Sc(v[0], "b")) for pc, v, _ in outs]).z)
    vals = [(pc + ([v[0]] if not z3.is_true(v[0]) else []), v[1]) for pc, v, _ in outs if not z3.is_false(v[0])]
    for _, _, w in outs:
        for c, _ in w.values():
            if not isinstance(c, Cell) or c.born <= len(E.journals):
                raise Unsupported("comprehension with side effects")
    val = merge(vals)
    g2 = list(guard) + ([cond] if not z3.is_true(cond) else [])

    def sub(k):
        return Sub(ks, g2, list(zip(ks, k)))
    if z3.is_true(cond):
        dom = p.dom
    else:
        dom = Dom(p.dom.ranges, lambda *k, g=p.dom.guard: z3.And(g(*k), z3.substitute(cond, *zip(ks, k))))
    if not nested:
        return Part(dom, lambda *k: sub(k).val(val))
    return nest(dom, ks, g2, val)


def nest(dom, ks, guard, val):
    """sequence of sequences flattened in order"""
    s = as_seq(val)
    m = len(dom.ranges)
    if len(s.parts) == 1 and s.parts[0].dom is not None:
        d2 = s.parts[0].dom

        def rng(*k, r):
            S = Sub(ks, guard, list(zip(ks, k[:m])))
            return tuple(S.scoped(lambda i=i: r(*k[m:])[i]) for i in (0, 1))
        ranges = list(dom.ranges) + [lambda *k, r=r: rng(*k, r=r) for r in d2.ranges]
        guard2 = lambda *k: z3.simplify(z3.And(dom.guard(*k[:m]), Sub(ks, guard, list(zip(ks, k[:m]))).scoped(lambda: d2.guard(*k[m:]))))
        return Part(Dom(ranges, guard2), lambda *k: Sub(ks, guard, list(zip(ks, k[:m]))).val(Sub(ks, guard, []).raw(lambda: s.parts[0].item(*k[m:]))))
    if all(p.dom is None for p in s.parts):
        items = [p.item() for p in s.parts]
        n = len(items)
        if n == 0:
            return Part(Dom([lambda: (z3.IntVal(0), z3.IntVal(0))]), lambda *k: None)

        def item(*k):
            S = Sub(ks, guard, list(zip(ks, k[:m])))
            r = items[-1]
            t = z3.simplify(k[m])
            if z3.is_int_value(t):
                return S.val(items[t.as_long()])
            v = S.val(r)
            for i in range(n - 2, -1, -1):
                v = ite(k[m] == i, S.val(items[i]), v)
            return v
        return Part(Dom(list(dom.ranges) + [lambda *k: (z3.IntVal(0), z3.IntVal(n))], lambda *k: dom.guard(*k[:m])), item)
    raise Unsupported("nested comprehension of composite sequences")


def linear_in(t, k):
    """t = s*k + c with s = +-1 and c free of k -> (s, c)"""
    p = sums.poly(to_real(t))
    kid = sums._id(to_real(k))
    s, rest = None, {}
    for m, c in p.items():
        if m == (((kid, 1),), frozenset()):
            s = c
        else:
            rest[m] = c
    if s not in (1, -1):
        return None
    c = sums.p_term(rest)
    if mentions(c, [k]):
        return None
    return int(s), c


def as_int_term(c):
    """an integral real term as Int"""
    c = z3.simplify(c)
    if c.sort() == I:
        return c
    if z3.is_rational_value(c):
        return z3.IntVal(c.numerator_as_long())
    p = sums.poly(c)
    out = z3.IntVal(0)
    for (atoms, ind), q in p.items():
        if q.denominator != 1 or ind:
            return z3.ToInt(c)
        t = z3.IntVal(int(q))
        for a, e in atoms:
            x = sums._keep[a]
            if x.sort() == R and x.decl().kind() == z3.Z3_OP_TO_REAL:
                x = x.arg(0)
            if x.sort() != I or e < 0:
                return z3.ToInt(c)
            for _ in range(e):
                t = t * x
        out = out + t
    return z3.simplify(out)


from .shims.rng import Permuted, bijection  # noqa: E402


def grid_dict(p):
    """dict with keys k + i * W for 0 <= i < H, 0 <= k < W (row by row) and one value: its keys are 0 .. H*W - 1 in order"""
    E = eng()
    ks = [z3.Int(fresh_name("g")) for _ in p.dom.ranges]
    with E.quiet(), E.scope(ks, p.dom.conds(ks)):
        key, val = p.item(*ks)
        key = sums.poly(to_real(zi(key)))
    if not is_num(val) or mentions(lift(val).z, ks) or not z3.is_true(z3.simplify(p.dom.guard(*ks))):
        return None
    (lo0, hi0), (lo1, hi1) = p.dom.ranges[0](), p.dom.ranges[1](ks[0])
    if mentions(hi1, ks) or mentions(lo1, ks) or not (E.valid(lo0 == 0) and E.valid(lo1 == 0)):
        return None
    H, W = hi0, hi1
    d = sums.p_add(key, sums.poly(to_real(ks[0] * W + ks[1])), -1)
    if d and not E.valid(sums.p_term(d) == 0):
        return None
    n = z3.simplify(H * W)
    dom = plain_dom(n)
    if not E.valid(z3.And(H >= 0, W >= 0), 500):
        return None
    return VDict(sym=SymDict([(dom, lambda q: q)], lambda q: z3.And(q >= 0, q < n), lambda q: val, True))


def dict_of(s):
    """dict from a sequence of (key, value) pairs with keys k+c"""
    if len(s.parts) == 1 and s.parts[0].dom is not None and len(s.parts[0].dom.ranges) == 2:
        r = grid_dict(s.parts[0])
        if r is not None:
            return r
    if len(s.parts) != 1 or s.parts[0].dom is None or len(s.parts[0].dom.ranges) != 1:
        raise Unsupported("dictionary of a composite sequence")
    p = s.parts[0]
    return VDict(sym=sym_dict(p.dom, lambda k: zi(p.item(k)[0]), lambda k: p.item(k)[1]))


def sym_dict(dom, key, val):
    E = eng()
    k = z3.Int(fresh_name("key"))
    with E.quiet(), E.scope([k], dom.conds([k])):
        t = key(k)
    l = linear_in(t, k)
    if l is None:
        raise Unsupported("dictionary keys")
    sg, c = l
    ci = as_int_term(c)

    def inv(q):
        return z3.simplify(q - ci if sg == 1 else ci - q)
    return SymDict([(dom, lambda j: z3.simplify(sg * j + ci))], lambda q: z3.And(*dom.conds([inv(q)])), lambda q: val(inv(q)), True)


# ------------------------------------------------------------------ for loops
def for_loop(it, body, get, put, names, line):
    from . import whiles
    if concrete(it):
        for i, x in enumerate(it):
            with whiles.round_(i):
                r = body(x)
            if r is not None:
                return r
        return None
    for p in as_seq(it).parts:
        if p.dom is None:
            r = body(p.item())
        elif whiles.active():
            r = whiles.for_rule(p, body, get, put, names, line)
        else:
            r = summarise(p, body, get, put, names, line)
        if r is not None:
            return r
    return None


class PHDict:
    """dictionary during one iteration: records the entries it stores; entries it reads are those of before the loop, provided (checked by dict_update) no other iteration stores under that key"""
    vc_table = True

    def __init__(self, base, puts=(), reads=None):
        self.base, self.puts, self.reads = base, tuple(puts), reads if reads is not None else []

    def get(self, k):
        for q, x in reversed(self.puts):
            if zi(q).eq(zi(k)) or eng().valid(zi(q) == zi(k), 300):
                return x
            if not eng().valid(zi(q) != zi(k), 300):
                raise Unsupported("loop-carried dictionary")
        b = self.base
        if not isinstance(b, SymDict):
            raise Unsupported("loop-carried dictionary")
        self.reads.append(zi(k))
        return b.get(k)

    def has(self, k):
        raise Unsupported("loop-carried dictionary")

    def put(self, k, x):
        return PHDict(self.base, self.puts + ((k, x),), self.reads)

    def _unknown(self, *a):
        raise Unsupported("loop-carried dictionary")
    val = keys = values = items = __iter__ = __len__ = _unknown


def flat_index(b):
    return [t for i in b for t in (i if isinstance(i, tuple) else (i,))]


class Placeholder:
    def __init__(self, kind, gs, m):
        self.kind = kind
        E = eng()
        nm = fresh_name("prev")
        self.name = nm
        sort = SCALAR[kind]
        gs = E.generics()
        if gs or m:
            d = z3.Function(nm, *[g.sort() for g in gs], *[I] * m, sort)
            self.at = lambda *b: Sc(d(*gs, *b), kind)
        else:
            c = z3.Const(nm, sort)
            self.at = lambda *b: Sc(c, kind)


def uses(t, name):
    return name in symbols(t)


def dom_single(dom):
    return len(dom.ranges) == 1


def summarise(p, body, get, put, names, line):
    E = eng()
    dom = p.dom
    init = get()
    N = len(names)
    kinds = []
    for v in init:
        kinds.append("undef" if v is UNDEF else lift(v).kind if is_num(v) else "keep")
    W = {}   # id -> cell
    wk = {}  # id -> scalar kind of attribute cells
    for rnd in range(10):
        ks = [z3.Int(fresh_name("l")) for _ in dom.ranges]
        guard = dom.conds(ks)
        ph = {}

        # placeholders of names
        def start():
            vals = []
            for i, v in enumerate(init):
                if kinds[i] in SCALAR:
                    ph[i] = ph.get(i) or Placeholder(kinds[i], None, 0)
                    vals.append(ph[i].at())
                elif kinds[i] == "poison":
                    vals.append(Poison(f"loop-carried value {names[i]}"))
                else:
                    vals.append(v)
            put(tuple(vals))
        cph = {}
        olds = {}

        def run():
            start()
            for cid, c in W.items():
                if isinstance(c, Cell):
                    olds[cid] = c.v
                    if cid not in cph:
                        cph[cid] = cell_placeholder(c)
                    c.set(cph[cid][1])
                else:
                    olds[cid] = c.get()
                    if cid not in cph:
                        cph[cid] = attr_placeholder(c, wk)
                    attr_set(c, cph[cid][1])
            r = body(p.item(*ks))
            return r, get()
        outs = generic(ks, list(guard), run)
        put(init)
        changed = False
        for pc, (r, vals), w in outs:
            for cid, (c, nv) in w.items():
                if isinstance(c, Cell) and c.born > len(E.journals):
                    continue
                if cid not in W:
                    W[cid] = c
                    changed = True
                    if isinstance(nv, Permuted) and not isinstance(c.v, Permuted) and nv.base is c.v:
                        c.set(Permuted(c.v, lambda b: b))  # in the first iteration the rows are in order
            for i, v in enumerate(vals):
                if kinds[i] in SCALAR:
                    if is_num(v):
                        k = lift(v).kind
                        if rank(k) > rank(kinds[i]):
                            kinds[i] = k
                            changed = True
                elif kinds[i] == "keep" and v is not init[i]:
                    kinds[i] = "poison"
                    changed = True
            for cid, c in W.items():
                if not isinstance(c, Cell) and cid in w:
                    nv = w[cid][1]
                    if wk.get(cid) in SCALAR and is_num(nv) and rank(lift(nv).kind) > rank(wk[cid]):
                        wk[cid] = lift(nv).kind
                        changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop write set does not stabilise")
    if not outs:
        # no feasible iteration
        return None
    sigs = [o for o in outs if o[1][0] is not None]
    if sigs:
        raise Unsupported("break or return inside a loop over a symbolic range")
    return finish(E, p, ks, guard, outs, names, init, kinds, ph, W, cph, olds, put)


def attr_set(c, v):
    from .rt import journal_attr
    journal_attr(c)
    c.put(v)


def attr_placeholder(c, wk):
    v = c.get()
    if is_num(v):
        k = wk.setdefault(id_of(c), lift(v).kind)
        ph = Placeholder(k, None, 0)
        return ("scalar", ph.at(), ph)
    wk[id_of(c)] = "obj"
    return ("obj", Poison(f"loop-carried attribute {c.name}"), None)


def id_of(c):
    return id(c) if isinstance(c, Cell) else (id(c.obj), c.name)


def cell_placeholder(c):
    v = c.v
    if isinstance(v, Permuted):
        # the rows of the base in an arbitrary order
        perm, _ = bijection(Sc(zi(c.info[1][0]), "i"), "order")
        return ("perm", Permuted(v.base, perm), None, v)
    if callable(v):
        info = c.info
        if not info or info[0] != "arr":
            raise Unsupported("loop-carried content")
        m = sum(len(d.ranges) if isinstance(d, Dom) else 1 for d in info[1])
        ph = Placeholder(info[2], None, m)
        return ("arr", lambda b: ph.at(*flat_index(b)), ph, info)
    if isinstance(v, (tuple, Seq)):
        s = v if isinstance(v, Seq) else Seq([Part(None, lambda x=x: x) for x in v])
        if isinstance(v, tuple):
            numeric = bool(v) and all(is_num(x) for x in v)
            n = z3.IntVal(len(v))
        else:
            sm = s.simple()
            numeric, n = False, None
            if sm is not None:
                E = eng()
                k = z3.Int(fresh_name("k"))
                with E.quiet(), E.scope([k], [k >= 0, k < sm[0]]):
                    numeric = is_num(sm[1](k))
                    kk = lift(sm[1](k)).kind if numeric else None
                n = sm[0]
        if numeric:
            kind = max((lift(x).kind for x in v), key=rank) if isinstance(v, tuple) else kk
            ph = Placeholder(kind, None, 1)
            part = Part(plain_dom(n), lambda k: ph.at(k))
            return ("list", Seq([part]), ph, part, n, s)
        part = Part(Dom([lambda: (z3.IntVal(0), z3.Int("listlen"))]), lambda *k: Poison("loop-carried list"))
        return ("list", Seq([part]), None, part, None, s)
    if isinstance(v, (dict, SymDict)):
        if isinstance(v, dict):
            v = SymDict.of(v) or v
        if isinstance(v, SymDict):
            E = eng()
            k = z3.Int(fresh_name("k"))
            try:
                with E.quiet(), E.scope([k], [v.has(k)]):
                    x = v.val(k)
                if is_num(x):
                    ph = Placeholder(lift(x).kind, None, 1)
                    return ("sdict", SymDict(v.parts, v.has, lambda q: ph.at(q), v.distinct), ph, v)
            except Unsupported:
                pass
        return ("dict", PHDict(v), None, v)
    raise Unsupported("loop-carried container")


class Lin:
    """one-dimensional loop space lo <= k < hi with guard"""

    def __init__(self, dom):
        self.dom = dom
        self.single = len(dom.ranges) == 1


def finish(E, p, ks, guard, outs, names, init, kinds, ph, W, cph, olds, put):
    dom = p.dom
    single = len(dom.ranges) == 1
    k = ks[0]
    lo, hi = dom.ranges[0]() if single else (None, None)
    gterm = dom.guard(*ks)
    unguarded = z3.is_true(z3.simplify(gterm))
    pcs = [pc for pc, _, _ in outs]
    # ---- scalars: names and numeric attributes
    sc = {}  # placeholder name -> (init Sc, new Sc, kind)
    newval = {}
    for i in range(len(names)):
        vals = [(pc, v[1][i]) for pc, v, _ in outs]
        newval[i] = merge(vals)
        if kinds[i] in SCALAR:
            if is_num(newval[i]):
                sc[ph[i].name] = (cast_sc(init[i], kinds[i]), cast_sc(lift(newval[i]), kinds[i]), kinds[i])
            else:
                sc[ph[i].name] = (cast_sc(init[i], kinds[i]), None, kinds[i])
    for cid, c in W.items():
        if cph[cid][0] == "scalar":
            nv = merge([(pc, w[cid][1] if cid in w else cph[cid][1]) for pc, _, w in outs])
            kd = cph[cid][2].kind
            sc[cph[cid][2].name] = (cast_sc(olds[cid], kd), cast_sc(lift(nv), kd) if is_num(nv) else None, kd)
            newval[cid] = nv
    arrnames = {cph[cid][2].name for cid in W if cph[cid][0] in ("arr", "list", "sdict") and cph[cid][2] is not None}
    prefix = {}  # placeholder name -> fn(index term) -> z3 (value at the start of iteration)
    final = {}
    todo = dict(sc)

    def resolve(t, at=None):
        """replace resolved placeholders in t by their value at the start of iteration ks"""
        subs = []
        for nm, f in prefix.items():
            if uses(t, nm):
                subs.append(nm)
        if not subs:
            return t
        return replace_apps(t, {nm: (lambda app, nm=nm: prefix[nm](k)) for nm in subs})

    def mk_prefix(delta, i0, kind):
        def f(j):
            c = delta
            if not single:
                raise Unsupported("prefix of a loop over pairs")
            if not mentions(c, ks) and unguarded:
                cc = as_int_term(c) if kind == "i" else c
                j2 = j if kind == "i" else z3.ToReal(j)
                lo2 = lo if kind == "i" else z3.ToReal(lo)
                return z3.simplify(i0 + cc * (j2 - lo2))
            s = sums.mk_sum(E, lo, j, lambda q: guarded(c, q))
            return i0 + (count_int(s) if kind == "i" else s)
        return f

    def guarded(c, q):
        t = z3.substitute(c, (k, q))
        if unguarded:
            return t
        return z3.If(z3.substitute(gterm, (k, q)), to_real(t), z3.RealVal(0))
    progress = True
    while todo and progress:
        progress = False
        for nm, (i0, nv, kind) in list(todo.items()):
            if nv is None:
                continue
            t = resolve(nv.z)
            others = [n for n in todo if n != nm and uses(t, n)] + [a for a in arrnames if uses(t, a)]
            self_used = uses(t, nm)
            if others:
                continue
            if not self_used:
                if single and unguarded:
                    def pf(j, t=t, i0=i0):
                        return z3.If(j > lo, z3.substitute(t, (k, j - 1)), i0.z)
                    prefix[nm] = pf
                    ne = E.valid(hi > lo, 500)
                    last = z3.substitute(t, (k, hi - 1))
                    final[nm] = Sc(last if ne else z3.If(hi > lo, last, i0.z), kind)
                elif not mentions(t, ks):
                    ne = nonempty_dom(dom)
                    final[nm] = Sc(z3.If(ne, t, i0.z), kind)
                else:
                    continue
                del todo[nm]
                progress = True
                continue
            if kind == "b":
                continue
            a = placeholder_apps(t, nm)
            if len(a) != 1:
                continue
            d = sums.p_add(sums.poly(to_real(t)), sums.poly(to_real(a[0])), -1)
            delta = sums.p_term(d)
            if uses(delta, nm):
                continue
            pf = mk_prefix(delta, i0.z, kind)
            prefix[nm] = pf
            if single:
                final[nm] = Sc(pf(hi) if E.valid(hi >= lo, 500) else z3.If(hi >= lo, pf(hi), i0.z), kind)
            else:
                s = sums_over(dom, lambda *q: z3.substitute(delta, *zip(ks, q)))
                final[nm] = Sc(i0.z + (count_int(s) if kind == "i" else s), kind)
            del todo[nm]
            progress = True

    def clean(t):
        t = resolve(t)
        for n in todo:
            if uses(t, n):
                raise Unsupported("loop-carried scalar without a closed form")
        return t

    def sub_at(j):
        """substitution of the iteration index, with resolved placeholders"""
        return Sub(ks, guard, list(zip(ks, j)), [clean])
    # ---- names
    res = []
    for i, v in enumerate(init):
        nv = newval[i]
        if kinds[i] in SCALAR:
            nm = ph[i].name
            res.append(final.get(nm) if nm in final else Poison(f"value of {names[i]} after the loop"))
        elif kinds[i] == "keep":
            res.append(v)
        else:
            # last value
            if isinstance(nv, Poison) or nv is UNDEF:
                res.append(nv)
            elif single and unguarded and E.valid(hi > lo, 500):
                try:
                    res.append(sub_at((hi - 1,)).val(nv))
                except Unsupported as e:
                    res.append(Poison(f"value of {names[i]} after the loop: {e}"))
            else:
                res.append(Poison(f"value of {names[i]} after a possibly empty loop"))
    # ---- cells
    upd = []
    for cid, c in W.items():
        tag = cph[cid][0]
        cont = [(pc, w[cid][1] if cid in w else cph[cid][1]) for pc, _, w in outs]
        if tag == "scalar":
            nm = cph[cid][2].name
            if nm not in final:
                raise Unsupported(f"attribute {c.name} after the loop")
            upd.append((c, final[nm]))
        elif tag == "obj":
            nv = merge(cont)
            if single and unguarded and E.valid(hi > lo, 500) and not isinstance(nv, Poison):
                upd.append((c, sub_at((hi - 1,)).val(nv)))
            else:
                upd.append((c, Poison(f"attribute {c.name} after the loop")))
        elif tag == "perm":
            if not all(isinstance(x, Permuted) and x.base is cph[cid][3].base for _, x in cont):
                raise Unsupported("shuffled array rewritten in a loop")
            upd.append((c, Permuted(cph[cid][3].base, bijection(Sc(zi(c.info[1][0]), "i"), "order")[0])))
        elif tag == "arr":
            upd.append((c, array_update(E, dom, ks, guard, cont, cph[cid][2], cph[cid][3], olds[cid], clean, single, unguarded)))
        elif tag == "list":
            upd.append((c, list_update(E, dom, ks, guard, cont, cph[cid], clean, sub_at, single, unguarded)))
        elif tag == "sdict":
            upd.append((c, sdict_update(E, dom, ks, guard, cont, cph[cid], clean, single, unguarded)))
        elif tag == "dict":
            upd.append((c, dict_update(E, dom, ks, guard, cont, cph[cid][3], sub_at, single, unguarded)))
    put(tuple(res))
    for c, v in upd:
        if isinstance(c, Cell):
            c.set(v)
        else:
            attr_set(c, v)
    return None


def sdict_update(E, dom, ks, guard, cont, info, clean, single, unguarded):
    _, _, ph, v = info
    for _, x in cont:
        if not isinstance(x, SymDict) or len(x.parts) != len(v.parts):
            raise Unsupported("keys added to a dictionary in a loop")
    nf = array_update(E, dom, ks, guard, [(pc, (lambda b, x=x: lift(x.val(b[0])))) for pc, x in cont], ph, ("arr", (None,), ph.kind), lambda b: lift(v.val(b[0])), clean, single, unguarded, cond=lambda b: v.has(b[0]))
    return SymDict(v.parts, v.has, lambda q: nf((q,)), v.distinct)


def nonempty_dom(dom):
    ks = [z3.Int(fresh_name("ne")) for _ in dom.ranges]
    if len(ks) == 1 and z3.is_true(z3.simplify(dom.guard(*ks))):
        lo, hi = dom.ranges[0]()
        return hi > lo
    return z3.Exists(ks, z3.And(*dom.conds(ks)))


def placeholder_apps(t, nm):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == nm:
                out.append(x)
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


def replace_apps(t, fs):
    """replace applications of the named symbols; sums whose body mentions one are not supported"""
    pairs = []
    for nm, f in fs.items():
        for a in placeholder_apps(t, nm):
            pairs.append((a, f(a)))
    t2 = z3.substitute(t, *pairs)
    E = eng()
    for a in sums.sum_apps(E, t2):
        e = E.sum_reg[a.decl().name()]
        if any(uses(e.body, nm) or uses(e.hi, nm) or uses(e.lo, nm) for nm in fs):
            raise Unsupported("sum over a loop-carried value")
    return t2


def decompose(t, leaf):
    """t as writes: [(condition, value)] with all other cases equal to leaf; None if leaf occurs otherwise"""
    out = []

    def rec(x, conds):
        if x.eq(leaf):
            return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and uses(x, leaf.decl().name()):
            if uses(x.arg(0), leaf.decl().name()):
                return False
            return rec(x.arg(1), conds + [x.arg(0)]) and rec(x.arg(2), conds + [z3.Not(x.arg(0))])
        if uses(x, leaf.decl().name()):
            return False
        out.append((conj(conds), x))
        return True
    return out if rec(t, []) else None


def solve_index(cond, ks, free):
    """from the conjuncts of cond: ks as functions of the other variables -> {k: term} or None"""
    cond = z3.simplify(cond)
    lits = []

    def lit(c):
        if z3.is_and(c):
            for x in c.children():
                lit(x)
        else:
            lits.append(c)
    lit(cond)
    sol = {}
    for k in ks:
        for c in lits:
            if z3.is_eq(c) and c.arg(0).sort() in (I, R) and mentions(c, [k]):
                a, b = c.children()
                d = sums.p_term(sums.p_add(sums.poly(to_real(a)), sums.poly(to_real(b)), -1))
                l = linear_in(d, k)
                if l is not None and not any(mentions(l[1], [q]) for q in ks if not q.eq(k)):
                    s, r = l  # s*k + r == 0
                    sol[k] = as_int_term(-r if s == 1 else r)
                    break
        if k not in sol:
            return None
    return sol


def own_entry(E, t, name, leaf, consts, guard):
    """an update d[key] += x: under the condition that the entry looked at is the one of `key`, its old content is the old content of d[key]"""
    def rec(x, conds):
        if not uses(x, name) or x.eq(leaf):
            return x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not uses(x.arg(0), name):
            c = x.arg(0)
            return z3.If(c, rec(x.arg(1), conds + [c]), rec(x.arg(2), conds + [z3.Not(c)]))
        pairs = []
        for a in placeholder_apps(x, name):
            if a.eq(leaf):
                continue
            eq = z3.And(*[p == q for p, q in zip(a.children(), leaf.children())])
            if any(same_eq(c, eq) for c in conds) or sums._in_scope(E, consts, guard + conds, lambda: bool(E.valid(eq, 1000))):
                pairs.append((a, leaf))
        return z3.substitute(x, *pairs) if pairs else x

    def same_eq(c, eq):
        l = []

        def lits(q):
            if z3.is_and(q):
                for y in q.children():
                    lits(y)
            else:
                l.append(z3.simplify(q))
        lits(c)
        e = z3.simplify(eq)
        return all(any(y.eq(q) for q in l) for y in (e.children() if z3.is_and(e) else [e]))
    return rec(t, [])


def array_update(E, dom, ks, guard, cont, ph, info, old, clean, single, unguarded, cond=None):
    shape, kind = info[1], info[2]
    bs, bguard, b = [], [], []
    for d in shape:
        if isinstance(d, Dom):
            q = [z3.Int(fresh_name("b")) for _ in d.ranges]
            bs += q
            bguard += d.conds(q)
            b.append(tuple(q))
        else:
            q = z3.Int(fresh_name("b"))
            bs.append(q)
            if d is not None:
                bguard += [q >= 0, q < zi(d)]
            b.append(q)
    b = tuple(b)
    if cond is not None:
        bguard.append(cond(b))
    with E.quiet(), E.scope(ks + bs, list(guard) + bguard):
        t = None
        for pc, f in reversed(cont):
            x = cast_sc(lift(f(b)), kind).z
            t = x if t is None else z3.If(conj(pc), x, t)
    t = clean(t)
    leaf = ph.at(*bs).z
    apps = placeholder_apps(t, ph.name)
    if any(not a.eq(leaf) for a in apps):
        t = own_entry(E, t, ph.name, leaf, ks + bs, list(guard) + bguard)
        apps = placeholder_apps(t, ph.name)
    if any(not a.eq(leaf) for a in apps):
        t2 = z3.simplify(t)
        apps = placeholder_apps(t2, ph.name)
        if any(not a.eq(leaf) for a in apps):
            raise Unsupported("array written from its own loop-carried content")
        t = t2
    for a in sums.sum_apps(E, t):
        if uses(E.sum_reg[a.decl().name()].body, ph.name):
            raise Unsupported("sum over a loop-carried array")

    def inst(term, kk, bb):
        return z3.substitute(term, *zip(ks, kk), *zip(bs, flat_index(bb)))
    # writes at positions that determine the iteration
    ws = decompose(t, leaf) if uses(t, ph.name) else [(z3.BoolVal(True), t)]
    if ws is None:
        ws = decompose(z3.simplify(t), leaf)
    if ws is not None:
        c_all = z3.simplify(z3.Or(*[c for c, _ in ws])) if ws else z3.BoolVal(False)
        if not ws:
            return old
        if not mentions(c_all, ks) and single and unguarded:
            lo, hi = dom.ranges[0]()
            ne = bool(E.valid(hi > lo, 500))

            def fn(bb):
                r = lift(old(bb))
                for c, v in reversed(ws):
                    cc = inst(c, [hi - 1], bb)
                    if not ne:
                        cc = z3.And(hi > lo, cc)
                    r = ite(z3.simplify(cc), Sc(inst(v, [hi - 1], bb), kind), r)
                return r
            return fn
        sols = [(c, v, solve_index(c, ks, bs)) for c, v in ws]
        if all(s is not None for _, _, s in sols):
            same = all(all(s[q].eq(sols[0][2][q]) for q in ks) for _, _, s in sols)
            if same or len(sols) == 1 or single:
                def fn(bb):
                    r = lift(old(bb))
                    if same:
                        kk = [z3.simplify(inst(sols[0][2][q], ks, bb)) for q in ks]
                        rng = z3.simplify(conj(dom.conds(kk)))
                        for c, v, _ in reversed(sols):
                            r = ite(z3.simplify(z3.And(rng, inst(c, kk, bb))), Sc(inst(v, kk, bb), kind), r)
                        return r
                    raise Unsupported("several different writes in one iteration")
                if same:
                    return fn
    # accumulation
    if kind != "b":
        delta = increment(t, leaf)
        if not uses(delta, ph.name):
            def fn(bb):
                s = sums_over(dom, lambda *q: inst(delta, q, bb))
                o = lift(old(bb))
                return Sc(num(o.z) + count_int(s), "i") if kind == "i" else Sc(to_real(o.z) + s, "f")
            return fn
    raise Unsupported("array update in a loop without a closed form")


def increment(t, leaf):
    """t - leaf, with the case distinctions of t kept"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), increment(t.arg(1), leaf), increment(t.arg(2), leaf))
    return sums.p_term(sums.p_add(sums.poly(to_real(t)), sums.poly(to_real(leaf)), -1))


def list_update(E, dom, ks, guard, cont, info, clean, sub_at, single, unguarded):
    _, _, ph, part, n, old = info
    appended = []
    for pc, v in cont:
        s = v if isinstance(v, Seq) else Seq([Part(None, lambda x=x: x) for x in v])
        if not s.parts or s.parts[0] is not part:
            if ph is not None and len(s.parts) == 1 and s.parts[0].dom is not None:
                appended.append((pc, "write", s.parts[0]))
                continue
            raise Unsupported("list rebuilt in a loop")
        appended.append((pc, "app", s.parts[1:]))
    if any(a[1] == "write" for a in appended):
        if any(a[1] == "app" and a[2] for a in appended):
            raise Unsupported("list written and extended in a loop")
        osm = old.simple()
        ofn = (lambda k: osm[1](k)) if osm is not None else (lambda k: list_pick(old, k))
        fs = [(pc, (lambda b, a=a: lift(a[0].item(b[0]))) if t == "write" else (lambda b: ph.at(b[0]))) for pc, t, *a in appended]
        nf = array_update(E, dom, ks, guard, fs, ph, ("arr", (dim(n),), ph.kind), lambda b: cast_sc(lift(ofn(b[0])), ph.kind), clean, single, unguarded)
        return Seq([Part(plain_dom(n), lambda q: nf((q,)))])
    counts = {len(a[2]) for a in appended}
    parts = list(old.parts)
    mx = max(counts)
    if mx == 0:
        return old

    def mk(sel, conds):
        """parts appended by the paths in sel at one position"""
        val = merge([(pc, x) for pc, x in sel])
        c = z3.simplify(z3.Or(*[conj(pc) for pc in conds])) if len(conds) < len(appended) else z3.BoolVal(True)
        c = clean(c)
        d = dom if z3.is_true(c) else Dom(dom.ranges, lambda *q: z3.And(dom.guard(*q), z3.substitute(c, *zip(ks, q))))
        return d, val
    if mx == 1:
        sel, conds, doms = [], [], []
        for pc, _, ps in appended:
            if ps:
                conds.append(pc)
                doms.append(ps[0].dom)
                sel.append((pc, ps[0]))
        if all(d is None for d in doms):
            d, val = mk([(pc, q.item()) for pc, q in sel], conds)
            return Seq(parts + [Part(d, lambda *q: sub_at(q).val(val))])
        if len(sel) == 1:
            d, _ = mk([(sel[0][0], None)], conds)
            return Seq(parts + [nest(d, ks, guard, Seq([sel[0][1]]))])
        raise Unsupported("sequences appended on several paths")
    if len(counts) == 1 and all(all(q.dom is None for q in a[2]) for a in appended):
        vals = [merge([(a[0], a[2][i].item()) for a in appended]) for i in range(mx)]
        return Seq(parts + [nest(dom, ks, guard, tuple(vals))])
    raise Unsupported("varying number of appends in a loop")


def list_pick(s, k):
    items = [p.item() for p in s.parts]
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
        r = ite(k == i, items[i], r)
    return r


def dict_update(E, dom, ks, guard, cont, old, sub_at, single, unguarded):
    if not single:
        raise Unsupported("dictionary filled by nested loops")
    vals = []
    keyt = None
    for pc, v in cont:
        if not isinstance(v, PHDict):
            raise Unsupported("dictionary rebuilt in a loop")
        if len({z3.simplify(zi(q)).get_id() if not isinstance(q, str) else q for q, _ in v.puts}) != 1:
            raise Unsupported("varying dictionary stores in a loop")
        q, x = v.puts[-1]
        kz = z3.simplify(zi(q))
        if keyt is None:
            keyt = kz
        elif not keyt.eq(kz):
            raise Unsupported("different keys on different paths")
        vals.append((pc, x))
    val = merge(vals)
    sd = sym_dict(dom, lambda q: z3.substitute(keyt, (ks[0], q)), lambda q: sub_at((q,)).val(val))
    ph = cont[0][1]
    if ph.reads:
        # only entries of the iteration's own key are read: no earlier iteration stored under it
        if not isinstance(old, SymDict) or not all(z3.simplify(q).eq(keyt) for q in ph.reads):
            raise Unsupported("loop-carried dictionary")
    if isinstance(old, dict) and not old:
        return sd
    if isinstance(old, SymDict):
        k = z3.Int(fresh_name("key"))
        with E.scope([k], dom.conds([k])):
            if not E.valid(old.has(z3.simplify(z3.substitute(keyt, (ks[0], k))))):
                raise Unsupported("dictionary extended in a loop")

        def later(q):
            h = z3.simplify(sd.has(q))
            if E.valid(h, 500):
                return sd.val(q)
            return ite(h, sd.val(q), old.val(q))
        return SymDict(old.parts, old.has, later, old.distinct)
    if isinstance(old, dict) and all(isinstance(q, int) for q in old):
        base = old

        def has(q):
            return z3.Or(sd.has(q), *[q == i for i in base])

        def pick(q):
            r = None
            for i, x in base.items():
                r = x if r is None else ite(q == i, x, r)
            return ite(z3.simplify(sd.has(q)), sd.val(q), r)
        return SymDict([(None, lambda i=i: z3.IntVal(i)) for i in base] + sd.parts, has, pick)
    raise Unsupported("dictionary extended in a loop")


# ------------------------------------------------------------------ while loops
def while_loop(cond, body, get, put, names, line):
    E = eng()
    n = 0
    from . import whiles
    if whiles.active():
        return whiles.while_rule(cond, body, get, put, names, line)
    while True:
        c = cond()
        if isinstance(c, Sc) and not z3.is_true(z3.simplify(c.z)) and not z3.is_false(z3.simplify(c.z)):
            raise Unsupported("while loop without a symbolic bound")
        if not c:
            return None
        n += 1
        if n > 300:
            raise Unsupported("while loop without a symbolic bound")
        r = body()
        if r is not None:
            return r
