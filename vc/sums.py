"""Finite sums as binder terms, polynomial normal form, and the sum lemmas used when discharging obligations.

A sum atom  S_k(args)  stands for  sum_{lo <= j < hi} body(j; args).  The lemmas used are:
linearity (built into the normal form), extensionality, zero body, sign, one-point, pointwise combination.
"""
import collections
import itertools
import time
from fractions import Fraction
import z3
from .core import (I, R, B, Unsupported, fresh_name, has_quant, mentions, symbols, to_real, rv, consts_in)

# ---------------------------------------------------------------- polynomial normal form
_keep = {}


def _id(t):
    i = t.get_id()
    if i not in _keep:
        _keep[i] = t
    return i


ONE = ((), frozenset())


def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    d = dict(m[0])
    for a, p in n[0]:
        q = d.get(a, 0) + p
        if q:
            d[a] = q
        else:
            d.pop(a, None)
    return (tuple(sorted(d.items())), m[1] | n[1])


def p_mul(a, b):
    r = {}
    if len(a) * len(b) > 4000:
        raise Unsupported("polynomial too large")
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_atom(t, power=1):
    return {(((_id(t), power),), frozenset()): Fraction(1)}


_poly_cache = {}


def poly(e):
    k = e.get_id()
    c = _poly_cache.get(k)
    if c is not None and c[0].eq(e):
        return c[1]
    r = _poly(e)
    _poly_cache[k] = (e, r)
    return r


def _poly(e):
    if z3.is_rational_value(e):
        return p_const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_int_value(e):
        return p_const(e.as_long())
    if not z3.is_app(e):
        return p_atom(e)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = p_add(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]:
            r = p_add(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return p_add({}, poly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in ch:
            r = p_mul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return p_mul(poly(ch[0]), p_inv(poly(ch[1])))
    if k == z3.Z3_OP_TO_REAL:
        if z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_TO_INT:
            p = poly(ch[0].arg(0))
            if p_integral(p):
                return p
        if z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(ch[0].arg(1)):
            p = poly(ch[0].arg(0))
            d = ch[0].arg(1).as_long()
            if divisible(p, d):
                return p_toreal({m: c / d for m, c in p.items()})
        return p_toreal(poly(ch[0]))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_int_value(ch[1])):
        v = Fraction(str(ch[1].as_fraction())) if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
        if v.denominator == 1 and 0 <= v <= 6:
            r = p_const(1)
            b = poly(ch[0])
            for _ in range(int(v)):
                r = p_mul(r, b)
            return r
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        pa, pb = poly(a), poly(b)
        d = p_add(pa, pb, -1)
        if not d:
            return pa
        if pa and not p_add(pa, pb) and z3.is_app(c) and c.decl().kind() in CMP and c.arg(0).sort() == R:
            # |v|, written with the sign that makes the leading coefficient positive
            u = p_add(poly(c.arg(0)), poly(c.arg(1)), -1)
            up = c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT)
            if set(pa) - {ONE} and (u == pa and up or u == pb and not up):
                v = pa if pa[p_lead(pa)] > 0 else pb
                r = p_mul(p_cmp(z3.Z3_OP_GE, v, {}), v)
                return p_add(p_add(r, r), v, -1)
        r = p_add(pb, p_mul(p_ind(c), d))
        if len(r) > OPAQUE:
            f = zero_one(e)
            if f is not None:
                return p_ind(f) if z3.is_true(f) or z3.is_false(f) else {((), frozenset([_id(f)])): Fraction(1)}
        return r
    if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == "sqrt" and not poly(ch[0]):
        return {}
    if k == z3.Z3_OP_UNINTERPRETED and e.get_id() in ATOM_DEFS:
        return poly(ATOM_DEFS[e.get_id()][1])
    return p_atom(e)


def restate(c):
    """a comparison of reals with the defined symbols written out"""
    if z3.is_not(c):
        return z3.Not(restate(c.arg(0)))
    if z3.is_app(c) and (z3.is_eq(c) or c.decl().kind() in CMP) and c.arg(0).sort() == R:
        a, b = c.children()
        p, q = poly(a), poly(b)
        return c.decl()(p_term(p), p_term(q)) if z3.is_eq(c) is False else p_term(p) == p_term(q)
    return c


ATOM_DEFS = {}


def define_atom(E, const, term):
    """write the symbol const as this term from now on (term: an expression over a new symbol determined by const == term)"""
    E.assume(const == term)
    ATOM_DEFS[const.get_id()] = (const, term)
    _poly_cache.clear()


OPAQUE = 3   # an indicator whose expansion has more terms than this stays one indicator


def zero_one(e):
    """the condition under which a nest of if-then-elses over 0 and 1 is 1"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return z3.BoolVal(True) if e.as_fraction() == 1 else z3.BoolVal(False) if e.as_fraction() == 0 else None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        a, b = zero_one(a), zero_one(b)
        return None if a is None or b is None else z3.simplify(z3.Or(z3.And(c, a), z3.And(z3.Not(c), b)))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return zero_one(e.arg(0))
    return None


def divisible(p, d):
    """every value of the integer polynomial is a multiple of d: its value modulo d depends on the residues of its atoms only"""
    atoms = sorted({a for m in p for a, q in m[0]})
    if not 1 < d <= 6 or len(atoms) > 3 or any(m[1] or c.denominator != 1 or any(q < 0 or _keep[a].sort() != I for a, q in m[0]) for m, c in p.items()):
        return False
    for res in itertools.product(range(d), repeat=len(atoms)):
        v = dict(zip(atoms, res))
        t = 0
        for m, c in p.items():
            x = c.numerator
            for a, q in m[0]:
                x *= v[a] ** q
            t += x
        if t % d:
            return False
    return True


def p_toreal(p):
    r = {}
    for (atoms, ind), c in p.items():
        plain, extra = [], []
        for a, q in atoms:
            t = _keep[a]
            if q > 0 and t.sort() == I and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_INT and p_integral(poly(t.arg(0))):
                extra.append((poly(t.arg(0)), q))
            else:
                plain.append((_id(z3.ToReal(t)) if t.sort() == I else a, q))
        if extra:
            x = {(tuple(sorted(plain)), ind): c}
            for y, q in extra:
                for _ in range(q):
                    x = p_mul(x, y)
            r = p_add(r, x)
        else:
            m = (tuple(sorted(plain)), ind)
            r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


def is_index(t):
    from .core import eng
    return z3.is_const(t) and t.sort() == I and (t.decl().name() in eng().indices or t.decl().name()[0] in "γσ")


def index_age(t):
    """the same order before and after the indices get their canonical names"""
    n = t.decl().name()
    if n == "σ":
        return (2, 0, n)
    if n[0] == "γ":
        return (1, int(n[1:].partition("_")[0]), n)
    k = n.rpartition("!")[2]
    return (1, int(k), n) if k.isdigit() else (0, 0, n)


def has_to_int(t):
    st, seen = [t], set()
    while st:
        u = st.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        if u.decl().kind() == z3.Z3_OP_TO_INT:
            return True
        st.extend(u.children())
    return False


def p_ind(c):
    """indicator of a condition"""
    if z3.is_true(c):
        return p_const(1)
    if z3.is_false(c):
        return {}
    if z3.is_quantifier(c):
        return {((), frozenset([_id(c)])): Fraction(1)}
    if z3.is_not(c):
        return p_add(p_const(1), p_ind(c.arg(0)), -1)
    if z3.is_and(c):
        r = p_const(1)
        for x in c.children():
            r = p_mul(r, p_ind(x))
        return r
    if c.decl().kind() == z3.Z3_OP_ITE:
        u, v = below(c.arg(1)), below(c.arg(2))
        if u is not None and v is not None and u[1] == v[1]:
            return p_ind(z3.If(c.arg(0), u[0], v[0]) < 0 if u[1] else z3.If(c.arg(0), u[0], v[0]) <= 0)
        a = p_ind(c.arg(0))
        return p_add(p_mul(a, p_ind(c.arg(1))), p_mul(p_add(p_const(1), a, -1), p_ind(c.arg(2))))
    if c.decl().kind() == z3.Z3_OP_DISTINCT and c.num_args() == 2:
        return p_add(p_const(1), p_ind(c.arg(0) == c.arg(1)), -1)
    if z3.is_implies(c):
        return p_add(p_const(1), p_mul(p_ind(c.arg(0)), p_add(p_const(1), p_ind(c.arg(1)), -1)), -1)
    if z3.is_eq(c) and c.arg(0).sort() == B and not z3.is_const(c.arg(0)):
        a, b = p_ind(c.arg(0)), p_ind(c.arg(1))
        ab = p_mul(a, b)
        return p_add(p_add(p_add(p_const(1), a, -1), b, -1), p_add(ab, ab))
    if c.num_args() == 2 and c.decl().kind() in CMP and c.arg(0).sort() == R:
        return p_cmp(c.decl().kind(), poly(c.arg(0)), poly(c.arg(1)))
    if c.num_args() == 2 and c.decl().kind() in CMP:
        a, b = c.children()
        k = c.decl().kind()
        if has_to_int(c):
            x, y = p_toreal(poly(a)), p_toreal(poly(b))
            if p_integral(x) and p_integral(y):
                return p_cmp(k, x, y)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and is_index(a) and is_index(b):
            if k == z3.Z3_OP_GE:
                a, b = b, a
            if index_age(a) > index_age(b):  # one order of two indices only
                return p_add(p_add(p_const(1), {((), frozenset([_id(b <= a)])): Fraction(1)}, -1), p_ind(a == b))
            c = a <= b
        elif k == z3.Z3_OP_GE:
            c = b <= a
        elif k == z3.Z3_OP_GT:
            return p_add(p_const(1), p_ind(a <= b), -1)
        elif k == z3.Z3_OP_LT:
            return p_add(p_const(1), p_ind(b <= a), -1)
    elif z3.is_eq(c) and c.arg(0).sort() == R:
        d = p_add(poly(c.arg(0)), poly(c.arg(1)), -1)
        if not d:
            return p_const(1)
        if set(d) == {ONE}:
            return {}
        lead = d[p_lead(d)]
        c = p_term({m: q / lead for m, q in d.items()}) == 0
    elif z3.is_eq(c) and c.arg(0).sort() == I:
        d = p_add(poly(c.arg(0)), poly(c.arg(1)), -1)
        if not d:
            return p_const(1)
        if set(d) == {ONE}:
            return {}
        lead = d[p_lead(d)]
        t = p_int_term({m: q if lead > 0 else -q for m, q in d.items()})
        if t is not None:
            c = t == 0
    elif z3.is_or(c):
        r = p_const(1)
        for x in c.children():
            r = p_mul(r, p_add(p_const(1), p_ind(x), -1))
        if len(r) > OPAQUE:
            return {((), frozenset([_id(c)])): Fraction(1)}
        return p_add(p_const(1), r, -1)
    return {((), frozenset([_id(c)])): Fraction(1)}


CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


def below(c):
    """(t, strict) for a comparison of reals that says t < 0 or t <= 0"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if not z3.is_app(c) or c.decl().kind() not in CMP or c.arg(0).sort() != R:
        return None
    a, b = c.children()
    k = c.decl().kind()
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = b, a
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    return (b - a, not strict) if neg else (a - b, strict)


def p_lead(d):
    return min((m for m in d if m != ONE), key=mkey)


def p_cmp(k, a, b):
    """indicator of a comparison of reals, in the form t <= 0 or t >= 0 with a leading coefficient of 1"""
    d = p_add(a, b, -1)
    if not set(d) - {ONE}:
        v = d.get(ONE, 0)
        return p_const(int({z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_GT: v > 0}[k]))
    lead = d[p_lead(d)]
    if lead < 0:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
    t = p_term({m: q / lead for m, q in d.items()})
    c = t <= 0 if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) else t >= 0
    r = {((), frozenset([_id(c)])): Fraction(1)}
    return r if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else p_add(p_const(1), r, -1)


def p_integral(p):
    """every value of the polynomial is an integer"""
    from .core import eng
    E = eng()
    for (atoms, ind), c in p.items():
        if c.denominator != 1:
            return False
        for a, q in atoms:
            t = _keep[a]
            if q < 0:
                return False
            if t.sort() == I or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                continue
            ent = E.sum_reg.get(t.decl().name()) if z3.is_app(t) else None
            if ent is None or not ent.integral:
                return False
    return True


def p_inv(p):
    if not p:
        return p_atom(z3.RealVal(1) / z3.RealVal(0))
    if len(p) == 1:
        (m, c), = p.items()
        if not m[1]:
            return {(tuple((a, -q) for a, q in m[0]), frozenset()): 1 / c}
    # normalise the content so that 2x+2y and x+y share an atom
    lead = p[min(p, key=mkey)]
    q = {m: c / lead for m, c in p.items()}
    r = p_atom(p_term(q), -1)
    return {m: c / lead for m, c in r.items()}


_strs = {}


def skey(i):
    """structural key of an atom: orders terms the same way whatever their creation order"""
    r = _strs.get(i)
    if r is None:
        r = _strs[i] = _keep[i].sexpr()
    return r


def mkey(m):
    return (tuple(sorted((skey(a), q) for a, q in m[0])), tuple(sorted(skey(i) for i in m[1])))


def m_term(m, c=Fraction(1)):
    num, den = [], []
    for a, q in sorted(m[0], key=lambda x: skey(x[0])):
        t = to_real(_keep[a])
        (num if q > 0 else den).extend([t] * abs(q))
    if m[1]:
        cs = [_keep[i] for i in sorted(m[1], key=skey)]
        num.append(z3.If(z3.And(*cs) if len(cs) > 1 else cs[0], z3.RealVal(1), z3.RealVal(0)))
    t = None
    for x in num:
        t = x if t is None else t * x
    if c != 1 or t is None:
        t = rv(c) if t is None else rv(c) * t
    for x in den:
        t = t / x
    return t


def p_term(p):
    ts = [m_term(m, c) for m, c in sorted(p.items(), key=lambda mc: mkey(mc[0]))]
    if not ts:
        return z3.RealVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def p_int_term(p):
    """Int term of a polynomial with integer coefficients over Int atoms, or None"""
    ts = []
    for m, c in sorted(p.items(), key=lambda mc: mkey(mc[0])):
        if c.denominator != 1 or m[1]:
            return None
        t = None
        for a, q in sorted(m[0], key=lambda x: skey(x[0])):
            x = _keep[a]
            if x.sort() != I:
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    x = x.arg(0)
                else:
                    return None
            if q < 0:
                return None
            for _ in range(q):
                t = x if t is None else t * x
        k = z3.IntVal(int(c))
        ts.append(k if t is None else t if c == 1 else k * t)
    if not ts:
        return z3.IntVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


# ---------------------------------------------------------------- renormalisation (after renaming of indices)
_rn = {}
ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)


def rn(t):
    """the same term with every argument and condition in canonical order"""
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    k = t.get_id()
    c = _rn.get(k)
    if c is not None and c[0].eq(t):
        return c[1]
    r = _rn_(t)
    _rn[k] = (t, r)
    return r


def _rn_(t):
    k = t.decl().kind()
    if t.sort() == R and k != z3.Z3_OP_UNINTERPRETED and k != z3.Z3_OP_TO_REAL:
        try:
            return p_term(rn_poly(t))
        except Unsupported:
            return t
    if t.sort() == I and k in ARITH:
        u = t.decl()(*[rn(c) for c in t.children()])
        q = p_int_term(poly(u))
        return u if q is None else q
    if t.sort() == B and k in CMP + (z3.Z3_OP_EQ,) and t.arg(0).sort() == R:
        p = p_ind(t.decl()(*[rn(c) for c in t.children()]))
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and not m[0] and len(m[1]) == 1:
                return _keep[next(iter(m[1]))]
        if len(p) == 2:
            rest = {m: c for m, c in p.items() if m != ONE}
            if p.get(ONE) == 1 and len(rest) == 1:
                (m, c), = rest.items()
                if c == -1 and not m[0] and len(m[1]) == 1:
                    return z3.Not(_keep[next(iter(m[1]))])
        if not p:
            return z3.BoolVal(False)
        if p == p_const(1):
            return z3.BoolVal(True)
    ch = [rn(c) for c in t.children()]
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        ch = sorted(ch, key=lambda c: c.sexpr())
        return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
    return t.decl()(*ch)


def rn_poly(t):
    out = {}
    for (atoms, ind), c in poly(t).items():
        r = p_const(c)
        for a, q in atoms:
            x = _keep[a]
            y = poly(rn(x) if not (x.sort() == R and z3.is_app(x) and x.decl().kind() in ARITH + (z3.Z3_OP_DIV, z3.Z3_OP_ITE)) else p_term(rn_poly(x)) if q < 0 else x)
            y = p_toreal(y) if x.sort() == I else y
            if q < 0:
                y = p_inv(y)
            for _ in range(abs(q)):
                r = p_mul(r, y)
        for i in ind:
            r = p_mul(r, p_ind(rn(_keep[i])))
        out = p_add(out, r)
    return out


# ---------------------------------------------------------------- sum atoms
SIG = z3.Int("σ")


def gamma(i, sort):
    return z3.Const(f"γ{i}_{sort}", sort)


class SumEntry:
    __slots__ = ("decl", "lo", "hi", "body", "gs", "name", "pure", "integral")


def mk_sum(E, lo, hi, fn):
    """sum_{lo<=j<hi} fn(j) as a z3 Real term; fn returns a z3 term (Bool counts as 0/1)"""
    if not z3.is_expr(lo):
        lo = z3.IntVal(lo)
    if not z3.is_expr(hi):
        hi = z3.IntVal(hi)
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 64:
        r = z3.RealVal(0)
        for j in range(lo.as_long(), hi.as_long()):
            r = r + to_real(fn(z3.IntVal(j)))
        return z3.simplify(r) if hi.as_long() == lo.as_long() else r
    j = z3.Int(fresh_name("j"))
    with E.scope([j], [lo <= j, j < hi]):
        body = to_real(fn(j))
    return sum_of_term(E, lo, hi, j, body)


def sum_of_term(E, lo, hi, j, body):
    jn = j.decl().name()
    body = settle_range(E, lo, hi, j, body)
    if any(n.startswith("perm!") for n in symbols(body)):
        body = settle_perm(E, lo, hi, j, body)
    p = rn_poly(body)
    nonneg_body = is_nonneg(E, body)
    p = range_settled(E, lo, hi, j, p)
    tele, p = telescope(E, lo, hi, j, p)
    out = z3.RealVal(0)
    length = None
    groups = {}
    for (atoms, ind), c in p.items():
        ain = tuple((a, q) for a, q in atoms if jn in symbols(_keep[a]))
        aout = tuple((a, q) for a, q in atoms if jn not in symbols(_keep[a]))
        iin = frozenset(i for i in ind if jn in symbols(_keep[i]))
        iout = ind - iin
        groups.setdefault((ain, iin), []).append(((aout, iout), c))
    terms = [tele] if tele is not None else []
    for (ain, iin), outs in groups.items():
        e = one_point(E, lo, hi, j, iin) if iin else None
        if e is not None:
            s = settle(E, z3.substitute(m_term((ain, iin)), (j, e)))
        elif not ain and not iin:
            s = z3.If(hi >= lo, z3.ToReal(z3.simplify(hi - lo)), z3.RealVal(0))
            if E.valid(hi >= lo, 300):
                s = z3.ToReal(z3.simplify(hi - lo))
        else:
            s = atom(E, lo, hi, j, m_term((ain, iin)), pure=not ain)
        for m, c in outs:
            if m == ONE:
                terms.append(s if c == 1 else rv(c) * s)
            else:
                terms.append(m_term(m, c) * s)
    if not terms:
        return z3.RealVal(0)
    out = terms[0]
    for t in terms[1:]:
        out = out + t
    if nonneg_body:  # a sum of non-negative summands is not negative
        mark_nonneg(E, out)
        E.assume(out >= 0)
    return out


def one_point(E, lo, hi, j, ind):
    """the only index in lo..hi-1 the condition j == e leaves"""
    mj = (((_id(j), 1),), frozenset())
    for i in ind:
        t = _keep[i]
        if z3.is_eq(t) and t.arg(0).sort() == I and _linear(t):
            d = p_add(poly(t.arg(0)), poly(t.arg(1)), -1)
            c = d.pop(mj, 0)
            if abs(c) == 1 and not any(j.decl().name() in symbols(_keep[a]) for m in d for a, q in m[0]):
                e = p_int_term({m: -q / c for m, q in d.items()})
                if e is not None and E.valid(z3.And(lo <= e, e < hi), 300):
                    return e
    return None


_range_cache = {}


def _linear(t):
    """comparisons of index terms without uninterpreted functions"""
    st = [t]
    while st:
        u = st.pop()
        if not z3.is_app(u) or u.sort() == R or u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args():
            return False
        st.extend(u.children())
    return True


def by_range(lo, hi, j, t):
    """True / False when lo <= j < hi alone decides t"""
    key = (t.get_id(), lo.get_id(), hi.get_id(), j.get_id())
    if key not in _range_cache:
        def follows(g):
            s = z3.Solver()
            s.set("timeout", 200)
            s.add(lo <= j, j < hi, z3.Not(g))
            return s.check() == z3.unsat
        _range_cache[key] = (True if follows(t) else False if follows(z3.Not(t)) else None, lo, hi, t, j)
    return _range_cache[key][0]


def settle_range(E, lo, hi, j, body):
    """body with the conditions of its if-then-elses that the range decides replaced by their value"""
    jn = j.decl().name()
    conds, stack, seen = {}, [body], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and jn in symbols(t.arg(0)) and _linear(t.arg(0)):
            conds[t.arg(0).get_id()] = t.arg(0)
        stack.extend(t.children())
    sub = []
    for c in list(conds.values())[:8]:
        r = by_range(lo, hi, j, c)
        if r is not None:
            sub.append((c, z3.BoolVal(r)))
    return unite(z3.substitute(body, *sub)) if sub else body


def settle_perm(E, lo, hi, j, body):
    """body with the integer comparisons about a permutation's values that are known to hold, or to fail, replaced; perm(a) = perm(b) is a = b"""
    lits, stack, seen = {}, [body], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.num_args() == 2 and (z3.is_eq(t) or t.decl().kind() in CMP) and t.arg(0).sort() == I and any(n.startswith("perm!") for n in symbols(t)):
            lits[t.get_id()] = t
        else:
            stack.extend(t.children())
    sub = []
    with E.scope([j], [lo <= j, j < hi]):
        for c in list(lits.values())[:12]:
            a, b = c.children()
            if z3.is_eq(c) and z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
                r = a.children()[-1] == b.children()[-1]
                if E.valid(c == r, 500):
                    sub.append((c, r))
                    continue
            if E.valid(c, 500):
                sub.append((c, z3.BoolVal(True)))
            elif E.valid(z3.Not(c), 300):
                sub.append((c, z3.BoolVal(False)))
    return unite(z3.substitute(body, *sub)) if sub else body


def range_settled(E, lo, hi, j, p):
    """indicators that hold, or fail, for every j in lo..hi-1 by the range alone"""
    jn = j.decl().name()
    out = {}
    for (atoms, ind), c in p.items():
        keep, dead = [], False
        for i in ind:
            t = _keep[i]
            if jn not in symbols(t) or not _linear(t):
                keep.append(i)
                continue
            r = by_range(lo, hi, j, t)
            if r is None:
                keep.append(i)
            elif r is False:
                dead = True
        if not dead:
            m = (atoms, frozenset(keep))
            out[m] = out.get(m, 0) + c
            if not out[m]:
                del out[m]
    return out


def telescope(E, lo, hi, j, p):
    """split off  sum_j c (A(j+1) - A(j)) = c (A(hi) - A(lo))"""
    jn = j.decl().name()
    cand = [m for m in p if any(jn in symbols(_keep[a]) for a, q in m[0]) or any(jn in symbols(_keep[i]) for i in m[1])]
    if len(cand) < 2 or not any(p[m] > 0 for m in cand) or not any(p[m] < 0 for m in cand):
        return None, p
    p = dict(p)
    out = None
    for m in cand:
        if m not in p or all(_keep[a].eq(j) or _keep[a].decl().kind() == z3.Z3_OP_TO_REAL and _keep[a].arg(0).eq(j) for a, q in m[0]) and not m[1]:
            continue
        t = m_term(m)
        nx = rn_poly(z3.substitute(t, (j, j + 1)))
        if len(nx) != 1:
            continue
        (m2, c2), = nx.items()
        if m2 == m or m2 not in p or c2 != 1:
            continue
        c = p[m2]
        if p[m] * c >= 0 or abs(p[m]) != abs(c):
            continue
        if not E.valid(hi >= lo, 500):
            return None, p
        del p[m], p[m2]
        v = rv(c) * (z3.substitute(t, (j, hi)) - z3.substitute(t, (j, lo)))
        out = v if out is None else out + v
    return out, p


def exchange(E, lo1, hi1, lo2, hi2, fn):
    """(sum_i sum_j f(i,j), sum_j sum_i f(i,j)): equal, the ranges being independent of each other"""
    a = mk_sum(E, lo1, hi1, lambda i: mk_sum(E, lo2, hi2, lambda j: fn(i, j)))
    b = mk_sum(E, lo2, hi2, lambda j: mk_sum(E, lo1, hi1, lambda i: fn(i, j)))
    E.assume(a == b)
    return a, b


def mark_nonneg(E, t):
    E.ghost.setdefault("_nonneg", {})[t.get_id()] = t
    key, gs = generic_key(E, t)
    if gs:
        sub = [(g, gamma(i, g.sort())) for i, g in enumerate(gs)]
        where = [z3.substitute(f, *sub) for sc in E.scopes for f in [*sc.guard, *sc.pc]]
    else:
        where = [f for sc in E.scopes for f in [*sc.guard, *sc.pc]]
    E.ghost.setdefault("_nonneg_p", {}).setdefault(key, []).append(where)


def mark_positive(E, t):
    """t > 0 everywhere (t holds no generic index)"""
    mark_nonneg(E, t)
    E.ghost.setdefault("_positive_p", set()).add(generic_key(E, t)[0])


def generic_key(E, t):
    """t up to the names of the generic indices and up to a common positive factor"""
    gs = E.generics_for(symbols(t))
    p = rn_poly(z3.substitute(t, *[(g, gamma(i, g.sort())) for i, g in enumerate(gs)]) if gs else t)
    return frozenset(primitive(E, p, [(gamma(i, g.sort()), g) for i, g in enumerate(gs)]).items()), gs


def here(E, what, t, fn):
    """fn(), kept for this term under the conditions that hold at this point"""
    kept = E.ghost.setdefault(what, {})
    key = (t.get_id(), tuple(f.get_id() for sc in E.scopes for f in [*sc.guard, *sc.pc]))
    if key not in kept:
        kept[key] = (fn(), t)
    return kept[key][0]


def primitive(E, p, back):
    """p without the powers of positive atoms common to all its terms"""
    if not p or not ATOM_DEFS:
        return p
    common = None
    for m in p:
        e = dict(m[0])
        common = dict(e) if common is None else {a: min(common.get(a, 0), e.get(a, 0)) for a in set(common) | set(e)}
    common = {a: q for a, q in common.items() if q}
    pos = lambda t: here(E, "_pos", t, lambda: bool(E.valid(t > 0, 300)))
    common = {a: q for a, q in common.items() if pos(z3.substitute(to_real(_keep[a]), *back) if back else to_real(_keep[a]))}
    if not common:
        return p
    f = {(tuple(sorted((a, -q) for a, q in common.items())), frozenset()): Fraction(1)}
    return p_mul(p, f)


def marked(E, t):
    """t was found non-negative under conditions that hold here too"""
    key, gs = generic_key(E, t)
    known = {f.get_id() for sc in E.scopes for f in [*sc.guard, *sc.pc]}
    for where in E.ghost.get("_nonneg_p", {}).get(key, [])[:3]:
        fs = [z3.substitute(f, *[(gamma(i, g.sort()), g) for i, g in enumerate(gs)]) for f in where] if gs else where
        fs = [f for f in fs if f.get_id() not in known]
        if not fs or E.valid(z3.And(*fs), 300):
            return True
    return False


def is_nonneg(E, t, depth=12):
    """t >= 0 by its structure (squares, sums, products, quotients of non-negative terms)"""
    if depth < 0 or not z3.is_app(t):
        return False
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
    if t.get_id() in E.ghost.get("_nonneg", {}):
        return True
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_TO_REAL and z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_TO_INT:
        return is_nonneg(E, ch[0].arg(0), depth - 1)
    if t.sort() == R and E.ghost.get("_nonneg_p") and (k in ARITH or k == z3.Z3_OP_UNINTERPRETED) and marked(E, t):
        return True
    if k == z3.Z3_OP_ADD:
        return all(is_nonneg(E, c, depth - 1) for c in ch)
    if k == z3.Z3_OP_MUL:
        left = {}
        todo = list(ch)
        while todo:
            f = todo.pop()
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MUL:
                todo += f.children()
            elif left.pop(f.get_id(), None) is None:
                left[f.get_id()] = f
        return all(is_nonneg(E, c, depth - 1) for c in left.values())
    if k == z3.Z3_OP_DIV:
        return is_nonneg(E, ch[0], depth - 1) and (is_nonneg(E, ch[1], depth - 1))
    if k == z3.Z3_OP_ITE:
        return is_nonneg(E, ch[1], depth - 1) and is_nonneg(E, ch[2], depth - 1)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        f = ch[1].as_fraction()
        return f.denominator == 1 and f.numerator % 2 == 0
    if k == z3.Z3_OP_TO_REAL:
        return bool(E.valid(ch[0] >= 0, 200))
    if t.decl().name() in E.ghost.get("_nonneg_fun", ()):
        return True
    if t.sort() == R and t.decl().name() in ("sqrt", "fabs"):
        return t.decl().name() == "fabs"
    return False


def atom(E, lo, hi, j, body, pure):
    # generic indices the sum depends on
    names = (symbols(body) | symbols(lo) | symbols(hi)) - {j.decl().name()}
    gs = E.generics_for(names)
    sub = [(j, SIG)] + [(g, gamma(i, g.sort())) for i, g in enumerate(gs)]
    cb, clo, chi = (rn(z3.substitute(t, *sub)) for t in (body, lo, hi))
    key = (cb.get_id(), clo.get_id(), chi.get_id(), tuple(str(g.sort()) for g in gs))
    ent = E.sum_reg.get(key)
    if ent is None:
        ent = SumEntry()
        ent.name = fresh_name("Σ")
        ent.decl = z3.Function(ent.name, *[g.sort() for g in gs], R) if gs else z3.Const(ent.name, R).decl()
        ent.lo, ent.hi, ent.body, ent.gs, ent.pure = clo, chi, cb, [gamma(i, g.sort()) for i, g in enumerate(gs)], pure
        ent.integral = pure or p_integral(poly(cb))
        E.sum_reg[key] = ent
        E.sum_reg[ent.name] = ent
    t = ent.decl(*gs)
    if pure:
        key2 = ("purefact", t.get_id(), len(E.scopes))
        E.assume(t >= 0)
        E.assume(z3.Implies(hi >= lo, t <= z3.ToReal(hi - lo)))
        E.assume(z3.Implies(hi <= lo, t == 0))
    if ent.integral:
        E.assume(z3.IsInt(t))
    return t


def inst(ent, args, j):
    sub = [(SIG, j)] + list(zip(ent.gs, args))
    return z3.substitute(ent.body, *sub)


def bounds(ent, args):
    if not args:
        return ent.lo, ent.hi
    sub = list(zip(ent.gs, args))
    return z3.substitute(ent.lo, *sub), z3.substitute(ent.hi, *sub)


def sum_apps(E, t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in E.sum_reg:
                if not any(v in symbols(x) for v in ()):
                    out.append(x)
            stack.extend(x.children())
    return out


# ---------------------------------------------------------------- discharge
def _in_scope(E, ks, guard, fn):
    from .core import Scope
    for k in ks:
        E.indices[k.decl().name()] = k
    E.scopes.append(Scope(ks, guard))
    try:
        return fn()
    finally:
        E.scopes.pop()


def same_bounds(E, a, b):
    (l1, h1), (l2, h2) = a, b
    if l1.eq(l2) and h1.eq(h2):
        return True
    g = z3.simplify(z3.And(l1 == l2, h1 == h2))
    return bool(E.valid(g, 500))


def split_one_point(body, j):
    """body = If(And(j == e, rest), 1, 0)*w  -> (e, body[j:=e])"""
    stack, seen = [body], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_rational_value(t.arg(2)) and t.arg(2).as_fraction() == 0:
            c = t.arg(0)
            for lit in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(lit) and lit.arg(0).sort() == I:
                    d = p_add(poly(lit.arg(0)), poly(lit.arg(1)), -1)
                    mj = ((( _id(j), 1),), frozenset())
                    cj = d.pop(mj, 0)
                    if abs(cj) == 1 and not any(j.decl().name() in symbols(_keep[a]) for m in d for a, q in m[0]):
                        t = p_int_term({m: -q / cj for m, q in d.items()})
                        if t is not None:
                            return t
                if z3.is_eq(lit):
                    a, b = lit.children()
                    if a.eq(j) and not mentions(b, [j]):
                        return b
                    if b.eq(j) and not mentions(a, [j]):
                        return a
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            stack.extend(t.children())
    return None


def settle(E, g):
    """g with the conditions of its if-then-elses that are decided by what is known replaced by their value"""
    conds, stack, seen = {}, [g], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                conds[t.arg(0).get_id()] = t.arg(0)
            stack.extend(t.children())
    if not conds or len(conds) > 12:
        return g
    sub = []
    for c in conds.values():
        if E.valid(c, 300):
            sub.append((c, z3.BoolVal(True)))
        elif E.valid(z3.Not(c), 300):
            sub.append((c, z3.BoolVal(False)))
    if not sub:
        return g
    return unite(z3.substitute(g, *sub))


def refresh(E, g):
    """sums applied to terms other than index constants, written again from their body (so that equal sums are the same atom)"""
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][1]
        if not z3.is_app(t) or not t.num_args():
            r = t
        else:
            ch = [go(x) for x in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in E.sum_reg and not all(z3.is_const(c) and c.decl().name() in E.indices for c in ch):
                ent = E.sum_reg[t.decl().name()]
                lo, hi = bounds(ent, ch)
                j = z3.Int(fresh_name("j"))
                E.indices[j.decl().name()] = j
                with E.quiet():
                    r = _in_scope(E, [j], [lo <= j, j < hi], lambda: sum_of_term(E, rn(lo), rn(hi), j, go(inst(ent, ch, j))))
            elif t.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_TO_INT and p_integral(poly(ch[0].arg(0))):
                r = ch[0].arg(0)  # the real value of an integer
            else:
                r = t.decl()(*ch)
        cache[k] = (t, r)
        return r
    return go(g)


def unite(g):
    """drop if-then-elses with a constant condition"""
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        if not z3.is_app(t) or not t.num_args():
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c = z3.simplify(t.arg(0))
            r = go(t.arg(1)) if z3.is_true(c) else go(t.arg(2)) if z3.is_false(c) else z3.If(go(t.arg(0)), go(t.arg(1)), go(t.arg(2)))
        else:
            r = t.decl()(*[go(x) for x in t.children()])
        cache[k] = r
        return r
    return go(g)


def differences(x, y, out, limit=4):
    """the pairs of subterms in which x and y differ (arguments of + and * and of and/or compared as multisets); False if they are too different"""
    if x.eq(y):
        return True
    if len(out) > limit:
        return False
    if x.sort() == y.sort() and z3.is_app(x) and z3.is_app(y) and x.num_args() and x.num_args() == y.num_args() and x.decl().eq(y.decl()):
        cx, cy = x.children(), y.children()
        if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
            ids = collections.Counter(c.get_id() for c in cy)
            rx = []
            for c in cx:
                if ids[c.get_id()]:
                    ids[c.get_id()] -= 1
                else:
                    rx.append(c)
            ry = []
            for c in cy:
                if ids[c.get_id()]:
                    ids[c.get_id()] -= 1
                    ry.append(c)
            if len(rx) == 1 == len(ry):
                return differences(rx[0], ry[0], out, limit)
            if len(rx) == len(ry) and all(a.decl().eq(b.decl()) for a, b in zip(rx, ry)):
                cx, cy = rx, ry
        n = len(out)
        if all(differences(a, b, out, limit) for a, b in zip(cx, cy)):
            return True
        del out[n:]
    if x.sort() != y.sort() or x.sort() == B or not z3.is_app(x) or not z3.is_app(y) or (x.num_args() == 0 and y.num_args() == 0):
        return False
    if not any(p.eq(x) and q.eq(y) for p, q in out):
        out.append((x, y))
    return len(out) <= limit


def same_leaves(E, x, y):
    """x == y because the few subterms in which they differ are equal, each proved from the facts about its symbols alone"""
    out = []
    if not differences(x, y, out) or not out:
        return False
    for p, q in out:
        k = (E.path_no, p.decl().name(), q.decl().name())
        if E.leaf_fail.get(k, 0) >= 3:
            return False
        if not (E.valid(p == q, 600, depth=1) or E.valid(p == q, 1200, depth=2)):
            E.leaf_fail[k] = E.leaf_fail.get(k, 0) + 1
            return False
    return True


def unique_index(E, ent, a, lo, hi):
    """at most one index satisfies the condition the sum counts"""
    k = (E.path_no, a.decl().name())
    if k not in E.unique:
        if len(E.unique) > 30:
            return False
        c, d = z3.Int(fresh_name("c")), z3.Int(fresh_name("d"))
        x, y = inst(ent, a.children(), c), inst(ent, a.children(), d)
        E.unique[k] = _in_scope(E, [c, d], [lo <= c, c < d, d < hi], lambda: bool(E.valid(z3.Not(z3.And(x == 1, y == 1)), 400, depth=1)))
    return E.unique[k]


def lemmas(E, terms, depth, eqs=None):
    """equalities/inequalities about the sum atoms in terms, each proved here"""
    apps = {}
    for t in terms:
        for a in sum_apps(E, t):
            apps[a.get_id()] = a
    apps = list(apps.values())
    out = []
    if not apps or len(apps) > 40:
        return out
    for a in apps:
        if time.time() > E.lemma_deadline:
            return out
        ent = E.sum_reg[a.decl().name()]
        lo, hi = bounds(ent, a.children())
        j = z3.Int(fresh_name("j"))
        body = inst(ent, a.children(), j)
        e = split_one_point(body, j)
        if e is not None:
            val = z3.substitute(body, (j, e))
            out.append(a == z3.If(z3.And(lo <= e, e < hi), z3.simplify(val), z3.RealVal(0)))
            continue
        rng = [lo <= j, j < hi]
        if not ent.pure:
            if _in_scope(E, [j], rng, lambda: E.valid(body >= 0, 400)):
                out.append(a >= 0)
            out.append(z3.Implies(hi <= lo, a == 0))
        if _in_scope(E, [j], rng, lambda: E.valid(body == 0, 300)):
            out.append(a == 0)
        elif ent.pure and unique_index(E, ent, a, lo, hi):
            w = z3.Int(fresh_name("the"))
            q = z3.Int(fresh_name("q"))
            at = lambda t: inst(ent, a.children(), t) == 1
            none = z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Not(at(q))))
            out.append(z3.Or(z3.And(a == 0, none), z3.And(a == 1, lo <= w, w < hi, at(w))))
            out.append(z3.Implies(lo < hi, z3.Implies(a == 0, z3.And(z3.Not(at(lo)), z3.Not(at(hi - 1))))))
        elif ent.pure and _in_scope(E, [j], rng, lambda: E.valid(body == 1, 300)):
            out.append(z3.Implies(hi >= lo, a == z3.ToReal(hi - lo)))
    for a, b in itertools.combinations(apps, 2):
        if time.time() > E.lemma_deadline:
            return out
        ea, eb = E.sum_reg[a.decl().name()], E.sum_reg[b.decl().name()]
        if ea.pure != eb.pure and depth <= 0:
            continue
        ba, bb = bounds(ea, a.children()), bounds(eb, b.children())
        if not same_bounds(E, ba, bb):
            continue
        j = z3.Int(fresh_name("j"))
        x, y = rn(inst(ea, a.children(), j)), rn(inst(eb, b.children(), j))
        rng = [ba[0] <= j, j < ba[1]]

        def attempt():
            if x.eq(y) or same_leaves(E, x, y) or E.valid(x == y, 800):
                return "eq"
            if depth > 0 and (sum_apps(E, x) or sum_apps(E, y)):
                if prove_rec(E, x == y, depth - 1)[0]:
                    return "eq"
            if E.valid(x <= y, 300):
                return "le"
            if E.valid(y <= x, 300):
                return "ge"
            return None

        r = _in_scope(E, [j], rng, attempt)
        if r == "eq":
            out.append(a == b)
            if eqs is not None:
                done = dict((x.get_id(), y) for x, y in eqs)
                if a.get_id() in done:
                    if b.get_id() not in done and not done[a.get_id()].eq(b):
                        eqs.append((b, done[a.get_id()]))
                elif b.get_id() in done:
                    if not done[b.get_id()].eq(a):
                        eqs.append((a, done[b.get_id()]))
                else:
                    eqs.append((b, a))
        elif r == "le":
            out.append(a <= b)
        elif r == "ge":
            out.append(a >= b)
    return out


def combined(E, p, depth):
    """p (a polynomial) is zero because, per group of equal bounds, the weighted summands cancel pointwise"""
    groups = []
    rest = {}
    for (atoms, ind), c in p.items():
        s = [(a, q) for a, q in atoms if _keep[a].decl().name() in E.sum_reg and z3.is_app(_keep[a])]
        if len(s) == 1 and s[0][1] == 1 and not ind:
            a = _keep[s[0][0]]
            coef = m_term((tuple(x for x in atoms if x != s[0]), frozenset()), c)
            b = bounds(E.sum_reg[a.decl().name()], a.children())
            for g in groups:
                if same_bounds(E, g[0], b):
                    g[1].append((coef, a))
                    break
            else:
                groups.append((b, [(coef, a)]))
        else:
            rest[(atoms, ind)] = c
    if not groups or any(len(g[1]) < 2 for g in groups):
        return False
    if rest and not E.valid(p_term(rest) == 0, 500):
        return False
    for (lo, hi), parts in groups:
        j = z3.Int(fresh_name("j"))
        tot = z3.RealVal(0)
        for coef, a in parts:
            tot = tot + coef * inst(E.sum_reg[a.decl().name()], a.children(), j)
        ok = _in_scope(E, [j], [lo <= j, j < hi],
                       lambda: bool(E.valid(tot == 0, 1500)) or (depth > 0 and prove_rec(E, tot == 0, depth - 1)[0]))
        if not ok:
            return False
    return True


def prove(E, goal, depth=2):
    E.lemma_deadline = time.time() + E.lemma_s
    if symbols(goal) & E.defs.keys():
        if E.valid(goal, 1000):
            return True, "z3"
        goal = E.unfold(goal)
    return prove_rec(E, goal, depth)


def by_algebra(E, g):
    """an equation of rational expressions over atoms with square roots: multiplied out, root^2 replaced by its argument.
    Sound where every denominator is not zero and every such argument is not negative (checked)."""
    import sympy
    syms, roots, dens = {}, {}, []
    memo = {}

    def conv(t):
        i = t.get_id()
        if i not in memo:
            memo[i] = (conv_(t), t)
        return memo[i][0]

    def conv_(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return sympy.Rational(f.numerator, f.denominator)
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            return sympy.Add(conv(ch[0]), *[-conv(c) for c in ch[1:]])
        if k == z3.Z3_OP_UMINUS:
            return -conv(ch[0])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[conv(c) for c in ch])
        if k == z3.Z3_OP_DIV:
            dens.append(ch[1])
            return conv(ch[0]) / conv(ch[1])
        if k == z3.Z3_OP_TO_REAL and ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM):
            return conv(ch[0])
        if k == z3.Z3_OP_ITE:
            raise Unsupported("case distinction")
        if t.decl().name() == "sqrt":
            a = conv(ch[0])
            s = sympy.Symbol(f"r{len(syms)}")
            syms[t.get_id()] = t
            roots[s] = (a, ch[0])
            return s
        s = sympy.Symbol(f"x{len(syms)}")
        syms[t.get_id()] = t
        names[s] = t
        return s
    names = {}
    try:
        e = conv(g.arg(0)) - conv(g.arg(1))
        if not roots and not dens:
            return False
        num = sympy.fraction(sympy.together(e))[0]
        for s in reversed(list(roots)):  # a root's argument only holds earlier roots
            P = sympy.Poly(sympy.expand(num), s)
            if P.degree() < 2:
                continue
            if len(P.terms()) > 60:
                return False
            a = roots[s][0]
            even, odd = sympy.Integer(0), sympy.Integer(0)
            for (q,), c in P.terms():
                if q % 2:
                    odd += c * a ** (q // 2)
                else:
                    even += c * a ** (q // 2)
            num = sympy.fraction(sympy.together(even + odd * s))[0]
        num = sympy.expand(num)
        if num != 0:  # symbols known to be zero here
            back = {str(s): t for s, t in names.items()}
            zero = [s for s in num.free_symbols if s not in roots and str(s) in back and E.valid(to_real(back[str(s)]) == 0, 200)]
            if not zero or sympy.expand(num.subs([(s, 0) for s in zero])) != 0:
                return False
    except (Unsupported, sympy.PolynomialError):
        return False
    for a in {d.get_id(): d for d in dens}.values():
        if not nonzero(E, a):
            return False
    return all(is_nonneg(E, a) or E.valid(a >= 0, 1000) for _, a in roots.values())


def difference(g):
    """(d, strict) with g the same as d >= 0 or d > 0"""
    if z3.is_not(g):
        r = difference(g.arg(0))
        return None if r is None else ({m: -c for m, c in r[0].items()}, not r[1])
    if not (z3.is_app(g) and g.decl().kind() in CMP and g.arg(0).sort() == R):
        return None
    a, b = g.children()
    k = g.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        a, b = b, a
    return p_add(poly(a), poly(b), -1), k in (z3.Z3_OP_LT, z3.Z3_OP_GT)


def on_path(E, g):
    """an order the conditions on the path state in another form"""
    d = difference(g)
    if d is None:
        return False
    for sc in E.scopes:
        for f in [*sc.guard, *sc.pc]:
            h = difference(f)
            if h is not None and h[0] == d[0] and (h[1] or not d[1]):
                return True
    return False


def nonzero(E, t):
    return here(E, "_nonzero", t, lambda: nonzero_(E, t))


def nonzero_(E, t):
    if E.ghost.get("_positive_p") and z3.is_app(t) and t.num_args():
        try:
            if generic_key(E, t)[0] in E.ghost["_positive_p"]:
                return True
        except Unsupported:
            pass
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            return all(nonzero(E, c) for c in t.children())
        if k == z3.Z3_OP_DIV:
            return all(nonzero(E, c) for c in t.children())
        if t.decl().name() == "sqrt":
            a = t.arg(0)
            return (is_nonneg(E, a) or bool(E.valid(a >= 0, 1000))) and nonzero(E, a)
        if k == z3.Z3_OP_ADD and sum(1 for c in t.children() if z3.is_rational_value(c) and c.as_fraction() > 0) == 1 and all(is_nonneg(E, c) for c in t.children()):
            return True
    return bool(E.valid(t != 0, 1000))


def by_factors(E, g):
    """a comparison with zero of a polynomial that factors, from the signs of the factors"""
    k = g.decl().kind()
    a, b = g.children()
    try:
        p = p_add(rn_poly(a), rn_poly(b), -1)
    except Unsupported:
        return False
    if not 2 < len(p) <= 80:
        return False
    import sympy
    syms, back = {}, {}

    def sym(i):
        if i not in syms:
            syms[i] = sympy.Symbol(f"x{len(syms)}")
            t = _keep[i]
            back[syms[i]] = z3.If(t, z3.RealVal(1), z3.RealVal(0)) if t.sort() == B else to_real(t)
        return syms[i]

    e = sympy.Integer(0)
    for (atoms, ind), c in sorted(p.items(), key=lambda mc: mkey(mc[0])):
        t = sympy.Rational(c.numerator, c.denominator)
        for i, q in atoms:
            t *= sym(i) ** q
        for i in ind:
            t *= sym(i)
        e += t
    num, den = sympy.fraction(sympy.together(e))
    c0, fs = sympy.factor_list(num)
    c1, ds = sympy.factor_list(den)
    if len(fs) + len(ds) < 2 and not any(q > 1 for _, q in fs):
        return False

    def term(f):
        t = z3.RealVal(0)
        xs = sorted(f.free_symbols, key=str)
        for mono, c in sympy.Poly(f, *xs).terms():
            m = rv(Fraction(int(c.p), int(c.q)))
            for s_, q in zip(xs, mono):
                for _ in range(q):
                    m = m * back[s_]
            t = t + m
        return t

    def sign(f):
        """(sign, strict)"""
        t = z3.simplify(term(sympy.sympify(f)))
        if len(sympy.Poly(f, *f.free_symbols).terms()) > 40:
            return None
        n = len(t.children()) if z3.is_app(t) else 0
        for v, s1, s2 in ((1, t > 0, t >= 0), (-1, t < 0, t <= 0)):
            if E.valid(s2, 600):
                return v, bool(E.valid(s1, 600))
        return None

    sg, strict = (1 if c0 * c1 > 0 else -1), True
    for lst, inv in ((fs, False), (ds, True)):
        for f, q in lst:
            if q % 2 == 0 and not inv:
                if strict:
                    r = sign(f)
                    strict = bool(r and r[1])
                continue
            r = sign(f)
            if r is None or inv and not r[1]:
                return False
            sg *= r[0] if q % 2 else 1
            strict = strict and r[1]
    if k == z3.Z3_OP_GE:
        return sg > 0
    if k == z3.Z3_OP_LE:
        return sg < 0
    if k == z3.Z3_OP_GT:
        return sg > 0 and strict
    return sg < 0 and strict


def prove_rec(E, goal, depth):
    g = goal
    if z3.is_quantifier(g) and g.is_forall():
        ks = [z3.Const(fresh_name("sk"), g.var_sort(i)) for i in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(ks))
        return _in_scope(E, ks, [], lambda: prove_rec(E, b, depth))
    if z3.is_and(g):
        how = "evaluation"
        for c in g.children():
            ok, how = prove_rec(E, c, depth)
            if not ok:
                return False, how
        return True, how
    if z3.is_implies(g):
        r = _in_scope(E, [], [g.arg(0)], lambda: prove_rec(E, g.arg(1), depth))
        return r if r[0] or not E.valid(g, 1000) else (True, "z3")
    if z3.is_eq(g) and g.arg(0).sort() == B and depth >= 2 and not z3.is_true(z3.simplify(g)):
        if E.valid(g, 1500):
            return True, "z3"
        if has_quant(g):
            g = congruent(E, g)
            if E.valid(g, 1500):
                return True, "z3"
            if not z3.is_eq(g):
                return prove_rec(E, g, depth)
        a, b = g.children()
        r1 = _in_scope(E, [], [a], lambda: prove_rec(E, b, depth - 1))
        if not r1[0]:
            return r1
        return _in_scope(E, [], [b], lambda: prove_rec(E, a, depth - 1))
    s = z3.simplify(g)
    if z3.is_true(s):
        return True, "z3-simplify"
    ne = g if z3.is_distinct(g) and g.num_args() == 2 else g.arg(0) if z3.is_not(g) and z3.is_eq(g.arg(0)) else None
    if ne is not None and ne.arg(0).sort() == R:
        a, b = ne.children()
        if z3.is_rational_value(b) and b.as_fraction() == 0 and nonzero(E, a):
            return True, "structure"
    if ATOM_DEFS and on_path(E, g):
        return True, "normal form"
    g = refresh(E, settle(E, refresh(E, g)))
    is_eq = z3.is_eq(g) and g.arg(0).sort() in (R, I)
    if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE) and g.arg(0).sort() == R:
        a, b = g.children() if g.decl().kind() == z3.Z3_OP_GE else reversed(g.children())
        if z3.is_rational_value(b) and b.as_fraction() <= 0 and is_nonneg(E, a):
            return True, "structure"
    if z3.is_app(g) and g.decl().kind() in CMP and g.arg(0).sort() == R and by_factors(E, g):
        return True, "z3+factors"
    if is_eq:
        try:
            d = p_add(rn_poly(to_real(g.arg(0))), rn_poly(to_real(g.arg(1))), -1)
        except Unsupported:
            d = None
        if d is not None and not d:
            # 1/x cancels only for x != 0; x/x is syntactic here, both sides share the same division
            return True, "normal form"
        if d is not None and ATOM_DEFS and len(d) <= 400 and by_algebra(E, p_term(d) == 0):
            return True, "algebra"
        c = next((x.arg(0) for x in g.children() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE), None)
        if c is not None and depth >= 2 and E.ghost.get("_splits", 0) < 4:
            # by cases on the outermost condition
            E.ghost["_splits"] = E.ghost.get("_splits", 0) + 1
            try:
                for v in (True, False):
                    h = unite(z3.substitute(g, (c, z3.BoolVal(v))))
                    if not _in_scope(E, [], [c if v else z3.Not(c)], lambda: prove_rec(E, h, depth))[0]:
                        break
                else:
                    return True, "cases"
            finally:
                E.ghost["_splits"] -= 1
    has_sums = bool(sum_apps(E, g))
    c = None if has_sums or has_quant(g) or E.ghost.get("_splits", 0) >= 8 or not E.ghost.get("by_cases") else first_condition(g)
    if E.valid(g, 1200 if has_sums else 1000 if c is not None else E.timeout_ms):
        return True, "z3"
    if c is not None:
        E.ghost["_splits"] = E.ghost.get("_splits", 0) + 1
        try:
            for v in (True, False):
                lit = c if v else z3.Not(c)
                if E.valid(z3.Not(lit), 200):
                    continue
                h = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))))
                if not _in_scope(E, [], [lit], lambda: prove_rec(E, h, depth))[0]:
                    break
            else:
                return True, "cases"
        finally:
            E.ghost["_splits"] -= 1
    if not has_sums and depth < 2:
        return False, "z3"
    if time.time() > E.lemma_deadline:
        return False, "z3"
    eqs = []
    lm = lemmas(E, [g], depth, eqs)
    if eqs and is_eq:
        h = z3.substitute(g, *eqs)
        if not p_add(rn_poly(to_real(h.arg(0))), rn_poly(to_real(h.arg(1))), -1):
            return True, "normal form+sum lemmas"
    if lm and _in_scope(E, [], lm, lambda: E.valid(g, 1500)):
        return True, "z3+sum lemmas"
    if is_eq and d is not None and combined(E, d, depth):
        return True, "normal form+pointwise"
    facts = E.known()
    rel = E._relevant(g, facts, 2)
    terms = [g] + [f for f in rel if not has_quant(f) and sum_apps(E, f)][:20]
    lm = lemmas(E, terms, depth)
    if lm:
        if _in_scope(E, [], lm, lambda: E.valid(g, E.timeout_ms)):
            return True, "z3+sum lemmas"
    if is_eq and d is not None and lm:
        dd = p_term(d)
        if _in_scope(E, [], lm, lambda: E.valid(dd == 0, E.timeout_ms)):
            return True, "z3+sum lemmas"
    r = cvc5_try(E, g, lm)
    if r:
        return True, "cvc5"
    return False, "z3"


def first_condition(g):
    """the condition of some if-then-else in g that has none itself"""
    stack, seen = [g], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return first_condition(t.arg(0)) if first_condition(t.arg(0)) is not None else t.arg(0)
        stack.extend(t.children())
    return None


def quants(g):
    """the quantified subterms of g (outermost)"""
    out, stack, seen = [], [g], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            out.append(t)
        elif has_quant(t):
            stack.extend(t.children())
    return out


def congruent(E, g):
    """g with quantified subterms that hold of the same values written alike (their bodies are equal for arbitrary values)"""
    qs = quants(g)
    if not 2 <= len(qs) <= 6:
        return g
    sub, rep = [], []
    for q in qs:
        sorts = [q.var_sort(i) for i in range(q.num_vars())]
        for p in rep:
            if q.is_forall() != p.is_forall() or q.num_vars() != p.num_vars() or any(p.var_sort(i) != s for i, s in enumerate(sorts)):
                continue
            ks = [z3.Const(fresh_name("cg"), s) for s in sorts]
            a, b = (z3.substitute_vars(t.body(), *reversed(ks)) for t in (p, q))
            if a.eq(b) or _in_scope(E, ks, [], lambda: bool(E.valid(z3.simplify(settle(E, a == b)), 2000))):
                sub.append((q, p))
                break
        else:
            rep.append(q)
    return z3.substitute(g, *sub) if sub else g


def cvc5_try(E, g, lm):
    """second back end: the same query through SMT-LIB, cvc5 binary"""
    import subprocess, tempfile, os
    s = z3.Solver()
    for f in E._relevant(g, E.known(), 3) + lm:
        s.add(f)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    try:
        t = time.time()
        E.solver_calls["cvc5"] += 1
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=5000", "--nl-ext-tplanes"], input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=12)
        E.solver_time += time.time() - t
        return p.stdout.strip().startswith("unsat")
    except Exception:
        return False
