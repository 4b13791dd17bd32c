"""Loops that draw until they have enough: partial correctness by loop invariants.

The contract under verification names the predicates a row of two coordinates (or an item of a list) may satisfy.
The invariants are found among instances of fixed templates (Houdini: all that hold on entry, less those an arbitrary
iteration does not preserve, until none is lost); those left are obligations "loop invariant ... preserved", proved for
an arbitrary iteration from an arbitrary state that satisfies them, and are what is known about the state afterwards.
Everything an iteration may write is arbitrary on entry and exit of the loop. Termination is not proved."""
import contextlib
import z3
from .core import I, R, B, PathInfeasible, Unsupported, eng, fresh_name, mentions, symbols, to_int, to_real
from .values import AttrCell, Cell, Dom, Part, SArr, Sc, Seq, UNDEF, VList, as_seq, canon, dim, is_num, lift, num, plain_dom, rank, selected, zi

SORT = {"f": R, "i": I, "b": B}


def active():
    return eng().ghost.get("rows") is not None


@contextlib.contextmanager
def rows(E, **good):
    """within the block loops go by invariants over rows (x, y) with these properties: name=predicate(x, y)"""
    old = E.ghost.get("rows")
    E.ghost["rows"] = list(good.items())
    try:
        yield
    finally:
        E.ghost["rows"] = old


@contextlib.contextmanager
def round_(k):
    """inside iteration number k of a for loop"""
    E = eng()
    if not active():
        yield
        return
    old = E.ghost.get("rounds", [])
    E.ghost["rounds"] = old + [k if z3.is_expr(k) else z3.IntVal(k)]
    try:
        yield
    finally:
        E.ghost["rounds"] = old


# ------------------------------------------------------------------ state
def typ(v):
    if v is UNDEF:
        return ("undef",)
    if is_num(v):
        return ("num", lift(v).kind)
    return ("same", v)


def row_of(x):
    """(x, y) of an item that is a row of two numbers, else None"""
    try:
        if isinstance(x, (tuple, list)) and not getattr(x, "symbolic", False) and len(x) == 2 and all(is_num(q) for q in x):
            return tuple(to_real(num(lift(q).z)) for q in x)
        if isinstance(x, SArr) and x.ndim == 1 and isinstance(x._shape[0], int) and x._shape[0] == 2:
            return tuple(to_real(num(x.el(z3.IntVal(c)).z)) for c in (0, 1))
    except Unsupported:
        pass
    return None


def seq_len(s):
    n = s.length()
    return zi(n if isinstance(n, int) else n.z if isinstance(n, Sc) else n)


def item_at(s, j):
    """row number j of a sequence of rows, for a symbolic j, else None"""
    off = z3.IntVal(0)
    out = None
    pieces = []
    for p in s.parts:
        if p.dom is None:
            r = row_of(p.item())
            n = z3.IntVal(1)
            f = (lambda k, r=r: r)
            if r is None:
                return None
        else:
            n = zi(p.dom.size.z if isinstance(p.dom.size, Sc) else p.dom.size)
            if getattr(p.dom, "plain", False):
                f = lambda k, p=p: row_of(p.item(k))
            else:
                sel = selected(p.dom)
                if sel is None:
                    return None
                f = lambda k, p=p, sel=sel: row_of(p.item(*sel(k)))
        pieces.append((off, n, f))
        off = off + n
    for o, n, f in reversed(pieces):
        r = f(z3.simplify(j - o))
        if r is None:
            return None
        out = r if out is None else tuple(z3.If(j < o + n, a, b) for a, b in zip(r, out))
    return out


class State:
    """what a loop may change: the values of its names and the contents of the cells it writes; k: the number of iterations of a for loop"""

    def __init__(self, vals, cells, k=None):
        self.vals, self.cells, self.k = list(vals), dict(cells), k


class Loop:
    def __init__(self, cond, body, get, put, names, line, part=None):
        self.cond, self.body, self.get, self.put, self.names, self.line, self.part = cond, body, get, put, names, line, part
        self.E = eng()
        self.init = self.get()
        self.types = [typ(v) for v in self.init]
        self.W = {}      # cells written
        self.wt = {}     # their types
        self.bounds = []

    # ---- arbitrary states
    def havoc(self):
        E = self.E
        vals, cells = [], {}
        for nm, t in zip(self.names, self.types):
            if t[0] == "num":
                vals.append(Sc(E.fresh(nm, SORT[t[1]]), t[1]))
            elif t[0] == "arr":
                dims = [d if d is not None else E.fresh("len_" + nm, I) for d in t[2]]
                for d, q in zip(t[2], dims):
                    if d is None:
                        E.assume(q >= 0)
                f = E.fresh_fun(nm, [I] * len(dims), SORT[t[1]])
                vals.append(SArr(tuple(dim(d) if z3.is_expr(d) else d for d in dims), lambda ix, f=f, k=t[1]: Sc(f(*ix), k), t[1]))
            elif t[0] == "poison":
                from .loops import Poison
                vals.append(Poison(f"{nm} after an unknown number of iterations"))
            elif t[0] == "undef":
                vals.append(UNDEF)
            else:
                vals.append(t[1])
        for cid, c in self.W.items():
            t = self.wt[cid]
            if t[0] == "arr":
                shape, kind = t[1], t[2]
                from .loops import flat_index
                m = sum(len(d.ranges) if isinstance(d, Dom) else 1 for d in shape)
                f = E.fresh_fun("content", [I] * m, SORT[kind])
                cells[cid] = lambda b, f=f, kind=kind: Sc(f(*flat_index(b)), kind)
            elif t[0] == "rows":
                n = E.fresh("len", I)
                E.assume(n >= 0)
                f = E.fresh_fun("item", [I, I], R)
                cells[cid] = Seq([Part(plain_dom(n), lambda k, f=f: SArr((2,), lambda ix, k=k: Sc(f(k, ix[0]), "f"), "f"))])
            elif t[0] == "num":
                cells[cid] = Sc(E.fresh("attr", SORT[t[1]]), t[1])
            else:
                raise Unsupported(f"a loop without bound changes {t[0]}")
        k = None
        if self.part is not None:
            k = E.fresh("iteration", I)
            E.assume(z3.And(k >= 0, k <= self.N))
        return State(vals, cells, k)

    def write(self, s):
        self.put(tuple(s.vals))
        for cid, c in self.W.items():
            if isinstance(c, Cell):
                c.set(s.cells[cid])
            else:
                from .loops import attr_set
                attr_set(c, s.cells[cid])

    def now(self, vals=None, cells=None, k=None):
        cells = cells or {}
        out = {}
        for cid, c in self.W.items():
            out[cid] = cells[cid][1] if cid in cells else (c.v if isinstance(c, Cell) else c.get())
        return State(self.get() if vals is None else vals, out, k)

    # ---- what the templates speak of
    def measures(self, s):
        """integer quantities of a state"""
        out = {}
        for i, (nm, t) in enumerate(zip(self.names, self.types)):
            if t[0] == "num" and t[1] == "i" and is_num(s.vals[i]):
                out[nm] = zi(s.vals[i])
            elif t[0] == "arr" and None in t[2] and isinstance(s.vals[i], SArr):
                out["len " + nm] = zi(s.vals[i]._shape[t[2].index(None)])
        for cid, t in self.wt.items():
            if t[0] == "rows":
                v = s.cells[cid]
                out[f"len of list {self.order[cid]}"] = seq_len(v) if isinstance(v, Seq) else z3.IntVal(len(v))
            elif t[0] == "num" and t[1] == "i":
                out[f"attribute {self.order[cid]}"] = zi(s.cells[cid])
        if s.k is not None:
            out["iterations"] = s.k
        return out

    def tables(self, s):
        """[(name, [dims of the index], fn(index) -> (x, y))] of the rows of two numbers in a state"""
        out = []
        for i, (nm, t) in enumerate(zip(self.names, self.types)):
            a = s.vals[i]
            if t[0] == "arr" and isinstance(a, SArr) and a.ndim >= 2 and isinstance(a._shape[-1], int) and a._shape[-1] == 2:
                out.append((nm, [zi(d) for d in a._shape[:-1]], lambda *j, a=a: tuple(to_real(num(a.el(*j, z3.IntVal(c)).z)) for c in (0, 1))))
        for cid, t in self.wt.items():
            v = s.cells[cid]
            if t[0] == "arr" and len(t[1]) >= 2 and isinstance(t[1][-1], int) and t[1][-1] == 2 and not any(isinstance(d, Dom) for d in t[1]):
                out.append((f"array {self.order[cid]}", [zi(d) for d in t[1][:-1]], lambda *j, v=v: tuple(to_real(num(lift(v((*j, z3.IntVal(c)))).z)) for c in (0, 1))))
            elif t[0] == "rows":
                q = v if isinstance(v, Seq) else Seq([Part(None, lambda x=x: x) for x in v])
                out.append((f"list {self.order[cid]}", [seq_len(q)], lambda j, q=q: item_at(q, j)))
        return out

    def candidates(self):
        """[(description, fn(state) -> formula)]"""
        E = self.E
        s0 = self.now()
        s0.k = z3.IntVal(0) if self.part is not None else None
        m0 = self.measures(s0)
        names = list(m0)
        out = []
        for nm in names:
            out.append((f"{nm} >= its first value", lambda s, nm=nm: self.measures(s)[nm] >= m0[nm]))
            for b in self.bounds:
                out.append((f"{nm} <= {str(b)[:40]}", lambda s, nm=nm, b=b: self.measures(s)[nm] <= b))
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                out.append((f"{a} = {b}", lambda s, a=a, b=b: self.measures(s)[a] == self.measures(s)[b]))
        outer = E.ghost.get("rounds", [])
        flags = [i for i, t in enumerate(self.types) if t == ("num", "b")]
        for q, (tn, dims, _) in enumerate(self.tables(s0)):
            for gn, g in E.ghost["rows"]:
                def cand(s, pre, hi, q=q, g=g):
                    """rows pre + (j,) with j < hi(s) have the property"""
                    tn, dims, f = self.tables(s)[q]
                    j = z3.Int(fresh_name("row"))
                    r = f(*pre, j)
                    if r is None:
                        return z3.BoolVal(z3.is_int_value(z3.simplify(dims[-1])) and z3.simplify(dims[-1]).as_long() == 0)
                    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, *[j < q for q in hi(s, dims)]), g(*r)))

                def cand2(s, k, q=q, g=g):
                    tn, dims, f = self.tables(s)[q]
                    i, j = z3.Int(fresh_name("rep")), z3.Int(fresh_name("row"))
                    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < k(s), j >= 0, j < dims[1]), g(*f(i, j))))
                if len(dims) == 1:
                    out.append((f"every row of {tn}: {gn}", lambda s, c=cand: c(s, (), lambda s, d: [d[-1]])))
                    for nm in names:
                        out.append((f"rows of {tn} below {nm}: {gn}", lambda s, c=cand, nm=nm: c(s, (), lambda s, d: [self.measures(s)[nm], d[-1]])))
                elif len(dims) == 2:
                    for o in outer:
                        out.append((f"rows of {tn} of earlier rounds: {gn}", lambda s, c=cand2, o=o: c(s, lambda s: o)))
                        for nm in names:
                            out.append((f"rows of this round of {tn} below {nm}: {gn}", lambda s, c=cand, o=o, nm=nm: c(s, (o,), lambda s, d: [self.measures(s)[nm]])))
                        for i in flags:
                            out.append((f"rows of this round of {tn} when {self.names[i]}: {gn}", lambda s, c=cand, o=o, i=i: z3.Implies(lift(s.vals[i]).z, c(s, (o,), lambda s, d: [d[-1]]))))
                    if self.part is not None:
                        out.append((f"rows of {tn} of the rounds so far: {gn}", lambda s, c=cand2: c(s, lambda s: s.k)))
        return out

    # ---- an arbitrary iteration
    def iteration(self, cands, report=False):
        """paths of one iteration from an arbitrary state with these properties: [(pc, (signal, values), cells)]; also the truth of the properties at its end"""
        E = self.E
        from .loops import generic
        mark = len(E.scopes[-1].facts)
        h = self.havoc()
        guard = []
        for d, f in cands:
            guard.append(f(h))
        if self.part is not None:
            guard.append(h.k < self.N)
        lost = set()

        def run():
            try:
                return run_()
            except Exception as e:
                if (not report or isinstance(e, E.ghost.get("may_raise", ()))) and not isinstance(e, Unsupported):
                    raise PathInfeasible()  # while looking for invariants only; the final pass takes no exception
                raise

        def run_():
            self.write(h)
            if self.part is not None:
                with round_(h.k):
                    r = self.body(self.part.item(h.k))
            else:
                c = self.cond()
                if isinstance(c, Sc):
                    self.note_bounds(c.z, h)
                    c = E.decide(c.z)
                if not c:
                    raise PathInfeasible()
                r = self.body()
            vals = self.get()
            if r is None:
                for q, (d, f) in enumerate(cands):
                    if q in lost:
                        continue
                    s = self.now(vals, None, None if h.k is None else h.k + 1)
                    try:
                        g = f(s)
                    except Unsupported:
                        lost.add(q)
                        continue
                    if report:
                        E.prove(f"{E.ghost.get('where', '')}: loop invariant preserved ({d})", g)
                    elif not holds(E, g):
                        lost.add(q)
            return r, vals
        outs = generic([], guard, run)
        del E.scopes[-1].facts[mark:]
        self.put(self.init)
        return outs, lost

    def look_at_condition(self):
        from .loops import generic
        E = self.E
        mark = len(E.scopes[-1].facts)
        h = self.havoc()

        def run():
            self.write(h)
            c = self.cond()
            if isinstance(c, Sc):
                self.note_bounds(c.z, h)
            raise PathInfeasible()
        generic([], [], run)
        del E.scopes[-1].facts[mark:]
        self.put(self.init)

    def note_bounds(self, c, h):
        own = [z3.simplify(m) for m in self.measures(h).values()]

        def rec(t):
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and t.arg(0).sort() == I:
                for x in t.children():
                    if not z3.is_int_value(x) and not any(mentions(x, [o]) for o in own if z3.is_const(o)):
                        if not any(b.eq(x) for b in self.bounds):
                            self.bounds.append(x)
            for q in t.children():
                rec(q)
        rec(z3.simplify(c))
        rec(c)

    def rule(self):
        E = self.E
        if self.part is not None:
            self.N = zi(self.part.dom.size.z if isinstance(self.part.dom.size, Sc) else self.part.dom.size)
            self.bounds.append(self.N)
            if not E.decide(self.N > 0):
                return None
        self.order = {}
        memo = E.ghost.setdefault("loop_memo", {}).get((self.line, tuple(self.names)))
        searching = E.scopes_quiet
        with E.quiet():
            if memo is not None:
                # found at an earlier execution of the loop: where to start, no more
                for i, t in memo["types"].items():
                    if self.types[i][0] in ("same", "undef", t[0]):
                        self.types[i] = t
                if self.part is None:
                    self.look_at_condition()
            for _ in range(12 if memo is None or memo["writes"] else 0):
                nb = len(self.bounds)
                outs, _x = self.iteration([])
                if not self.widen(outs) and nb == len(self.bounds):
                    break
            else:
                if memo is None or memo["writes"]:
                    raise Unsupported("what the loop writes does not stabilise")
            cands = []
            s0 = self.now(None, None, z3.IntVal(0) if self.part is not None else None)
            for d, f in self.candidates():
                if (memo is None or d not in memo["lost"]) and holds(E, f(s0)):
                    cands.append((d, f))
            gone = set()
            while True:
                outs, lost = self.iteration(cands)
                if self.widen(outs):
                    if memo is not None:
                        del E.ghost["loop_memo"][(self.line, tuple(self.names))]
                        self.types = [typ(v) for v in self.init]
                        self.W, self.wt, self.bounds = {}, {}, []
                        return self.rule()
                    raise Unsupported("what the loop writes depends on its invariants")
                if not lost:
                    break
                gone |= {cands[q][0] for q in lost}
                cands = [c for q, c in enumerate(cands) if q not in lost]
        E.ghost["loop_memo"][(self.line, tuple(self.names))] = dict(
            types={i: t for i, t in enumerate(self.types) if t[0] in ("poison", "num") or t[0] == "arr" and all(d is None or isinstance(d, int) for d in t[2])},
            writes=bool(self.W), lost=gone | (memo["lost"] if memo else set()))
        if not searching:
            for d, f in cands:
                E.prove(f"{E.ghost.get('where', '')}: loop invariant on entry ({d})", f(s0))
            outs, _ = self.iteration(cands, report=True)
        leave = [o for o in outs if o[1][0] is not None]
        if leave:
            raise Unsupported("break or return in a loop without bound")
        # afterwards: any state with the invariants in which the condition fails
        h = self.havoc()
        self.write(h)
        for d, f in cands:
            E.assume(f(h))
        if self.part is not None:
            E.assume(h.k == self.N)
        else:
            c = self.cond()
            if isinstance(c, Sc):
                E.assume(z3.Not(c.z))
            elif c:
                raise PathInfeasible()
        # names first assigned in the loop
        return None

    def widen(self, outs):
        """record what the iterations write and of which type; True: something new"""
        E = self.E
        new = False
        for pc, (r, vals), w in outs:
            for cid, (c, nv) in w.items():
                if isinstance(c, Cell) and c.born > len(E.journals):
                    continue
                if cid not in self.W:
                    self.W[cid] = c
                    self.order[cid] = len(self.order)
                    self.wt[cid] = self.cell_type(c, nv)
                    new = True
                elif self.wt[cid][0] == "num" and is_num(nv) and rank(lift(nv).kind) > rank(self.wt[cid][1]):
                    self.wt[cid] = ("num", lift(nv).kind)
                    new = True
            for i, v in enumerate(vals):
                t = self.types[i]
                if t[0] == "num":
                    if not is_num(v):
                        self.types[i] = ("poison",)
                        new = True
                    elif rank(lift(v).kind) > rank(t[1]):
                        self.types[i] = ("num", lift(v).kind)
                        new = True
                elif t[0] == "undef" and v is not UNDEF:
                    self.types[i] = ("poison",)
                    new = True
                elif t[0] in ("same", "arr") and v is not t[1]:
                    b = t[1] if t[0] == "same" else None
                    if t[0] == "same" and isinstance(v, SArr) and isinstance(b, SArr) and v.ndim == b.ndim:
                        dims = [d if same_dim(E, d, e) else None for d, e in zip(b._shape, v._shape)]
                        self.types[i] = ("arr", max(b.kind, v.kind, key=rank), dims)
                        new = True
                    elif t[0] == "arr" and isinstance(v, SArr) and v.ndim == len(t[2]):
                        dims = [None if d is None or not same_dim(E, d, e) else d for d, e in zip(t[2], v._shape)]
                        k = max(t[1], v.kind, key=rank)
                        if dims != t[2] or k != t[1]:
                            self.types[i] = ("arr", k, dims)
                            new = True
                    elif t[0] != "poison":
                        self.types[i] = ("poison",)
                        new = True
        return new

    def cell_type(self, c, nv):
        if isinstance(c, AttrCell):
            v = c.get()
            return ("num", max(lift(v).kind, lift(nv).kind, key=rank)) if is_num(v) and is_num(nv) else ("attribute " + c.name,)
        if callable(c.v):
            if not c.info or c.info[0] != "arr":
                return ("content",)
            return ("arr", c.info[1], c.info[2])
        if isinstance(c.v, (tuple, Seq)):
            s = nv if isinstance(nv, Seq) else Seq([Part(None, lambda x=x: x) for x in nv])
            with self.E.quiet():
                r = item_at(s, z3.Int(fresh_name("row"))) if s.parts else None
            return ("rows",) if r is not None else ("list of other items",)
        return ("container",)


def same_dim(E, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(E.valid(zi(a) == zi(b), 500))


def holds(E, g):
    """the formula holds here (universal ones for arbitrary elements)"""
    if z3.is_quantifier(g) and g.is_forall():
        ks = [z3.Const(fresh_name("sk"), g.var_sort(i)) for i in range(g.num_vars())]
        b = z3.substitute_vars(g.body(), *reversed(ks))
        return bool(E.valid(b, 2000))
    return bool(E.valid(g, 2000))


def while_rule(cond, body, get, put, names, line):
    return Loop(cond, body, get, put, names, line).rule()


def for_rule(part, body, get, put, names, line):
    return Loop(None, body, get, put, names, line, part).rule()
