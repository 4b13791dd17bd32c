"""Core of the verifier: facts, scopes, path exploration, obligations, sums.

Numbers are mathematical: Python/numpy integers are z3 Ints, floats are z3 Reals.
Nothing here knows about pointpats; the vocabulary of the library contracts is in values.py / shims.
"""
import time
from fractions import Fraction
import os
import z3

z3.set_param("auto_config", True)


class Unsupported(BaseException):
    """The code left the subset the verifier understands: the property is undecided, never violated."""


class PathInfeasible(BaseException):
    """The current path has contradictory assumptions (not an error)."""


class Failed(BaseException):
    """A contract has failed so that its remaining clauses make no sense (the failure is recorded)."""


class Abort(BaseException):
    """Out of budget."""


R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()

_counter = [0]


def fresh_name(base):
    _counter[0] += 1
    return f"{base}!{_counter[0]}"


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def rv(x):
    """z3 Real value of a Python number (decimal literals are taken at face value)."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    raise Unsupported(f"number {x!r}")


def to_real(e):
    if e.sort() == R:
        return e
    if e.sort() == I:
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    if e.sort() == B:
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"to_real {e.sort()}")


def to_int(e):
    if e.sort() == I:
        return e
    if e.sort() == R:
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        if z3.is_rational_value(e) and e.denominator_as_long() == 1:
            return z3.IntVal(e.numerator_as_long())
        return z3.ToInt(e)
    if e.sort() == B:
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"to_int {e.sort()}")


def consts_in(e, acc=None, seen=None):
    """uninterpreted symbols (declarations) occurring in e"""
    acc = set() if acc is None else acc
    stack = [e]
    seen = set() if seen is None else seen
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl())
            stack.extend(t.children())
    return acc


_sym_cache = {}


def symbols(e):
    k = e.get_id()
    c = _sym_cache.get(k)
    if c is None or not c[0].eq(e):
        c = (e, frozenset(d.name() for d in consts_in(e)))
        _sym_cache[k] = c
    return c[1]


def mentions(e, consts):
    s = symbols(e)
    return any(c.decl().name() in s for c in consts)


def has_quant(e, _c={}):
    k = e.get_id()
    c = _c.get(k)
    if c is None or not c[0].eq(e):
        stack, seen, r = [e], set(), False
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                r = True
                break
            stack.extend(t.children())
        c = _c[k] = (e, r)
    return c[1]


class Obligation:
    def __init__(self, name, status, backend, secs, detail=None, path=None):
        self.name, self.status, self.backend, self.secs, self.detail, self.path = name, status, backend, secs, detail, path

    def __repr__(self):
        return f"<{self.name}: {self.status} [{self.backend}] {self.secs:.2f}s>"


class Scope:
    """A region in which `ks` are arbitrary values satisfying `guard` (or, with ks=[], a hypothetical branch)."""

    def __init__(self, ks, guard):
        self.ks, self.guard, self.facts, self.pc = list(ks), list(guard), [], []
        self.once = set()
        self.defined = set()


class Explorer:
    def __init__(self, depth=1):
        self.prefix = []
        self.depth = depth  # number of scopes open when a run starts
        self.trace = []  # decisions taken in the current run: list of [cond, value, forked]

    def start(self):
        self.trace = []

    def next_prefix(self):
        t = [list(x) for x in self.trace]
        while t and not (t[-1][2] and t[-1][1]):
            t.pop()
        if not t:
            return None
        t[-1][1] = False
        t[-1][2] = False
        return [(c, v, f) for c, v, f in t]


PATIENCE = float(os.environ.get("VC_PATIENCE", "1"))   # factor on every solver time limit


class Engine:
    def __init__(self, timeout_ms=8000, budget_s=600.0):
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.obligations = []
        self.reset_path()
        self.explorers = []
        self.solver_time = 0.0
        self.solver_calls = {"z3": 0, "cvc5": 0}
        self.assumed = {}  # name of an assumed contract -> times used
        self.quiet_obligations = False
        self.path_no = 0
        self.path_events = []
        self.max_paths = 600
        self.lemma_s = 15.0 * PATIENCE
        self.lemma_deadline = 0.0

    # ------------------------------------------------------------------ facts
    def reset_path(self):
        self.scopes = [Scope([], [])]
        self.hash_cons = {}
        self.sum_reg = {}
        self.fun_reg = {}
        self.bodies = {}
        self.ghost = {}
        self.leaf_fail = {}
        self.unique = {}
        self.journals = []
        self.rng_log = []
        self.write_log = []
        self.solver_cache = {}
        self._instr = 0
        self._quiet = 0
        self._err = []
        self.indices = {}
        self.frames_broken = set()
        self.defs = {}

    def assume(self, f, why=None):
        if isinstance(f, bool):
            if not f:
                raise PathInfeasible()
            return
        if why:
            self.assumed[why] = self.assumed.get(why, 0) + 1
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.scopes[-1].facts.append(f)

    def assume_global(self, f, why=None):
        """facts that do not depend on the current scope"""
        if why:
            self.assumed[why] = self.assumed.get(why, 0) + 1
        self.scopes[0].facts.append(f)

    def known(self):
        out = []
        for s in self.scopes:
            out += s.guard
            out += s.pc
            out += s.facts
        return out

    def generics(self):
        return [k for s in self.scopes for k in s.ks]

    def generics_for(self, names):
        """generic indices (open or closed) among the named symbols: what a term with these symbols depends on"""
        return [self.indices[n] for n in sorted((n for n in names if n in self.indices), key=lambda n: (int(n.rpartition("!")[2]) if n.rpartition("!")[2].isdigit() else 0, n))]

    def fresh(self, base, sort=R):
        """A fresh unknown; inside generic scopes it is a function of the generic indices."""
        gs = self.generics()
        nm = fresh_name(base)
        if not gs:
            return z3.Const(nm, sort)
        return z3.Function(nm, *[g.sort() for g in gs], sort)(*gs)

    def fresh_fun(self, base, dom, sort):
        """A fresh unknown function of `dom`; also of the generic indices in scope."""
        gs = self.generics()
        f = z3.Function(fresh_name(base), *[g.sort() for g in gs], *dom, sort)
        return lambda *a: f(*gs, *a)

    def define(self, base, dom, sort, fn):
        """a function symbol with the definition fn (unfolded only where a proof needs it); also a function of the generic indices in scope"""
        gs = self.generics()
        f = z3.Function(fresh_name(base), *[g.sort() for g in gs], *dom, sort)
        xs = [z3.Const(fresh_name("x"), d) for d in dom]
        for x in xs:
            self.indices[x.decl().name()] = x
        self.scopes.append(Scope(xs, []))
        try:
            with self.quiet():
                body = fn(*xs)
        finally:
            self.scopes.pop()
        self.defs[f.name()] = (list(gs) + xs, body)
        return lambda *a: f(*gs, *a)

    def unfold(self, t):
        """t with the defined symbols replaced by their definitions"""
        names = symbols(t) & self.defs.keys()
        if not names:
            return t
        cache = {}

        def go(u):
            k = u.get_id()
            if k in cache:
                return cache[k]
            if not z3.is_app(u) or not (symbols(u) & self.defs.keys()):
                r = u
            else:
                ch = [go(c) for c in u.children()]
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in self.defs:
                    xs, body = self.defs[u.decl().name()]
                    r = go(z3.substitute(body, *zip(xs, ch)))
                else:
                    r = u.decl()(*ch)
            cache[k] = r
            self.ghost.setdefault("_keep", []).append(u)
            return r
        return go(t)

    class _ScopeCM:
        def __init__(self, eng, ks, guard):
            self.eng, self.s = eng, Scope(ks, guard)
            for k in ks:
                eng.indices[k.decl().name()] = k

        def __enter__(self):
            self.eng.scopes.append(self.s)
            return self.s

        def __exit__(self, et, ev, tb):
            top = self.eng.scopes.pop()
            assert top is self.s
            if et is None:
                self.eng.export(top)
            return False

    def scope(self, ks=(), guard=()):
        return Engine._ScopeCM(self, ks, guard)

    def export(self, s):
        """facts found in a closed scope hold for all its generic values (under its guard and path condition)"""
        hyp = s.guard + s.pc
        for f in s.facts:
            self.scopes[-1].facts.append(self.close(s.ks, hyp, f))

    def close(self, ks, hyp, f):
        g = z3.Implies(z3.And(*hyp), f) if hyp else f
        use = [k for k in ks if mentions(g, [k])]
        if use:
            pats = self._patterns(use, f)
            g = z3.ForAll(use, g, patterns=pats) if pats else z3.ForAll(use, g)
        return g

    def _patterns(self, ks, f):
        """single-term patterns: uninterpreted applications that contain all of ks as direct arguments"""
        names = {k.decl().name() for k in ks}
        found, stack, seen = [], [f], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                    a = {c.decl().name() for c in t.children() if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED}
                    if names <= a and self._clean(t):
                        found.append(t)
                stack.extend(t.children())
        found.sort(key=lambda t: len(t.sexpr()))
        return found[:4]

    @staticmethod
    def _clean(t):
        for c in t.children():
            if not (z3.is_const(c) or (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and Engine._clean(c))):
                return False
        return True

    # ------------------------------------------------------------------ definedness, frames
    class _Count:
        def __init__(self, eng, name, val=None):
            self.eng, self.name, self.val = eng, name, val

        def __enter__(self):
            if self.name == "quiet":
                self.eng._quiet += 1
            else:
                self.eng._err.append(self.val)

        def __exit__(self, *a):
            if self.name == "quiet":
                self.eng._quiet -= 1
            else:
                self.eng._err.pop()
            return False

    def quiet(self):
        return Engine._Count(self, "quiet")

    def err(self, es):
        return Engine._Count(self, "err", es)

    @property
    def errstate(self):
        return self._err[-1] if self._err else None

    @property
    def scopes_quiet(self):
        return self._quiet > 0

    def once(self, key, fact):
        k = tuple(x.get_id() if is_z3(x) else x for x in key)
        if any(k in s.once for s in self.scopes):
            return
        self.scopes[-1].once.add(k)
        self.assume(fact())
        self.ghost.setdefault("_keep", []).extend(x for x in key if is_z3(x))

    def defined(self, cond, what):
        """an obligation of the executed operation itself (divisor, index, shape): asserted, then assumed"""
        if self._quiet:
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if any(c.get_id() in s.defined for s in self.scopes):
            return
        self.scopes[-1].defined.add(c.get_id())
        self.ghost.setdefault("_keep", []).append(c)
        where = self.ghost.get("where", "")
        self.prove(f"{where}: defined {what}", cond)
        self.assume(cond)

    def frame_violation(self, name):
        if name not in self.frames_broken:
            self.frames_broken.add(name)
            self.record(f"{self.ghost.get('where', '')}: frame {name} not modified", False, "evaluation", 0.0, "written")

    # ------------------------------------------------------------------ solving
    def _relevant(self, goal, facts, depth):
        syms = set(symbols(goal))
        chosen, rest = [], list(facts)
        for _ in range(depth):
            new, keep = [], []
            for f in rest:
                fs = symbols(f)
                if not fs or (fs & syms):
                    new.append(f)
                else:
                    keep.append(f)
            if not new:
                break
            chosen += new
            rest = keep
            for f in new:
                syms |= symbols(f)
        return chosen

    def check_time(self):
        if time.time() > self.deadline:
            raise Abort("verification budget exhausted")

    def _solve(self, fs, timeout_ms, backend="z3"):
        self.check_time()
        t = time.time()
        self.solver_calls[backend] += 1
        s = z3.Solver()
        s.set("timeout", int(timeout_ms * PATIENCE))
        for f in fs:
            s.add(f)
        r = s.check()
        self.solver_time += time.time() - t
        self._last_solver = s
        return r

    def valid(self, goal, timeout_ms=None, facts=None, depth=4):
        """True iff goal follows from what is known (proved), None if not established."""
        timeout_ms = timeout_ms or self.timeout_ms
        if isinstance(goal, bool):
            return True if goal else (True if self._solve([*self.known()], timeout_ms) == z3.unsat else None)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        facts = self.known() if facts is None else facts
        neg = z3.Not(g)
        rel = self._relevant(g, facts, depth) if not z3.is_false(g) else list(facts)
        qf = [f for f in rel if not has_quant(f)]
        if len(qf) < len(rel):
            r = self._solve(qf + [neg], min(timeout_ms, 1500))
            if r == z3.unsat:
                return True
        r = self._solve(rel + [neg], timeout_ms)
        if r == z3.unsat:
            return True
        self.last_result = r
        return None

    def infeasible(self, cond, timeout_ms=400):
        """cond contradicts what is known"""
        facts = self.known()
        rel = self._relevant(cond, facts, 3)
        qf = [f for f in rel if not has_quant(f)]
        if self._solve(qf + [cond], timeout_ms) == z3.unsat:
            return True
        if len(qf) < len(rel) and self._solve(rel + [cond], timeout_ms) == z3.unsat:
            return True
        return False

    # ------------------------------------------------------------------ branching
    def decide(self, cond):
        c = z3.simplify(cond)
        from . import sums
        if sums.ATOM_DEFS:
            c = sums.restate(cond if not z3.is_true(c) and not z3.is_false(c) else c)
            if z3.is_true(z3.simplify(c)) or z3.is_false(z3.simplify(c)):
                c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ex = self.explorers[-1]
        inner = [k for s in self.scopes[ex.depth:] for k in s.ks]
        local = bool(inner) and mentions(c, inner)
        if local or len(self.scopes) > ex.depth:
            # inside a nested scope: nothing about the arbitrary elements may steer the path
            if self.infeasible(z3.Not(c)):
                return True
            if self.infeasible(c):
                return False
            if local:
                raise Unsupported("branch on an arbitrary element")
        base = self.scopes[ex.depth - 1]
        pos = len(ex.trace)
        if pos < len(ex.prefix):
            pc, val, forked = ex.prefix[pos]
            ex.trace.append([c, val, forked])
            base.pc.append(c if val else z3.Not(c))
            return val
        if self.infeasible(z3.Not(c)):
            ex.trace.append([c, True, False])
            base.pc.append(c)
            return True
        if self.infeasible(c):
            ex.trace.append([c, False, False])
            base.pc.append(z3.Not(c))
            return False
        ex.trace.append([c, True, True])
        base.pc.append(c)
        return True

    def explore(self, run):
        """run() is executed once per feasible path (fresh path state each time)."""
        ex = Explorer()
        results = []
        n = 0
        while True:
            n += 1
            self.path_no = n
            if n > self.max_paths:
                raise Unsupported("too many paths")
            self.reset_path()
            self.explorers = [ex]
            ex.start()
            try:
                results.append(run())
            except PathInfeasible:
                pass
            p = ex.next_prefix()
            if p is None:
                break
            ex.prefix = p
        return results

    # ------------------------------------------------------------------ obligations
    def record(self, name, ok, backend, secs, detail=None):
        self.obligations.append(Obligation(name, "discharged" if ok else "open", backend, secs, detail, self.path_no))
        return ok

    def prove(self, name, goal, detail=None):
        from . import sums
        t0 = time.time()
        if isinstance(goal, bool):
            ok = goal or bool(self.valid(False))
            return self.record(name, ok, "evaluation" if goal else "z3", time.time() - t0, detail)
        ok, how = sums.prove(self, goal)
        if not ok and self.ghost.get("by_cases") and self.valid(False, 1500):
            ok, how = True, "z3"  # no such case
        d = None
        if not ok:
            d = (detail or "") + " goal: " + z3.simplify(goal).sexpr()[:1500]
            self.last_failed = goal
        return self.record(name, ok, how, time.time() - t0, d)

    def prove_forall(self, name, ranges, fn):
        """prove fn(k..) for all lo<=k<hi of the ranges"""
        ks, guard = [], []
        for lo, hi in ranges:
            k = z3.Int(fresh_name("any"))
            ks.append(k)
            guard += [k >= lo, k < hi]
        with self.scope(ks, guard):
            g = fn(*ks)
            return self.prove(name, g)


_ENG = [None]


def eng() -> Engine:
    return _ENG[0]


def set_engine(e):
    _ENG[0] = e
    return e
