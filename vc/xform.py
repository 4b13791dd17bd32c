"""Mechanical extraction: the module's source of /repo, rewritten so that its own statements run on symbolic values.

What the rewriting changes (nothing else; expressions, calls, conditions and their order stay the code's own):
  - type annotations and docstrings are dropped (the first annotation of a singledispatch implementation becomes register(T));
  - a `for` / `while` body becomes a local function handed to the loop rule (vc/loops.py), with break/continue/return as signals;
  - comprehensions are handed to the comprehension rule, list/dict displays build the engine's lists and dictionaries;
  - a generator is run to its end and its values are a list (they are consumed by functions that change nothing it reads);
  - `x in c`, calls with *args, and attribute stores go through the engine (vc/rt.py);
  - builtins and imported libraries are the contracts of vc/shims.
"""
import ast
import builtins


def names_assigned(nodes):
    """names bound by statements (not inside nested functions, lambdas, comprehensions or classes)"""
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.visit(n.value)

        def visit_AnnAssign(self, n):
            if n.value is not None:
                tgt(n.target)

        def visit_AugAssign(self, n):
            tgt(n.target)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.visit(n.value)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_FunctionDef(self, n):
            out.append(n.name)

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda
    v = V()
    for n in nodes:
        v.visit(n)
    return list(dict.fromkeys(out))


def _vc(name):
    return ast.Attribute(ast.Name("_vc_", ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_vc(name), list(args), [])


def _const(v):
    return ast.Constant(v)


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def has_yield(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class X(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []  # stack of dict(globals=set, hoist=set) for functions; None at module level
        self.inloop = 0

    def uid(self, base):
        self.n += 1
        return f"__{base}{self.n}"

    # ---------------------------------------------------------------- statements
    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_Module(self, n):
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        n.body = self.block(body)
        return n

    def visit_ImportFrom(self, n):
        if n.module == "__future__":
            return None
        return n

    def visit_FunctionDef(self, n):
        decs = []
        first = n.args.args[0] if n.args.args else None
        for d in n.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr == "register" and first is not None and first.annotation is not None:
                decs.append(ast.Call(d, [first.annotation], []))
            else:
                decs.append(self.visit(d))
        n.decorator_list = decs
        n.returns = None
        for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        g = set()
        nl = set()
        for s in body:
            for q in ast.walk(s):
                if isinstance(q, ast.Global):
                    g |= set(q.names)
                if isinstance(q, ast.Nonlocal):
                    nl |= set(q.names)
        params = {a.arg for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
        fr = {"globals": g, "nonlocal": nl, "params": params, "hoist": set(), "yields": has_yield(n)}
        self.fn.append(fr)
        sav, self.inloop = self.inloop, 0
        n.body = self.block(body)
        self.inloop = sav
        self.fn.pop()
        if fr["yields"]:
            n.body = [ast.Assign([ast.Name("__gen", ast.Store())], _call("mklist", ast.List([], ast.Load())))] + n.body + [ast.Return(ast.Name("__gen", ast.Load()))]
        hoist = sorted(fr["hoist"] - params - g - nl)
        if hoist:
            n.body = [ast.Assign([ast.Name(h, ast.Store()) for h in hoist], _vc("UNDEF"))] + n.body
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(d) for d in n.bases]
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        n.body = self.block(body)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return None
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            v = n.value.value
            m = "append" if isinstance(n.value, ast.Yield) else "extend"
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("__gen", ast.Load()), m, ast.Load()), [self.visit(v) if v is not None else _const(None)], []))
        n.value = self.visit(n.value)
        return n

    def visit_Assign(self, n):
        v = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.Expr(_call("setattr", self.visit(t.value), _const(t.attr), v))
        if any(isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store) for t in n.targets for q in ast.walk(t)):
            out = []
            tmp = self.uid("t")
            if self.fn and self.inloop:
                pass
            out.append(ast.Assign([ast.Name(tmp, ast.Store())], v))
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    subs = [self.uid("t") for _ in t.elts]
                    out.append(ast.Assign([ast.Tuple([ast.Name(s, ast.Store()) for s in subs], ast.Store())], _call("unpack", ast.Name(tmp, ast.Load()), _const(len(subs)))))
                    for s, e in zip(subs, t.elts):
                        out += self._as_list(self.visit_Assign(ast.Assign([e], ast.Name(s, ast.Load()))))
                else:
                    out += self._as_list(self.visit_Assign(ast.Assign([t], ast.Name(tmp, ast.Load()))))
            return out
        # unpacking of a symbolic value
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets) and not isinstance(v, ast.Tuple):
            t = [t for t in n.targets if isinstance(t, (ast.Tuple, ast.List))][0]
            if not any(isinstance(e, ast.Starred) for e in t.elts):
                v = _call("unpack", v, _const(len(t.elts)))
        n.value = v
        n.targets = [self.visit(t) for t in n.targets]
        return n

    @staticmethod
    def _as_list(x):
        return x if isinstance(x, list) else [x]

    def visit_AugAssign(self, n):
        v = self.visit(n.value)
        if isinstance(n.target, ast.Attribute):
            return ast.Expr(_call("augattr", self.visit(n.target.value), _const(n.target.attr), _const(type(n.op).__name__), v))
        if isinstance(n.target, ast.Subscript):
            n.target = self.visit(n.target)
        n.value = v
        return n

    def visit_Delete(self, n):
        return self.generic_visit(n)

    # loops
    def _loop_frame(self, stmts, extra=()):
        names = names_assigned(stmts)
        names = [x for x in dict.fromkeys(list(extra) + names)]
        return names

    def _decl(self, names):
        """nonlocal / global declarations for the names assigned inside a loop body"""
        if not names:
            return []
        if not self.fn:
            return [ast.Global(names)]
        fr = self.fn[-1]
        g = [x for x in names if x in fr["globals"]]
        l = [x for x in names if x not in fr["globals"]]
        for x in l:
            fr["hoist"].add(x)
        out = []
        if g:
            out.append(ast.Global(g))
        if l:
            out.append(ast.Nonlocal(l))
        return out

    def _state(self, names):
        """definitions of get() and set() for the loop state"""
        gn, sn = self.uid("get"), self.uid("set")
        if not self.fn:
            # module level: globals may be unbound
            get = ast.FunctionDef(gn, _noargs(), [ast.Return(_call("gget", ast.Call(ast.Name("globals", ast.Load()), [], []), _const(tuple(names))))], [], None)
            st = ast.FunctionDef(sn, _args(["__v"]), [ast.Expr(_call("gset", ast.Call(ast.Name("globals", ast.Load()), [], []), _const(tuple(names)), ast.Name("__v", ast.Load())))], [], None)
        else:
            get = ast.FunctionDef(gn, _noargs(), [ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in names], ast.Load()))], [], None)
            body = self._decl(names)
            if names:
                body = body + [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], ast.Name("__v", ast.Load()))]
            else:
                body = [ast.Pass()]
            st = ast.FunctionDef(sn, _args(["__v"]), body, [], None)
        return gn, sn, [get, st]

    def _after(self, sig, orelse):
        out = []
        isret = ast.Compare(ast.Subscript(ast.Name(sig, ast.Load()), _const(0), ast.Load()), [ast.Eq()], [_const("return")])
        if self.fn:
            r = ast.Return(ast.Name(sig, ast.Load())) if self.inloop else ast.Return(ast.Subscript(ast.Name(sig, ast.Load()), _const(1), ast.Load()))
            out.append(ast.If(ast.BoolOp(ast.And(), [ast.Compare(ast.Name(sig, ast.Load()), [ast.IsNot()], [_const(None)]), isret]), [r], []))
        if orelse:
            out.append(ast.If(ast.Compare(ast.Name(sig, ast.Load()), [ast.Is()], [_const(None)]), self.block(orelse), []))
        return out

    def visit_For(self, n):
        it = self.visit(n.iter)
        names = self._loop_frame(n.body, names_assigned([ast.Assign([n.target], _const(0))]))
        bn, sig = self.uid("body"), self.uid("sig")
        decl = self._decl(names)
        self.inloop += 1
        tgt = self._as_list(self.visit_Assign(ast.Assign([n.target], ast.Name("__x", ast.Load()))))
        body = self.block(n.body)
        self.inloop -= 1
        gn, sn, st = self._state(names)
        f = ast.FunctionDef(bn, _args(["__x"]), decl + tgt + body, [], None)
        self._fresh_locals(f, names)
        call = ast.Assign([ast.Name(sig, ast.Store())], _call("for_loop", it, *[ast.Name(x, ast.Load()) for x in (bn, gn, sn)], _const(tuple(names)), _const(n.lineno)))
        return [f, *st, call, *self._after(sig, n.orelse)]

    def visit_While(self, n):
        names = self._loop_frame(n.body + [ast.Expr(n.test)])
        bn, cn, sig = self.uid("body"), self.uid("cond"), self.uid("sig")
        decl = self._decl(names)
        test = self.visit(n.test)
        self.inloop += 1
        body = self.block(n.body)
        self.inloop -= 1
        gn, sn, st = self._state(names)
        f = ast.FunctionDef(bn, _noargs(), decl + body, [], None)
        self._fresh_locals(f, names)
        c = ast.FunctionDef(cn, _noargs(), [ast.Return(test)], [], None)
        call = ast.Assign([ast.Name(sig, ast.Store())], _call("while_loop", *[ast.Name(x, ast.Load()) for x in (cn, bn, gn, sn)], _const(tuple(names)), _const(n.lineno)))
        return [f, c, *st, call, *self._after(sig, n.orelse)]

    def _fresh_locals(self, f, names):
        pass

    def visit_Break(self, n):
        return ast.Return(ast.Tuple([_const("break"), _const(None)], ast.Load())) if self.inloop else n

    def visit_Continue(self, n):
        return ast.Return(_const(None)) if self.inloop else n

    def visit_Return(self, n):
        v = self.visit(n.value) if n.value is not None else _const(None)
        if self.fn and self.fn[-1]["yields"]:
            v = ast.Name("__gen", ast.Load())
        if self.inloop:
            return ast.Return(ast.Tuple([_const("return"), v], ast.Load()))
        return ast.Return(v)

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            h.body = self.block(h.body)
            if h.type is not None:
                h.type = self.visit(h.type)
        n.orelse = self.block(n.orelse) if n.orelse else []
        n.finalbody = self.block(n.finalbody) if n.finalbody else []
        return n

    # ---------------------------------------------------------------- expressions
    def _pattern(self, t):
        """(flat names, nested pattern)"""
        names = []

        def rec(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return None
            return tuple(rec(e) for e in t.elts)
        p = rec(t)
        return names, p

    def _comp(self, kind, gens, elt):
        g = gens[0]
        names, pat = self._pattern(g.target)
        it = self.visit(g.iter)

        def lam(body):
            return ast.Lambda(_args(names), body)
        conds = [lam(self.visit(c)) for c in g.ifs]
        if len(gens) == 1:
            inner = lam(self.visit(elt) if not isinstance(elt, tuple) else ast.Tuple([self.visit(elt[0]), self.visit(elt[1])], ast.Load()))
            return _call("comp", _const(kind), it, _const(pat), inner, ast.List(conds, ast.Load()), _const(False))
        inner = lam(self._comp("list", gens[1:], elt))
        return _call("comp", _const(kind), it, _const(pat), inner, ast.List(conds, ast.Load()), _const(True))

    def visit_ListComp(self, n):
        return self._comp("list", n.generators, n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp("gen", n.generators, n.elt)

    def visit_SetComp(self, n):
        return self._comp("set", n.generators, n.elt)

    def visit_DictComp(self, n):
        return self._comp("dict", n.generators, (n.key, n.value))

    def _parts(self, elts):
        return ast.List([ast.Tuple([_const("*"), self.visit(e.value)], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([_const("."), self.visit(e)], ast.Load()) for e in elts], ast.Load())

    def visit_List(self, n):
        if isinstance(n.ctx, ast.Store):
            return self.generic_visit(n)
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return _call("display", _const("list"), self._parts(n.elts))
        return _call("mklist", ast.Tuple([self.visit(e) for e in n.elts], ast.Load()))

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return _call("display", _const("tuple"), self._parts(n.elts))
        return self.generic_visit(n)

    def visit_Set(self, n):
        return _call("mkset", ast.Tuple([self.visit(e) for e in n.elts], ast.Load()))

    def visit_Dict(self, n):
        if any(k is None for k in n.keys):
            items = ast.List([ast.Tuple([_const("**"), self.visit(v)], ast.Load()) if k is None else ast.Tuple([self.visit(k), self.visit(v)], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())
            return _call("mkdict_star", items)
        return _call("mkdict", ast.List([ast.Tuple([self.visit(k), self.visit(v)], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            if len(n.ops) == 1:
                r = _call("contains", n.comparators[0], n.left)
                return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
            raise NotImplementedError("chained membership")
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return n
        n.func = self.visit(n.func)
        kw = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        if any(isinstance(a, ast.Starred) for a in n.args):
            return ast.Call(_vc("star_call"), [n.func, self._parts(n.args)], kw)
        n.args = [self.visit(a) for a in n.args]
        n.keywords = kw
        return n


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = X().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec"), tree
