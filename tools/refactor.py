"""Behaviour-preserving rewrites of one function, one site at a time, for the false-alarm self-test."""
import ast, copy
from mutate import find, is_log


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def locals_of(fn):
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    if fn.args.vararg:
        out.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.FunctionDef) and n is not fn:
            out.add(n.name)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def blocks(fn):
    for n in ast.walk(fn):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b


def has_doc(b, n):
    return isinstance(n, ast.FunctionDef) and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant)


def stored_in_lambda(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return out


def P(s):
    return ast.parse(s).body


def rewrites(text, qual):
    base = ast.parse(text)
    for q, fn0 in find(base, qual):
        def fresh():
            t = copy.deepcopy(base)
            for n, f in find(t, qual):
                if n == q and f.lineno == fn0.lineno:
                    return t, f
        nblocks = len(list(blocks(fn0)))

        def emit(desc, t):
            ast.fix_missing_locations(t)
            s = ast.unparse(t)
            try:
                compile(s, "r", "exec")
            except Exception as e:
                return None
            return (f"{q} {desc}", s)

        # 1 no-op statements
        for stmt in ("pass", "_noop = None", "0", "assert True", "if False:\n    raise RuntimeError('never')", "del_me = 1\ndel del_me"):
            t, f = fresh()
            k = 1 if has_doc(f.body, f) else 0
            f.body[k:k] = P(stmt)
            yield emit(f"noop {stmt!r}", t)
        # no-op at every block
        for bi in range(nblocks):
            t, f = fresh()
            n, field, b = list(blocks(f))[bi]
            k = 1 if has_doc(b, n) else 0
            b[k:k] = P("_noop = None")
            yield emit(f"noop in block {bi}", t)
        # 2 rename locals (not parameters, not nested function names used as kwargs)
        t, f = fresh()
        params = {a.arg for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs + ([x.args.vararg] if x.args.vararg else []) + ([x.args.kwarg] if x.args.kwarg else [])}
        ren = {n for n in locals_of(f) if n not in params and not any(isinstance(x, (ast.Global, ast.Nonlocal)) and n in x.names for x in ast.walk(f))}
        exc = {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}
        fd = {x.name for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f}
        ren -= exc
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = "rn_" + x.id
            if isinstance(x, ast.FunctionDef) and x is not f and x.name in ren:
                x.name = "rn_" + x.name
        yield emit("rename locals", t)
        # 3 statement-level rewrites at each site
        sites = []
        for bi, (n, field, b) in enumerate(blocks(fn0)):
            for k, s in enumerate(b):
                sites.append((bi, k, s))
        for bi, k, s0 in sites:
            def at():
                t, f = fresh()
                n, field, b = list(blocks(f))[bi]
                return t, f, b
            L = f"L{s0.lineno}"
            if isinstance(s0, ast.Return) and s0.value is not None and not isinstance(s0.value, ast.Name):
                t, f, b = at()
                v = b[k].value
                b[k:k + 1] = [ast.Assign([ast.Name("tmp_ret", ast.Store())], v), ast.Return(ast.Name("tmp_ret", ast.Load()))]
                yield emit(f"{L} return via temp", t)
            if isinstance(s0, (ast.Return, ast.Assign)) and isinstance(s0.value, ast.IfExp):
                t, f, b = at()
                s = b[k]
                a1, a2 = copy.deepcopy(s), copy.deepcopy(s)
                a1.value, a2.value = s.value.body, s.value.orelse
                b[k:k + 1] = [ast.If(s.value.test, [a1], [a2])]
                yield emit(f"{L} ternary->if", t)
            if isinstance(s0, (ast.Return, ast.Assign)) and isinstance(s0.value, ast.ListComp) and len(s0.value.generators) == 1:
                t, f, b = at()
                s = b[k]
                g = s.value.generators[0]
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_", ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                s2 = copy.deepcopy(s)
                s2.value = ast.Name("acc_", ast.Load())
                b[k:k + 1] = P("acc_ = []") + [ast.For(g.target, g.iter, inner, []), s2]
                yield emit(f"{L} comp->loop", t)
            if isinstance(s0, ast.If):
                t, f, b = at()
                s = b[k]
                if s.orelse:
                    s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
                else:
                    s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), [ast.Pass()], s.body
                yield emit(f"{L} if inverted", t)
                t, f, b = at()
                s = b[k]
                b[k:k + 1] = [ast.Assign([ast.Name("cond_", ast.Store())], s.test), s]
                s.test = ast.Name("cond_", ast.Load())
                yield emit(f"{L} cond via temp", t)
                if isinstance(s0.body[-1], (ast.Return, ast.Raise, ast.Continue)) and not s0.orelse and k + 1 < len(fn_block(fn0, bi)):
                    t, f, b = at()
                    s = b[k]
                    s.orelse = b[k + 1:]
                    del b[k + 1:]
                    yield emit(f"{L} tail into else", t)
                if isinstance(s0.body[-1], (ast.Return, ast.Raise)) and s0.orelse:
                    t, f, b = at()
                    s = b[k]
                    b[k + 1:k + 1] = s.orelse
                    s.orelse = []
                    yield emit(f"{L} else hoisted", t)
                if isinstance(s0.test, ast.BoolOp) and isinstance(s0.test.op, ast.And) and not s0.orelse:
                    t, f, b = at()
                    s = b[k]
                    body = s.body
                    for v in reversed(s.test.values):
                        body = [ast.If(v, body, [])]
                    b[k:k + 1] = body
                    yield emit(f"{L} and->nested", t)
                if isinstance(s0.test, ast.BoolOp):
                    t, f, b = at()
                    s = b[k]
                    o = s.test
                    s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(o.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in o.values]))
                    yield emit(f"{L} de morgan", t)
            if isinstance(s0, ast.For) and isinstance(s0.iter, (ast.Name, ast.Attribute, ast.Call)) and not s0.orelse:
                t, f, b = at()
                s = b[k]
                s.target = ast.Tuple([ast.Name("_i", ast.Store()), s.target], ast.Store())
                s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
                yield emit(f"{L} for enumerate", t)
                if not any(isinstance(x, (ast.Continue,)) for x in ast.walk(s0)):
                    t, f, b = at()
                    s = b[k]
                    w = P("seq_ = list(X)\nidx_ = 0\nwhile idx_ < len(seq_):\n    Y = seq_[idx_]\n    idx_ += 1")
                    w[0].value.args[0] = s.iter
                    w[2].body[0].targets[0] = s.target
                    w[2].body += s.body
                    b[k:k + 1] = w
                    yield emit(f"{L} for->while", t)
            if isinstance(s0, ast.AugAssign) and isinstance(s0.target, ast.Name):
                t, f, b = at()
                s = b[k]
                b[k] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
                yield emit(f"{L} augassign", t)
            if isinstance(s0, ast.Assign) and k + 1 < len(fn_block(fn0, bi)):
                s1 = fn_block(fn0, bi)[k + 1]
                if isinstance(s1, ast.Assign) and all(isinstance(x, ast.Name) for x in s0.targets + s1.targets):
                    pure = not any(isinstance(x, ast.Call) for z in (s0, s1) for x in ast.walk(z)) or sum(any(isinstance(x, ast.Call) for x in ast.walk(z)) for z in (s0, s1)) < 2
                    d0, d1 = names_in(s0, ast.Store), names_in(s1, ast.Store)
                    if pure and not (d0 & (names_in(s1))) and not (d1 & names_in(s0)):
                        t, f, b = at()
                        b[k], b[k + 1] = b[k + 1], b[k]
                        yield emit(f"{L} swap assigns", t)
            # extract a value into a helper function
            if isinstance(s0, (ast.Assign, ast.Return)) and s0.value is not None and not isinstance(s0.value, (ast.Name, ast.Constant)):
                bad = any(isinstance(x, (ast.Lambda, ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(s0.value)) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(s0.value))
                if not bad:
                    scope = locals_of(fn0)
                    t, f, b = at()
                    s = b[k]
                    bound = {x.id for z in ast.walk(s.value) if isinstance(z, ast.comprehension) for x in ast.walk(z.target) if isinstance(x, ast.Name)}
                    free = sorted((names_in(s.value, ast.Load) & scope) - bound)
                    nested = {a.arg for x in ast.walk(f) if isinstance(x, ast.FunctionDef) and x is not f for a in x.args.args + [y for y in (x.args.vararg, x.args.kwarg) if y]}
                    free = sorted(set(free) | ((names_in(s.value, ast.Load) & nested) - bound))
                    h = ast.FunctionDef("_helper_x", ast.arguments([], [ast.arg(a) for a in free], None, [], [], None, []), [ast.Return(s.value)], [])
                    s.value = ast.Call(ast.Name("_helper_x", ast.Load()), [ast.Name(a, ast.Load()) for a in free], [])
                    i = max(j for j, x in enumerate(t.body) if isinstance(x, (ast.Import, ast.ImportFrom))) + 1
                    t.body.insert(i, h)
                    yield emit(f"{L} value into helper", t)
        # hoist call arguments; swap keyword order; comparison flips
        nodes0 = list(ast.walk(fn0))
        for i, n in enumerate(nodes0):
            L = f"L{getattr(n, 'lineno', 0)}"
            if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(kw.arg for kw in n.keywords):
                t, f = fresh()
                m = list(ast.walk(f))[i]
                m.keywords.reverse()
                yield emit(f"{L} kw order", t)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}.get(type(n.ops[0]))
                if sw:
                    t, f = fresh()
                    m = list(ast.walk(f))[i]
                    m.left, m.comparators[0] = m.comparators[0], m.left
                    m.ops[0] = sw()
                    yield emit(f"{L} flip cmp", t)
                neg = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}.get(type(n.ops[0]))
                if neg:
                    t, f = fresh()
                    tgt = list(ast.walk(f))[i]

                    class R(ast.NodeTransformer):
                        def visit_Compare(self, node):
                            self.generic_visit(node)
                            if node is tgt:
                                node.ops[0] = neg()
                                return ast.UnaryOp(ast.Not(), node)
                            return node
                    R().visit(f)
                    yield emit(f"{L} not-form", t)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not isinstance(n.left, (ast.List, ast.Constant)) and not isinstance(n.right, ast.List):
                t, f = fresh()
                m = list(ast.walk(f))[i]
                m.left, m.right = m.right, m.left
                yield emit(f"{L} commute *", t)
            if isinstance(n, ast.IfExp):
                t, f = fresh()
                m = list(ast.walk(f))[i]
                m.test, m.body, m.orelse = ast.UnaryOp(ast.Not(), m.test), m.orelse, m.body
                yield emit(f"{L} ifexp inverted", t)
            if isinstance(n, ast.Lambda):
                pass
        # body into an implementation helper
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(fn0)) and not fn0.decorator_list:
            t, f = fresh()
            a = f.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            call = ast.Call(ast.Name("_impl_x", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
            if a.vararg:
                call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
            if a.kwarg:
                call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
            na = copy.deepcopy(a)
            na.defaults = []
            na.kw_defaults = [None] * len(na.kwonlyargs)
            h = ast.FunctionDef("_impl_x", na, f.body, [])
            f.body = [ast.Return(call)]
            i = max(j for j, x in enumerate(t.body) if isinstance(x, (ast.Import, ast.ImportFrom))) + 1
            t.body.insert(i, h)
            yield emit("body into helper", t)


def fn_block(fn, bi):
    return list(blocks(fn))[bi][2]
