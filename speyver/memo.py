"""Values that functions remember between calls: what they were computed from must be part of what they are found by."""
import ast

LOSSY = {"round", "int", "len", "bool", "id", "type", "sum", "min", "max", "abs", "any", "all", "floor", "ceil", "around", "rint", "mean", "median", "std", "shape", "size", "ndim", "prod", "norm", "sign", "trunc", "fix"}
LOSSY_ATTR = {"shape", "size", "dtype", "ndim"}
INIT = {"__init__", "__post_init__", "__new__", "__setstate__", "__enter__", "__exit__", "__set_name__"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def own(node):
    """nodes of a function outside the functions defined in it"""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, FUNCS + (ast.ClassDef,)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def root(x):
    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
        x = x.func if isinstance(x, ast.Call) else x.value
    return x.id if isinstance(x, ast.Name) else None


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


def defs(fn):
    """local name -> expressions it is computed from"""
    out = {}

    def put(t, v):
        for e in targets(t):
            if isinstance(e, ast.Name):
                out.setdefault(e.id, []).append(v)

    for x in own(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(t.elts) == len(x.value.elts):
                    for a, b in zip(t.elts, x.value.elts):
                        put(a, b)
                else:
                    put(t, x.value)
        elif isinstance(x, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None:
            put(x.target, x.value)
        elif isinstance(x, (ast.For, ast.AsyncFor)):
            put(x.target, x.iter)
        elif isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                if i.optional_vars is not None:
                    put(i.optional_vars, i.context_expr)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.setdefault(x.name, []).append(x)
    return out


def free(node):
    """names read by an expression or function, without the names it binds itself"""
    if isinstance(node, FUNCS):
        bound = set(params(node))
        body = node.body if isinstance(node.body, list) else [node.body]
        names = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name):
                    (bound if isinstance(x.ctx, ast.Store) else names).add(x.id)
                elif isinstance(x, ast.arg):
                    bound.add(x.arg)
                elif isinstance(x, ast.FunctionDef):
                    bound.add(x.name)
        return names - bound
    bound = {e.id for x in ast.walk(node) if isinstance(x, ast.comprehension) for e in targets(x.target) if isinstance(e, ast.Name)}
    bound |= {a.arg for x in ast.walk(node) if isinstance(x, ast.Lambda) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound


def closure(names, table, stop):
    """what the names are computed from, through local definitions, down to the names in stop"""
    seen, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in stop and n not in table:
            continue
        for v in table.get(n, ()):
            todo += free(v)
    return seen & set(stop)


def lossless(node, name, table, seen=()):
    """the name enters the expression at least once without a step that merges different values"""
    if isinstance(node, FUNCS):
        return name in free(node)
    if isinstance(node, ast.Name):
        if node.id == name:
            return True
        if node.id in seen:
            return False
        return any(lossless(v, name, table, seen + (node.id,)) for v in table.get(node.id, ()))
    if isinstance(node, ast.Call):
        f = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id if isinstance(node.func, ast.Name) else ""
        if f in LOSSY:
            return False
    if isinstance(node, ast.Attribute) and node.attr in LOSSY_ATTR:
        return False
    if isinstance(node, ast.Compare):
        return False
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.FloorDiv, ast.Mod)):
        return False
    if isinstance(node, ast.FormattedValue) and node.format_spec is not None and any(isinstance(x, ast.Constant) and "." in str(x.value) for x in ast.walk(node.format_spec)):
        return False
    return any(lossless(c, name, table, seen) for c in ast.iter_child_nodes(node) if isinstance(c, (ast.expr, ast.keyword, ast.comprehension)))


def norm(x):
    return ast.unparse(x)


def mentions(test, text, table):
    """the test looks at the remembered place (directly or through a local name)"""
    for x in ast.walk(test):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and norm(x) == text:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and f"{norm(x.args[0])}.{x.args[1].value}" == text:
            return True
    names = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
    for n in names:
        for v in table.get(n, ()):
            if not isinstance(v, FUNCS) and v is not test and mentions(v, text, {}):
                return True
    return False


def pinned(test, positive):
    """names that a test, known to be true (or false), fixes to one value"""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if positive else ast.Or):
        return set().union(*[pinned(v, positive) for v in test.values])
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return pinned(test.operand, not positive)
    if isinstance(test, ast.Name):
        return set() if positive else {test.id}
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
        ne = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
        if (eq and positive) or (ne and not positive):
            return {x.id for x in (test.left, test.comparators[0]) if isinstance(x, ast.Name)}
    return set()


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue))


def chains(tree):
    """(function, enclosing functions outermost first, class) for every function"""
    def walk(node, outer, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                yield from walk(c, outer, c)
            elif isinstance(c, FUNCS):
                yield c, outer, cls
                yield from walk(c, outer + [c], cls)
            else:
                yield from walk(c, outer, cls)
    yield from walk(tree, [], None)


def locals_of(fn):
    g = {n for x in own(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    return (set(params(fn)) | {x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in own(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}) - g


def parents(fn):
    up = {}
    for x in ast.walk(fn):
        for c in ast.iter_child_nodes(x):
            up[c] = x
    return up


def stores(fn):
    """(statement, place text, base expression, key expression or None, value) for every store a later call could see"""
    for x in own(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for e in targets(t):
                    if isinstance(e, ast.Subscript):
                        yield x, norm(e.value), e.value, e.slice, x.value
                    elif isinstance(e, (ast.Attribute, ast.Name)):
                        yield x, norm(e), e, None, x.value
        elif isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, (ast.Attribute, ast.Name)):
            yield x, norm(x.target), x.target, None, x.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "setdefault" and len(x.args) == 2:
            yield x, norm(x.func.value), x.func.value, x.args[0], x.args[1]
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3 and isinstance(x.args[1], ast.Constant):
            yield x, f"{norm(x.args[0])}.{x.args[1].value}", x.args[0], None, x.args[2]


def sites(tree, globals_):
    """remembered values: (function, statement, place, missing inputs, key text)"""
    for fn, outer, cls in chains(tree):
        if isinstance(fn, ast.Lambda):
            continue
        if cls is not None and not outer and fn.name in INIT:
            continue
        mine = locals_of(fn)
        up = None
        for stmt, place, base, key, value in stores(fn):
            r = root(base)
            if r is None:
                continue
            plain = isinstance(base, ast.Name) and key is None
            method = next((g for g in outer + [fn] if cls is not None and params(g)[:1] and params(g)[0] in ("self", "cls")), None)
            self_name = params(method)[0] if method is not None else None
            fns = outer + [fn]
            if r == self_name and r is not None and not plain:
                inner = [g for g in fns[fns.index(method):] if getattr(g, "name", "") not in INIT or g is not method]
                stop = {p for g in inner for p in params(g)} - {self_name}
                between = inner
            elif r in mine:
                continue
            else:
                own_i = next((i for i in range(len(outer) - 1, -1, -1) if r in locals_of(outer[i])), None)
                if own_i is None and r not in globals_:
                    continue
                if own_i is not None and r in params(outer[own_i]):
                    continue
                between = fns[(own_i + 1 if own_i is not None else 0):]
                stop = {p for g in between for p in params(g)}
                if own_i is None and cls is None:
                    pass
            table = {}
            for g in between:
                for n, v in defs(g).items():
                    table.setdefault(n, []).extend(v)
            # is it remembered: stored only where nothing is stored yet?
            up = up or parents(fn)
            covered, memo = set(), False
            x = stmt
            while x is not fn:
                p = up.get(x)
                if p is None:
                    break
                if isinstance(p, ast.If) and x is not p.test:
                    pos = any(x is s for s in p.body)
                    covered |= pinned(p.test, pos)
                    if mentions(p.test, place, table):
                        memo = True
                        covered |= {
                            n for c in ast.walk(p.test) if isinstance(c, ast.Compare) and not (key is not None and any(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops))
                            for n in stop if any(lossless(z, n, table) for z in [c.left] + c.comparators)
                        }
                if isinstance(p, ast.ExceptHandler) and p.type is not None and ("KeyError" in norm(p.type) or "AttributeError" in norm(p.type) or "LookupError" in norm(p.type)):
                    t = up.get(p)
                    if isinstance(t, ast.Try) and any(mentions(b, place, table) for b in t.body):
                        memo = True
                for field in ("body", "orelse", "finalbody"):
                    blk = getattr(p, field, None)
                    if isinstance(blk, list) and any(x is s for s in blk):
                        for s in blk[: [s is x for s in blk].index(True)]:
                            if isinstance(s, ast.If) and leaves(s.body) and not s.orelse:
                                covered |= pinned(s.test, False)
                                if mentions(s.test, place, table) and any(isinstance(y, ast.Return) for y in ast.walk(s)):
                                    memo = True
                            elif isinstance(s, ast.Try) and any(isinstance(y, ast.Return) and y.value is not None and mentions(y, place, table) for b in s.body for y in ast.walk(b)):
                                memo = True
                x = p
            if isinstance(stmt, ast.Call) and getattr(stmt.func, "attr", "") == "setdefault":
                memo = True
            if not memo:
                continue
            if isinstance(value, ast.Constant) or (isinstance(value, (ast.Dict, ast.List, ast.Set)) and not list(ast.iter_child_nodes(value))[1:]) or (isinstance(value, ast.Call) and not value.args and not value.keywords and isinstance(value.func, ast.Name)):
                continue
            need = closure(free(value), table, stop)
            missing = []
            for n in sorted(need):
                if n in covered or n == root(base):
                    continue
                if key is not None and lossless(key, n, table):
                    continue
                if key is not None and n in closure(free(key), table, stop) and not lossless(value, n, table):
                    continue
                missing.append(n)
            yield fn, stmt, place, missing, key


class _First(ast.NodeTransformer):
    """the function as its first call sees it: nothing is remembered yet at the given places"""

    def __init__(self, places):
        self.places = places

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and norm(n.comparators[0]) in self.places:
            return ast.copy_location(ast.Constant(isinstance(n.ops[0], ast.NotIn)), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and norm(n.func.value) in self.places and not n.keywords:
            if n.func.attr == "get" and n.args:
                return n.args[1] if len(n.args) > 1 else ast.copy_location(ast.Constant(None), n)
            if n.func.attr == "setdefault" and len(n.args) == 2:
                return n.args[1]
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.handlers) == 1 and not n.orelse and not n.finalbody and n.handlers[0].type is not None and norm(n.handlers[0].type) == "KeyError":
            b = n.body[0]
            v = b.value if isinstance(b, (ast.Return, ast.Assign, ast.Expr)) else None
            if isinstance(v, ast.Subscript) and norm(v.value) in self.places:
                return n.handlers[0].body
        return n


def fold(tree):
    """Records where the module remembers values, and reduces tables whose keys tell all their inputs apart to the computation itself."""
    g = {x.id for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    found = list(sites(tree, g))
    safe = {}
    unsafe = {(id(fn), place) for fn, _, place, missing, _ in found if missing}
    for fn, stmt, place, missing, key in found:
        if not missing and key is not None and (id(fn), place) not in unsafe:
            safe.setdefault(id(fn), (fn, set(), []))[1].add(place)
            safe[id(fn)][2].append(stmt)
    nodes = set()
    for fn, places, stmts in safe.values():
        for s in stmts:
            nodes |= {id(x) for x in ast.walk(s)}
    for fn, places, stmts in safe.values():
        t = _First(places)
        fn.body = [y for s in fn.body for y in (lambda r: r if isinstance(r, list) else [r])(t.visit(s))]
        ast.fix_missing_locations(fn)
    return found, nodes
