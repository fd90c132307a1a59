"""Gated value-flow abstract interpreter over the Python AST.

For one function it computes, without running anything, the value number of every
returned value / call argument as an interned Term, joining control flow with
conditional terms, summarising loops as maps / sums / folds, inlining helpers, and
recording every call and mutation with the condition under which it happens.
"""
import ast
import copy
import time

from . import terms as T
from .project import Func, Class, dotted_name, canon_ext, AnalysisBroken
from .terms import (
    raw, num, const, sym, TRUE, FALSE, NONE, ZERO, ONE, add, mul, neg, subtract, power, div, ite, and_, or_, not_,
    truth, lt, le, lt0, eq, is_, isin, extremum, abs_, seqcat, star, mklist, fstr, mkdict, kv, dstar, dictget, dminus,
    sub, fresh, mklam, apply_lam, subst, mksum, syms, is_const, isbool, is_seq, cannot_have,
)

MAXDEPTH = 24
PEEL = 2  # first loop iterations compared one by one (the thorough tier sets more)

# numpy / builtins with a canonical algebraic meaning
UN = {
    "numpy.sqrt": lambda x: power(x, num(0.5)),
    "math.sqrt": lambda x: power(x, num(0.5)),
    "numpy.square": lambda x: power(x, num(2)),
    "numpy.negative": neg,
    "numpy.abs": abs_, "numpy.absolute": abs_, "numpy.fabs": abs_, "abs": abs_, "math.fabs": abs_,
    "numpy.reciprocal": lambda x: power(x, num(-1)),
    "numpy.logical_not": lambda x: not_(truth(x)),
    "numpy.transpose": lambda x: raw("T", x),
}
BIN = {
    "numpy.true_divide": div, "numpy.divide": div, "numpy.multiply": mul, "numpy.add": add, "numpy.subtract": subtract,
    "numpy.power": power, "numpy.float_power": power, "pow": power, "math.pow": power,
    "numpy.maximum": lambda a, b: extremum("max", [a, b]), "numpy.fmax": lambda a, b: extremum("max", [a, b]),
    "numpy.minimum": lambda a, b: extremum("min", [a, b]), "numpy.fmin": lambda a, b: extremum("min", [a, b]),
    "numpy.less": lt, "numpy.greater": lambda a, b: lt(b, a), "numpy.less_equal": le,
    "numpy.greater_equal": lambda a, b: le(b, a), "numpy.equal": eq,
    "numpy.logical_and": lambda a, b: and_(truth(a), truth(b)), "numpy.logical_or": lambda a, b: or_(truth(a), truth(b)),
    "operator.add": add, "operator.mul": mul, "operator.sub": subtract, "operator.truediv": div,
}
ALIAS = {
    "math.exp": "numpy.exp", "math.log": "numpy.log", "math.isnan": "numpy.isnan", "math.isinf": "numpy.isinf",
    "math.isfinite": "numpy.isfinite", "numpy.concatenate": "numpy.hstack", "numpy.amin": "numpy.min",
    "numpy.amax": "numpy.max", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil", "numpy.sign": "numpy.sign",
    "numpy.linalg.multi_dot": "numpy.linalg.multi_dot",
}
CONSTS = {
    "numpy.inf": T.INF, "math.inf": T.INF, "numpy.nan": T.NAN, "math.nan": T.NAN, "numpy.Inf": T.INF, "numpy.NaN": T.NAN,
}
EXTSIG = {
    "scipy.stats.chi2.isf": ["q", "df", "loc", "scale"], "scipy.stats.chi2.ppf": ["q", "df", "loc", "scale"],
    "scipy.stats.chi2.sf": ["x", "df", "loc", "scale"], "scipy.stats.chi2.cdf": ["x", "df", "loc", "scale"],
    "numpy.clip": ["a", "a_min", "a_max"], "numpy.isclose": ["a", "b"], "numpy.full": ["shape", "fill_value"],
    "scipy.stats.norm.cdf": ["x", "loc", "scale"], "scipy.stats.norm.logpdf": ["x", "loc", "scale"],
    "scipy.stats.norm.sf": ["x", "loc", "scale"], "scipy.stats.norm.ppf": ["q", "loc", "scale"],
    "scipy.stats.norm.isf": ["q", "loc", "scale"],
    "scipy.stats.norm.logcdf": ["x", "loc", "scale"],
    "scipy.optimize.toms748": ["f", "a", "b", "args", "k", "xtol", "rtol", "maxiter"],
    "scipy.optimize.brentq": ["f", "a", "b", "args", "xtol", "rtol", "maxiter"],
}
PURE_CONTAINER_METHODS = {"index", "count", "split", "join", "format", "startswith", "endswith", "strip", "lower", "upper"}
LOGNAMES = ("log", "logger", "logging", "warnings")
BUILTINS = set(
    "abs all any bool callable dict enumerate filter float getattr hasattr int isinstance issubclass iter len list map max min next print range repr reversed round set setattr sorted str sum super tuple type vars zip id hash object open format frozenset bytes complex divmod pow slice delattr input"
    .split()
)
EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
    "TypeError": "Exception", "AssertionError": "Exception", "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "AttributeError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "StopIteration": "Exception", "OSError": "Exception", "Exception": "BaseException", "NameError": "Exception",
    "LinAlgError": "ValueError", "FileNotFoundError": "OSError", "KeyboardInterrupt": "BaseException",
}


class FV:
    """A function value: definition + captured frame."""

    def __init__(self, node, func, frame, env, defaults):
        self.node = node
        self.func = func
        self.frame = frame
        self.env = env
        self.defaults = defaults


class State:
    __slots__ = ("env", "heap", "path")

    def __init__(self, env, heap, path):
        self.env = env
        self.heap = heap
        self.path = path

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.path)


class Frame:
    def __init__(self, func, module, cls=None, parent=None, selfname=None):
        self.func = func
        self.module = module
        self.cls = cls
        self.parent = parent
        self.exits = []
        self.cur = None
        self.selfname = selfname
        self.globals = set()
        self.nonlocals = set()


PUREMATH = {"numpy." + k for k in "log sqrt exp log2 log10 log1p expm1 abs float64 square power".split()}


class Event:
    __slots__ = ("kind", "fn", "term", "node", "guard", "where", "extra", "inlam", "loops", "ctx")

    def __init__(self, kind, fn, term, node, guard, where, extra, inlam, loops, ctx):
        self.kind, self.fn, self.term, self.node, self.guard, self.where = kind, fn, term, node, guard, where
        self.extra, self.inlam, self.loops, self.ctx = extra, inlam, loops, ctx

    def loc(self):
        return f"{self.where}:{getattr(self.node, 'lineno', 0)}"


class Outcome:
    def __init__(self, ret, raises, state, events, frame):
        self.ret = ret  # Term (value on normal return)
        self.raises = raises  # [(guard, exc term, node)]
        self.state = state
        self.events = events
        self.frame = frame

    def value(self):
        """Return value with raise leaves."""
        r = self.ret
        for g, e, _ in self.raises:
            r = ite(g, e, r)
        return r


ITERATING = {"list", "tuple", "set", "sorted", "enumerate", "zip", "sum", "any", "all", "iter", "reversed", "map", "filter", "next", "frozenset"}
_gathered = {}


class Gather(ast.NodeTransformer):
    """A generator as the list of what it yields."""

    def __init__(self):
        self.n = 0
        self.bad = False

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)) and v.value is not None:
            self.n += 1
            f = ast.Attribute(ast.Name("gathered%", ast.Load()), "extend" if isinstance(v, ast.YieldFrom) else "append", ast.Load())
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(f, [v.value], [])), n))
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.bad = True
        return n

    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name("gathered%", ast.Load())), n))


def gathered(node):
    """Body of a generator function rewritten to return the list of its values; None for other functions."""
    if node in _gathered:
        return _gathered[node]
    r = None
    if isinstance(node, ast.FunctionDef) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
        g = Gather()
        body = [g.visit(copy.deepcopy(x)) for x in node.body]
        if g.n and not g.bad:
            first = ast.Assign([ast.Name("gathered%", ast.Store())], ast.List([], ast.Load()))
            last = ast.Return(ast.Name("gathered%", ast.Load()))
            r = [ast.fix_missing_locations(ast.copy_location(first, node.body[0]))] + body + [ast.fix_missing_locations(ast.copy_location(last, node.body[-1]))]
    _gathered[node] = r
    return r


class Engine:
    def __init__(self, project, inline=(), opaque=(), anchors=frozenset(), types=None):
        self.p = project
        if project is not None:
            T.METHODS = project.only_methods()
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.anchors = anchors
        self.fvs = {}
        self.events = []
        self.stack = []
        self.lamdepth = 0
        self.lates = []
        self.nref = 0
        self.types = {}  # Term -> Class
        self.dicts = set()  # Terms known to be dicts
        self.loops = []
        self.ctx = []
        self.constmemo = {}
        if types:
            self.types.update(types)
        self.steps = 0

    # ------------------------------------------------------------------ utils
    def unk(self, why=""):
        return raw("unk", fresh("u").args[0], why)

    def newref(self, st, content):
        self.nref += 1
        r = raw("ref", self.nref)
        st.heap[r] = content
        return r

    def content(self, st, t):
        """Top-level dereference."""
        if t.op == "ref":
            return self.content(st, st.heap[t]) if t in st.heap else raw("unk", f"ref{t.args[0]}", "dangling")
        if t.op == "ite":
            return ite(t.args[0], self.content(st, t.args[1]), self.content(st, t.args[2]))
        return t

    def snap(self, st, t, late=None):
        """Freeze a value: refs -> contents, function values -> closed lambdas."""
        if not self._hasref(t):
            return t
        m = {}
        for s in T.walk(t):
            if s.op == "ref":
                m[s] = None
            elif s.op == "fv":
                m[s] = None
        for s in list(m):
            if s.op == "ref":
                m[s] = self.snap(st, st.heap[s], late) if s in st.heap else self.unk("dangling")
            else:
                m[s] = self.close(s, st, late)
        return subst(t, m)

    def _hasref(self, t):
        if t._fv is None:
            t._fv = t.op in ("ref", "fv") or any(self._hasref(s) for s in T.subterms(t))
        return t._fv

    def close(self, fvt, st, late=None):
        fv = self.fvs[fvt.args[0]]
        key = ("close", fvt)
        if key in self.stack or len(self.stack) > MAXDEPTH:
            return raw("recfn", fv.func.name if fv.func else "?")
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(fv.defaults)
        params = []
        bind = {}
        for i, n in enumerate(names):
            if i >= len(names) - nd and isinstance(fv.node, ast.Lambda):
                bind[n] = fv.defaults[i - (len(names) - nd)]
            elif i >= len(names) - nd and n.startswith("_"):
                bind[n] = fv.defaults[i - (len(names) - nd)]
            else:
                p = fresh("p")
                params.append(p)
                bind[n] = p
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            p = fresh("p")
            params.append(p)
            bind[x.arg] = p
        if a.vararg:
            p = fresh("p")
            params.append(p)
            bind[a.vararg.arg] = p
        if a.kwarg:
            p = fresh("p")
            params.append(p)
            bind[a.kwarg.arg] = p
        self.stack.append(key)
        self.lamdepth += 1
        try:
            out = self.run_fv(fv, bind, st, late)
            body = self.snap(out.state, out.value()) if out.state is not None else out.value()
        finally:
            self.stack.pop()
            self.lamdepth -= 1
        if isinstance(fv.node, ast.Lambda) or fv.func is None or True:
            return mklam(params, body) if params else raw("lam", (), body)

    # ------------------------------------------------------------------ running functions
    def run_fv(self, fv, bind, st, late=None):
        if late is not None and late[2] is not fv.frame:
            p = fv.frame.parent
            while p is not None and p[0] is not late[2]:
                p = p[0].parent
            if p is not None:
                # a function made by a local factory: the late names are those of the outer frame
                late2, late = late, None
            else:
                late2 = late = None
        else:
            late2 = None
        if late2 is not None:
            self.lates.append(late2)
            try:
                return self._run_fv(fv, bind, st, late)
            finally:
                self.lates.pop()
        return self._run_fv(fv, bind, st, late)

    def _run_fv(self, fv, bind, st, late):
        fr = Frame(fv.func, fv.frame.module, fv.frame.cls, parent=(fv.frame, fv.env, late), selfname=fv.frame.selfname)
        s = State(dict(bind), dict(st.heap) if st else {}, TRUE)
        for a in fv.node.args.args + fv.node.args.kwonlyargs:
            if a.arg in bind:
                self.hint(bind[a.arg], a.annotation, fr.module)
        if isinstance(fv.node, ast.Lambda):
            fr.cur = s
            v = self.ev(fv.node.body, s, fr)
            return self.finish(fr, s, v)
        end = self.block(fv.node.body, s, fr)
        return self.finish(fr, end, NONE)

    def finish(self, fr, end, v):
        """Combine exits into one outcome; merge final heaps."""
        rets = []
        raises = []
        for ex in fr.exits:
            g, kind, t, st, node = ex
            if kind == "ret":
                rets.append((g, t, st))
            elif kind == "raise":
                raises.append((g, t, node))
        if end is not None:
            rets.append((end.path, v, end))
        if not rets:
            return Outcome(raw("bot"), raises, None, None, fr)
        g, t, st = rets[-1]
        cur = st.copy()
        res = t
        for g, t, s2 in reversed(rets[:-1]):
            res = ite(g, t, res)
            cur = self.merge(g, s2, cur)
        cur.path = TRUE
        for g, _, _ in raises:
            cur.path = and_(cur.path, not_(g))
        fr.cur = cur
        return Outcome(res, raises, cur, None, fr)

    def merge(self, c, a, b):
        """State after `if c: a else: b` (a/b fall-through)."""
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                env[k] = x
            else:
                env[k] = ite(c, x if x is not None else raw("undef", k), y if y is not None else raw("undef", k))
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is not y and isinstance(k, tuple) and k[0] == "alias":
                heap[k] = ite(c, x if x is not None else k[1], y if y is not None else k[1])
            elif x is y or y is None:
                heap[k] = x
            elif x is None:
                heap[k] = y
            else:
                heap[k] = ite(c, x, y)
        return State(env, heap, or_(a.path, b.path))

    def bind_params(self, func, names=None, selfterm=None):
        """Symbols for an entry function's parameters."""
        a = func.node.args
        env = {}
        allnames = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            n = x.arg
            if n in ("self", "cls") and func.cls is not None and n == allnames[0]:
                env[n] = selfterm or sym("self")
                continue
            env[n] = sym(n)
            self.hint(env[n], x.annotation, func.module)
        if a.vararg:
            env[a.vararg.arg] = sym("*" + a.vararg.arg)
        if a.kwarg:
            s = sym("**" + a.kwarg.arg)
            T._kw_excluded[s] = frozenset(allnames) | T._kw_excluded.get(s, frozenset())
            T._kw_excluded[s] = frozenset(allnames)
            self.dicts.add(s)
            env[a.kwarg.arg] = s
        return env

    def hint(self, t, ann, module):
        if ann is None or t.op in ("n", "c"):
            return
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return
        if isinstance(ann, ast.Subscript):
            d = dotted_name(ann.value)
            if d and d.split(".")[-1] in ("Dict", "dict", "Mapping"):
                self.dicts.add(t)
                return
            if d and d.split(".")[-1] == "Optional":
                if isinstance(ann.slice, ast.Subscript):
                    d2 = dotted_name(ann.slice.value)
                    if d2 and d2.split(".")[-1] in ("Dict", "dict"):
                        self.dicts.add(t)
                        return
                self.hint(t, ann.slice, module)
            return
        d = dotted_name(ann)
        if d in ("dict", "Dict"):
            self.dicts.add(t)
            return
        if d:
            r = self.p.resolve_in(module, d)
            if r and r[0] == "class":
                self.types.setdefault(t, r[1])

    def entry(self, func, selfcls=None, bind=None, fields=None):
        """Evaluate func with symbolic parameters."""
        selfterm = sym("self")
        cls = selfcls or func.cls
        if cls is not None:
            self.types[selfterm] = cls
        env = self.bind_params(func, selfterm=selfterm)
        if bind:
            env.update(bind)
        heap = {}
        if func.node.args.kwarg:
            # kwargs is a fresh dict owned by the callee
            n = func.node.args.kwarg.arg
            st0 = State({}, heap, TRUE)
            env[n] = self.newref(st0, env[n])
        if fields:
            for k, v in fields.items():
                heap[("f", selfterm, k)] = v
        fr = Frame(func, func.module, cls)
        st = State(env, heap, TRUE)
        self.events = []
        self.stack.append(func.qual)
        try:
            end = self.block((not func.decorators and gathered(func.node)) or func.node.body, st, fr)
        finally:
            self.stack.pop()
        out = self.finish(fr, end, NONE)
        if out.state is not None:
            out.ret = self.snap(out.state, out.ret)
        out.events = self.events
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            fr.cur = st
            st = self.stmt(s, st, fr)
        if st is not None:
            fr.cur = st
        return st

    def exit(self, fr, st, kind, t, node):
        fr.exits.append((st.path, kind, t, st, node))

    def stmt(self, s, st, fr):
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.env[n.id] = self.unk("stmt " + type(s).__name__)
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    s_Import = s_ImportFrom = s_Pass

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return self.alive(st)

    def alive(self, st):
        return None if st.path is FALSE else st

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        if st.path is FALSE:
            return None
        self.exit(fr, st, "ret", v, s)
        return None

    def exc_name(self, e, fr):
        if e is None:
            return "reraise"
        f = e.func if isinstance(e, ast.Call) else e
        d = dotted_name(f)
        return d.split(".")[-1] if d else "?"

    def s_Raise(self, s, st, fr):
        name = self.exc_name(s.exc, fr)
        if isinstance(s.exc, ast.Name) and s.exc.id in st.env:
            v = st.env[s.exc.id]
            if v.op == "exc":
                name = v.args[0]
            elif v.op == "call":
                name = T.show(v.args[0]).split(".")[-1]
        if name == "reraise":
            name = st.env.get("%exc", raw("exc", "?")).args[0]
        cause = None
        self.exit(fr, st, "raise", raw("raise", name), s)
        return None

    def s_Assert(self, s, st, fr):
        c = self.tested(self.ev(s.test, st, fr), st)
        if c is TRUE:
            return st
        bad = st.copy()
        bad.path = and_(st.path, not_(c))
        if bad.path is not FALSE:
            self.exit(fr, bad, "raise", raw("raise", "AssertionError"), s)
        st.path = and_(st.path, c)
        return self.alive(st)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return self.alive(st)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self.assign(s.target, v, st, fr)
            self.hint(v, s.annotation, fr.module)
        return self.alive(st)

    def s_AugAssign(self, s, st, fr):
        opn = type(s.op)
        cur = self.ev(self.load(s.target), st, fr)
        rhs = self.ev(s.value, st, fr)
        c = self.content(st, cur)
        r = self.content(st, rhs)
        v = self.binop(opn, c, r)
        if cur.op == "ref" and (c.op in ("list", "dict") or is_seq(c)):
            st.heap[cur] = v
            return self.alive(st)
        if cur.op not in ("n", "c", "poly", "ref"):
            self.event("mutate", "augassign", cur, s, st, fr)
        self.assign(s.target, v, st, fr)
        return self.alive(st)

    def load(self, t):
        import copy

        t2 = copy.copy(t)
        t2.ctx = ast.Load()
        return t2

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.event("global", t.id, self.snap(st, v), t, st, fr)
            if t.id in fr.nonlocals and fr.parent:
                self.event("nonlocal", t.id, self.snap(st, v), t, st, fr)
                f, env, _ = fr.parent
                if t.id in env:
                    env[t.id] = v
                if f.cur is not None and t.id in f.cur.env:
                    f.cur.env[t.id] = v
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(st, v)
            starred = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if starred:
                k = starred[0]
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(e, sub(c, num(i)), st, fr)
                    elif i == k:
                        self.assign(e.value, raw("slice", c, num(k), num(i + 1 - len(t.elts)) if i + 1 < len(t.elts) else NONE, NONE), st, fr)
                    else:
                        self.assign(e, sub(c, num(i - len(t.elts))), st, fr)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(c, num(i), st), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            u = self.updated(o, t.attr, self.snap(st, v)) if isinstance(t.value, ast.Name) else None
            if u is not None:
                st.env[t.value.id] = u
            elif isinstance(t.value, ast.Name) and any(x.op == "call" and x.args[0].op == "fn" and self.p.resolve(x.args[0].args[0])[0] == "class" for x in T.leaves(o)):
                # attribute of a constructed object replaced: its later behaviour is not modelled
                st.env[t.value.id] = self.unk("modified object")
            else:
                st.heap[("f", o, t.attr)] = v
            self.event("store", t.attr, self.snap(st, v), t, st, fr, extra=o)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.snap(st, self.ev_index(t.slice, st, fr))
            self.mutate(t.value, o, lambda c: self.setitem(c, i, self.snap(st, v)), st, fr, t, "setitem")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def updated(self, o, attr, v):
        """Constructor result with a plainly stored constructor argument replaced, or None."""
        if o.op == "undef":
            return o
        if o.op == "ite":
            a, b = self.updated(o.args[1], attr, v), self.updated(o.args[2], attr, v)
            return None if a is None or b is None else ite(o.args[0], a, b)
        if o.op != "call" or o.args[0].op != "fn" or attr not in dict(o.args[2]):
            return None
        c = self.typeof(o)
        if c is None or "__init__" not in c.methods:
            return None
        init = c.methods["__init__"].node
        selfn = init.args.args[0].arg
        uses = [n for n in ast.walk(init) if isinstance(n, ast.Name) and n.id == attr]
        plain = [n for n in init.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) and n.value.id == attr]
        if len(uses) != 1 or len(plain) != 1:
            return None
        tg = plain[0].targets[0] if isinstance(plain[0], ast.Assign) else plain[0].target
        if not (isinstance(tg, ast.Attribute) and tg.attr == attr and isinstance(tg.value, ast.Name) and tg.value.id == selfn):
            return None
        return raw("call", o.args[0], o.args[1], tuple((k, v if k == attr else x) for k, x in o.args[2]))

    def setitem(self, c, i, v):
        if c.op in ("dict", "dminus") or (c.op == "sym" and c in self.dicts) or (c in self.dicts):
            base = c if c.op == "dict" else raw("dict", dstar(c))
            if i.op == "c" or is_const(i):
                return mkdict(list(base.args) + [kv(i, v)])
            return mkdict(list(base.args) + [kv(i, v)])
        if c.op == "list" and i.op == "n":
            k = int(i.args[0])
            if 0 <= k < len(c.args) and all(x.op != "star" for x in c.args[: k + 1]):
                return raw("list", *(c.args[:k] + (v,) + c.args[k + 1:]))
        if i.op == "slc" and all(x is NONE for x in i.args):
            if v.op in ("list", "tuple"):
                return raw("list", *v.args)
            return raw("list", star(self.as_iter(v)))
        if c.op == "setitem" and c.args[1] is i:
            c = c.args[0]
        return raw("setitem", c, i, v)

    def mutate(self, node, o, f, st, fr, at, what):
        """In-place change of object o (expression node)."""
        if o.op == "ref":
            c = st.heap.get(o)
            if c is not None and c.op in ("sym", "attr", "sub", "call"):
                pass
            st.heap[o] = f(self.content(st, o))
            self.event("mutref", what, o, at, st, fr)
            return
        if o.op == "ite":
            for cond, x in ((o.args[0], o.args[1]), (not_(o.args[0]), o.args[2])):
                if x.op == "ref":
                    old = self.content(st, x)
                    st.heap[x] = ite(cond, f(old), old)
            if not any(x.op == "ref" for x in (o.args[1], o.args[2])):
                pass
            else:
                return
        # an object created here, reached through a copy of its container: which one it was is not known any more
        lost = {o} if o.op in ("list", "dict") else set()
        if o.op in ("sub", "dget") and o.args[0].op in ("list", "dict", "tuple"):
            lost = set(o.args[0].args) | {x.args[1] for x in o.args[0].args if x.op == "kv"}
        refs = [r for r in st.heap if lost and isinstance(r, T.Term) and r.op == "ref"]
        same = [r for r in refs if r in lost or self.snap(st, r) in lost]
        if not (same and all(st.heap[r].op in ("list", "dict") and not syms(st.heap[r]) for r in same)):
            held = {x for r in refs for x in T.walk(st.heap[r]) if x.op == "ref"}
            same = [r for r in refs if r in same or r in held]
        for r in same:
            st.heap[r] = self.unk("changed through an alias")
        # object not created here: mutation of something the caller / another object owns
        new = f(self.content(st, o))
        self.event("mutate", what, o, at, st, fr, extra=new)
        r = self.newref(st, new)
        if o.op != "ite" and not is_const(o):
            st.heap[("alias", o)] = r  # lets callers that hold the same object see the change
        # rebind the access path so later reads see the new contents
        if isinstance(node, ast.Name):
            for k, v in list(st.env.items()):
                if v is o:
                    st.env[k] = r
        elif isinstance(node, ast.Attribute):
            ob = self.ev(node.value, st, fr)
            st.heap[("f", ob, node.attr)] = r
        elif isinstance(node, ast.Subscript):
            pass

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                i = self.snap(st, self.ev_index(t.slice, st, fr))
                self.mutate(
                    t.value, o,
                    lambda c: dminus(c, [i]) if (is_const(i) and (c.op in ("dict", "dminus", "sym") or i.op == "c" and i.args[0] == "str")) else raw("delitem", c, i),
                    st, fr, t, "delitem",
                )
        return st

    def tested(self, v, st):
        """Truth of a value, its contents as they are now."""
        return truth(self.snap(st, v) if v.op in ("ref", "ite") else v)

    def s_If(self, s, st, fr):
        c = self.tested(self.ev(s.test, st, fr), st)
        if st.path is FALSE:
            return None
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        a, b = st, st.copy()
        a = a.copy()
        p = st.path
        a.path, b.path = and_(p, c), and_(p, not_(c))
        # path-decided branches
        if a.path is FALSE:
            return self.block(s.orelse, st, fr)
        if b.path is FALSE:
            return self.block(s.body, st, fr)
        ea = self.block(s.body, a, fr)
        eb = self.block(s.orelse, b, fr)
        if ea is None:
            return eb
        if eb is None:
            return ea
        return self.merge(c, ea, eb)

    def s_With(self, s, st, fr):
        names = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            v = self.snap(st, v)
            names.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, raw("enter", v), st, fr)
            self.event("with", "with", v, it.context_expr, st, fr)
        self.ctx.extend(names)
        try:
            return self.block(s.body, st, fr)
        finally:
            del self.ctx[len(self.ctx) - len(names):]

    s_AsyncWith = s_With

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.mkfv(s, st, fr)
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = self.unk("class")
        return st

    def mkfv(self, node, st, fr):
        d = [self.ev(x, st, fr) for x in node.args.defaults]
        uid = len(self.fvs) + 1
        f = Func(node, fr.module, None, outer=fr.func)
        if fr.func is not None and getattr(fr.func, "name", None):
            f.qual = fr.func.qual + ".<locals>." + f.name
        self.fvs[uid] = FV(node, f, fr, st.env, d)
        self.fvs[uid].kwd = {x.arg: self.ev(y, st, fr) for x, y in zip(node.args.kwonlyargs, node.args.kw_defaults) if y is not None}
        return raw("fv", uid)

    def matches(self, exc, handler_names):
        seen = set()
        x = exc
        while x and x not in seen:
            if x in handler_names:
                return True
            seen.add(x)
            if x in EXC_PARENTS:
                x = EXC_PARENTS[x]
            else:
                try:
                    c = self.p.cls(x)
                    b = c.node.bases[0] if c.node.bases else None
                    d = dotted_name(b) if b is not None else None
                    x = d.split(".")[-1] if d else "Exception"
                except AnalysisBroken:
                    x = "Exception"
        return "BaseException" in handler_names and exc == "BaseException"

    def has(self, o, name):
        c = self.typeof(o)
        if c is not None and name.op == "c" and self.p.method(c, name.args[1]) is not None:
            return TRUE
        return raw("hasattr", o, name)

    def harmless(self, t):
        """A constructor whose text, with everything it calls, only stores, asserts and calls simple builtins."""
        f = t.args[0]
        r = self.p.resolve(f.args[0]) if f.op == "fn" and "." in f.args[0] else None
        if not r or r[0] != "class":
            return False
        c = r[1]
        if c.is_dataclass:
            return True

        def quiet(cls, depth):
            init = self.p.method(cls, "__init__")
            if init is None:
                return len(self.p.mro(cls)) == len(cls.node.bases) + 1
            sup = set()
            for n in ast.walk(init.node):
                if isinstance(n, (ast.Raise, ast.Subscript, ast.BinOp, ast.For, ast.While, ast.Try, ast.With)):
                    return False
                if isinstance(n, ast.Call):
                    g = n.func
                    if isinstance(g, ast.Name) and g.id in ("isinstance", "super", "callable"):
                        continue
                    if isinstance(g, ast.Attribute) and g.attr == "__init__" and isinstance(g.value, ast.Call) and dotted_name(g.value.func) == "super" and depth < 3:
                        own = [k for k in self.p.mro(cls) if "__init__" in k.methods]
                        if len(own) > 1 and quiet(own[1], depth + 1):
                            continue
                    return False
            return True

        return quiet(c, 0)

    def s_Try(self, s, st, fr):
        before = st.copy()
        ev0 = len(self.events)
        mark = len(fr.exits)
        keyed = any(h.type is not None and any(isinstance(n, ast.Name) and n.id == "KeyError" for n in ast.walk(h.type)) for h in s.handlers)
        fr.keyed = getattr(fr, "keyed", 0) + keyed
        try:
            body = self.block(s.body, st, fr)
        finally:
            fr.keyed -= keyed
        callterms = []
        for e in self.events[ev0:]:
            if e.kind == "call" and not e.inlam and e.extra == "project":
                if e.term not in callterms and not self.harmless(e.term):
                    callterms.append(e.term)
        if s.orelse and body is not None:
            body = self.block(s.orelse, body, fr)
        if s.handlers:
            bodyexits = fr.exits[mark:]
            del fr.exits[mark:]
            handled_any = FALSE
            outs = []
            keep = []
            for h in s.handlers:
                if h.type is None:
                    hn = ["BaseException"]
                elif isinstance(h.type, ast.Tuple):
                    hn = [(dotted_name(x) or "?").split(".")[-1] for x in h.type.elts]
                else:
                    hn = [(dotted_name(h.type) or "?").split(".")[-1]]
                outs.append((h, hn))
            conds = []
            rest = list(bodyexits)
            for h, hn in outs:
                g = FALSE
                newrest = []
                for ex in rest:
                    if ex[1] == "raise" and ex[2].op == "raise" and self.matches(ex[2].args[0], hn):
                        g = or_(g, ex[0])
                    else:
                        newrest.append(ex)
                rest = newrest
                atom = FALSE
                if hn in (["StopIteration"], ["KeyError"]) and g is not FALSE:
                    pass
                elif callterms:
                    atom = raw("raises", tuple(sorted(hn)), tuple(callterms))
                elif not any(True for _ in [0] if g is not FALSE):
                    atom = raw("raises", tuple(sorted(hn)), ())
                c = or_(g, and_(before.path, atom))
                c = and_(c, not_(handled_any))
                conds.append(c)
                handled_any = or_(handled_any, c)
            ok = not_(handled_any)
            for ex in rest:
                g2 = and_(ex[0], ok)
                if g2 is not FALSE:
                    fr.exits.append((g2,) + ex[1:])
            res = None
            if body is not None:
                body.path = and_(body.path, ok)
                if body.path is not FALSE:
                    res = body
            for (h, hn), c in zip(outs, conds):
                hs = before.copy()
                hs.path = and_(before.path, c)
                if hs.path is FALSE:
                    continue
                hs.env["%exc"] = raw("exc", hn[0])
                if h.name:
                    hs.env[h.name] = raw("exc", hn[0])
                he = self.block(h.body, hs, fr)
                if he is None:
                    continue
                res = he if res is None else self.merge(c, he, res)
        else:
            res = body
        if s.finalbody:
            if res is not None:
                res = self.block(s.finalbody, res, fr)
            else:
                tmp = before.copy()
                n = len(fr.exits)
                self.block(s.finalbody, tmp, fr)
                fr.exits[n:] = [e for e in fr.exits[n:] if e[1] == "ret"]
        return res

    s_TryStar = s_Try

    def s_Break(self, s, st, fr):
        self.exit(fr, st, "break", NONE, s)
        return None

    def s_Continue(self, s, st, fr):
        self.exit(fr, st, "continue", NONE, s)
        return None

    def stored_names(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef,)):
                    out.add(n.name)
        return out

    def rebound(self, s, fr):
        """Names of the running function that are bound again once the loop `s` is over (closures made in the loop see the new value)."""
        node = getattr(fr.func, "node", None)
        if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) or not any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.Call)) for b in s.body for n in ast.walk(b)):
            return set()
        out = set()

        def go(body, inside):
            for b in body:
                if b is s:
                    out.update(inside)
                    after[0] = True
                    continue
                if after[0]:
                    out.update(self.own_names([b]))
                    continue
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                more = inside
                if isinstance(b, (ast.For, ast.While)):
                    more = inside | self.own_names(b.body)
                for sub in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(b, sub, None), list):
                        mark = after[0]
                        go(getattr(b, sub), more if sub == "body" else inside)
                        if after[0] and not mark and isinstance(b, ast.If):
                            break
                for h in getattr(b, "handlers", []):
                    go(h.body, inside)
        after = [False]
        go(node.body, frozenset())
        return out if after[0] else set()

    def own_names(self, body):
        out = set()

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            for c in ast.iter_child_nodes(n):
                go(c)
        for b in body:
            go(b)
        return out

    def while1(self, s, st, fr):
        """Exact summary of a while loop carrying one scalar variable, else None."""
        if s.orelse or any(isinstance(n, (ast.Continue, ast.Return, ast.Raise)) for b in s.body for n in ast.walk(b)):
            return None
        names = [n for n in self.stored_names(s.body) if n in st.env]
        local = [n for n in self.stored_names(s.body) if n not in st.env]
        if len(names) != 1 or st.env[names[0]].op == "ref":
            return None
        x = fresh("w")
        w = State(dict(st.env), dict(st.heap), TRUE)
        w.env[names[0]] = x
        n0 = len(self.events)
        m0 = len(fr.exits)
        self.loops.append(raw("while"))
        try:
            c = self.tested(self.ev(s.test, w, fr), w)
            c = self.snap(w, c)
            w.path = and_(w.path, c)
            end = self.block(s.body, w, fr)
        finally:
            self.loops.pop()
        brk = fr.exits[m0:]
        del fr.exits[m0:]
        if end is None or any(e[1] != "break" for e in brk) or any(
            any(t.heap.get(k) is not v for k, v in st.heap.items())
            or any(t.env.get(k) is not v for k, v in st.env.items() if k != names[0])
            for t in [end] + [e[3] for e in brk]
        ):
            del self.events[n0:]
            return None
        step = self.snap(end, end.env[names[0]])
        # leaving before the variable moves is part of the continuation condition; any later exit is an exit of its own
        early = []
        for e in brk:
            g, xb = self.snap(e[3], e[0]), self.snap(e[3], e[3].env[names[0]])
            if xb is x:
                c = and_(c, not_(g))
            else:
                early += [self.lam1(x, g), self.lam1(x, xb)]
        v = raw("while1", self.snap(st, st.env[names[0]]), self.lam1(x, c), self.lam1(x, step), *early)
        st.env[names[0]] = v
        self.event("while", "while", v, s, st, fr)
        for n in local:
            st.env[n] = raw("softloop", fresh("w").args[0])
        return st

    def lam1(self, x, body):
        l = mklam([x], body)
        if l.op != "lam":
            bv = raw("bv", T.height(body) + 1)
            l = raw("lam", (bv,), subst(body, {x: bv}))
        return l

    def s_While(self, s, st, fr):
        r = self.counted(s, st, fr)
        if r is not None:
            return r
        r = self.while1(s, st, fr)
        if r is not None:
            return r
        names = self.stored_names(s.body)
        self.event("while", "while", raw("softloop", fresh("w").args[0]), s, st, fr)
        pre = st.copy()
        peeled = self.peel(s, st, fr)
        for n in names:
            if n in st.env:
                st.env[n] = raw("softloop", fresh("w").args[0])
        # discovery run: what an iteration may change
        ev0, mark = len(self.events), len(fr.exits)
        b = st.copy()
        self.ev(s.test, b, fr)
        self.loops.append(raw("while"))
        try:
            end = self.block(s.body, b, fr)
        finally:
            self.loops.pop()
        ends = [e[3] for e in fr.exits[mark:] if e[1] in ("break", "continue")] + ([end] if end is not None else [])
        del fr.exits[mark:]
        del self.events[ev0:]
        self.events.extend(peeled)
        dirty_n, dirty_h = set(names), set()
        for e in ends:
            dirty_n |= {n for n, v in e.env.items() if st.env.get(n) is not v}
            dirty_h |= {k for k, v in e.heap.items() if (k in st.heap or not (isinstance(k, T.Term) and k.op == "ref")) and st.heap.get(k) is not v}
        for n in dirty_n:
            if n in st.env:
                st.env[n] = raw("softloop", fresh("w").args[0])
        for k in dirty_h:
            st.heap[k] = raw("softloop", fresh("w").args[0])
        self.ev(s.test, st, fr)
        b = st.copy()
        self.loops.append(raw("while"))
        try:
            self.block(s.body, b, fr)
        finally:
            self.loops.pop()
        rest = []
        for ex in fr.exits[mark:]:
            if ex[1] in ("break", "continue"):
                continue
            rest.append((and_(pre.path, raw("truth", raw("softloop", fresh("w").args[0]))),) + ex[1:])
        fr.exits[mark:] = rest
        for n in dirty_n:
            st.env[n] = raw("softloop", fresh("w").args[0])
        for k in dirty_h:
            st.heap[k] = raw("softloop", fresh("w").args[0])
        st.path = pre.path
        for ex in rest:
            st.path = and_(st.path, not_(ex[0]))
        return st

    def counted(self, s, st, fr):
        """`while i < n: ...; i += 1` from zero is a for loop over range(n)."""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(a, ast.Name) or st.env.get(a.id) is not ZERO:
            return None
        steps = [k for k, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == a.id
                 and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
        stores = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == a.id and isinstance(n.ctx, (ast.Store, ast.Del))]
        if len(steps) != 1 or len(stores) != 1:
            return None
        if any(isinstance(n, ast.Continue) for x in s.body[: steps[0]] for n in ast.walk(x)):
            return None
        changed = self.stored_names(s.body)
        if any(isinstance(n, ast.Name) and n.id in changed for n in ast.walk(b)):
            return None
        pure = State(dict(st.env), dict(st.heap), st.path)
        if not (isinstance(b, ast.Call) and len(b.args) == 1) and self.content(pure, self.ev(b, pure, fr)).op != "len":
            return None
        calls = [n for n in ast.walk(b) if isinstance(n, ast.Call)]
        if any(not (isinstance(c.func, ast.Name) and c.func.id == "len") for c in calls):
            return None
        if calls:
            # the sequence must not grow or shrink inside the loop
            names = {n.id for n in ast.walk(b) if isinstance(n, ast.Name)} - {"len"}
            for x in s.body:
                for n in ast.walk(x):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
                        return None
                    if isinstance(n, ast.Delete):
                        return None
        key = "%count" + a.id
        tgt, it = ast.Name(key, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [b], [])
        if isinstance(b, ast.Call):
            tgt = ast.Tuple([tgt, ast.Name(key + "e", ast.Store())], ast.Store())
            it = ast.Call(ast.Name("enumerate", ast.Load()), [b.args[0]], [])
        new = ast.For(
            target=tgt,
            iter=it,
            body=[ast.Assign([ast.Name(a.id, ast.Store())], ast.Name(key, ast.Load()))] + s.body,
            orelse=[],
        )
        ast.copy_location(new, s)
        ast.fix_missing_locations(new)
        return self.stmt(new, st, fr)

    def peel(self, s, st, fr, k=None):
        """Events of the first iterations from the state at loop entry (kinds prefixed peel1-, peel2-)."""
        k = k or PEEL
        out = []
        n0, m0 = len(self.events), len(fr.exits)
        p = st.copy()
        p.heap = dict(st.heap)
        self.loops.append(raw("while"))
        try:
            for i in range(1, k + 1):
                c = self.tested(self.ev(s.test, p, fr), p)
                c = self.snap(p, c)
                p.path = and_(p.path, c)
                if p.path is FALSE:
                    break
                end = self.block(s.body, p, fr)
                for e in self.events[n0:]:
                    if not e.kind.startswith("peel"):
                        e.kind = f"peel{i}-{e.kind}"
                    out.append(e)
                del self.events[n0:]
                if end is None:
                    break
                p = end
        except Exception:
            import os, traceback
            if os.environ.get("SPEYVER_DEBUG"): traceback.print_exc()
        except ZeroDivisionError:  # noqa: BLE001  the summary below does not depend on this pass
            pass
        finally:
            self.loops.pop()
            del self.events[n0:]
            del fr.exits[m0:]
        return out

    def s_For(self, s, st, fr):
        it = self.iterable(self.ev(s.iter, st, fr), s.iter, st, fr)
        return self.for_over(s, self.deep_content(st, it), st, fr)

    def iterable(self, t, e, st, fr):
        """What iterating an instance of a class of the project yields, as its own __iter__ says."""
        if t.op not in ("sym", "call", "attr"):
            return t
        c = self.typeof(t)
        m = self.p.method(c, "__iter__") if c is not None else None
        if m is None or not self.may_inline(m) or self.overridden(c, "__iter__", t):
            return t
        return self.bound_call(t, "__iter__", [], [], e, st, fr)

    def deep_content(self, st, t):
        """Contents of an iterable, also behind a choice or an enumeration."""
        if t.op == "ite":
            return ite(t.args[0], self.deep_content(st, t.args[1]), self.deep_content(st, t.args[2]))
        c = self.content(st, t)
        if c.op in ("enumerate", "zip", "items", "values", "keys", "reversed") and self.literal(c, st) is None or (c.op == "ite" and self._hasref(c)):
            c = self.snap(st, c)
        x = self.lift(c)
        return x if self.splittable(x) else c

    def lift(self, t):
        """Choices inside an enumeration moved outside of it."""
        if t.op == "enumerate":
            x = self.lift(t.args[0])
            if x.op == "ite":
                c, a, b = x.args
                return ite(c, self.lift(raw("enumerate", a, *t.args[1:])), self.lift(raw("enumerate", b, *t.args[1:])))
        return t

    def splittable(self, t):
        """Iterable chosen by a condition: the loop is analysed once per choice."""
        if t.op != "ite" or len(T.leaves(t)) > 4:
            return False

        def under(x):
            return under(x.args[0]) if x.op == "enumerate" else x.op

        return any(under(x) in ("list", "tuple", "range") for x in T.leaves(t))

    def for_over(self, s, itc, st, fr):
        if self.splittable(itc):
            c = itc.args[0]
            a, b = st.copy(), st.copy()
            a.path, b.path = and_(st.path, c), and_(st.path, not_(c))
            ea = None if a.path is FALSE else self.for_over(s, itc.args[1], a, fr)
            eb = None if b.path is FALSE else self.for_over(s, itc.args[2], b, fr)
            if ea is None:
                return eb
            if eb is None:
                return ea
            return self.merge(c, ea, eb)
        lit = self.literal(itc, st)
        if lit is not None and len(lit) <= 8:
            return self.unroll(s, lit, st, fr)
        j = fresh("j")
        dom, elem = self.domain(itc, j, st)
        names = self.stored_names(s.body) | self.stored_names([s.target])
        targets = self.stored_names([s.target])

        def run(env, heap):
            sub_ = State(env, heap, TRUE)
            self.assign(s.target, elem, sub_, fr)
            mark = len(fr.exits)
            self.loops.append(dom)
            try:
                end = self.block(s.body, sub_, fr)
            finally:
                self.loops.pop()
            exits = fr.exits[mark:]
            del fr.exits[mark:]
            conts = [e for e in exits if e[1] == "continue"]
            others = [e for e in exits if e[1] != "continue"]
            for e in conts:
                if end is None:
                    end = e[3].copy()
                else:
                    end = self.merge(e[0], e[3], end)
            return end, others

        # discovery run
        ev0 = len(self.events)
        before = frozenset().union(*[syms(v) for v in st.env.values()], [sym("self")])
        end, others = run(dict(st.env), dict(st.heap))
        del self.events[ev0:]
        changed_names = set()
        changed_refs = set()
        ends = ([end] if end is not None else []) + [e[3] for e in others if e[1] == "break"]
        for e in ends:
            for n, v in e.env.items():
                if n in targets:
                    continue
                if n in st.env and st.env[n] is not v:
                    changed_names.add(n)
            for k, v in e.heap.items():
                if k not in st.heap and isinstance(k, tuple) and len(k) == 3 and k[0] == "f" and not (syms(k[1]) - before):
                    st.heap[k] = raw("attr", k[1], k[2])
                if k in st.heap and st.heap[k] is not v:
                    changed_refs.add(k)
        acc = {}
        env, heap = dict(st.env), dict(st.heap)
        for n in changed_names:
            a = fresh("acc")
            acc[a] = ("n", n, self.content(st, st.env[n]))
            if st.env[n].op == "ref":
                env[n] = a
                # content-typed accumulators keep list-ness
            else:
                env[n] = a
            if self.content(st, st.env[n]) in self.dicts or self.content(st, st.env[n]).op in ("dict", "dminus"):
                self.dicts.add(a)
        for k in changed_refs:
            a = fresh("acc")
            acc[a] = ("h", k, st.heap[k])
            c0 = st.heap[k]
            if c0 in self.dicts or c0.op in ("dict", "dminus"):
                self.dicts.add(a)
                heap[k] = raw("dict", dstar(a))
            elif c0.op == "list":
                heap[k] = raw("list", star(a))
            else:
                heap[k] = a
        end, others = run(env, heap)
        brk = [e for e in others if e[1] == "break"]
        out = st  # state after the loop
        accs = set(acc)
        late = (set(names) | self.rebound(s, fr), dom, fr)

        def nxt(kind, key, e):
            v = e.env.get(key) if kind == "n" else e.heap.get(key)
            if v is None:
                return raw("undef", str(key))
            return self.snap_late(e, v, late)

        # exits inside the loop
        rets = [e for e in others if e[1] == "ret"]
        left = None
        if rets and end is not None or rets and brk:
            vals = {id(e): self.snap_late(e[3], e[2], late) for e in rets}
            if brk or any((syms(e[0]) | syms(vals[id(e)])) & accs for e in rets):
                left = self.leaving(acc, nxt, brk, rets, vals, end, dom, j)
        if left is not None:
            gg = raw("truth", left("F"))
            gp = and_(st.path, gg)
            if gp is not FALSE:
                xs = out.copy()
                for k in set(k for e in rets for k in e[3].heap):
                    ks = [a for a in acc if acc[a][:2] == ("h", k)]
                    if ks:
                        xs.heap[k] = left(ks[0])
                    elif any(e[3].heap.get(k) is not heap.get(k) for e in rets) and (k in heap or not (isinstance(k, T.Term) and k.op == "ref")):
                        xs.heap[k] = raw("softloop", fresh("g").args[0])
                fr.exits.append((gp, "ret", left("R"), xs, rets[0][4]))
            out = out.copy()
            out.path = and_(out.path, not_(gg))
            others = [e for e in others if e[1] != "ret"]
        for g, kind, t, est, node in others:
            if kind == "break":
                continue
            t2 = self.snap_late(est, t, late)
            if syms(g) & accs or syms(t2) & accs or brk:
                gg = raw("truth", raw("softloop", fresh("g").args[0]))
                tv = raw("softloop", fresh("g").args[0]) if kind == "ret" else t2
            else:
                gg = self.anyof(dom, j, g)
                tv = t2 if j not in syms(t2) else raw("first", dom, mklam([j], g), mklam([j], t2))
            gp = and_(st.path, gg)
            if gp is FALSE:
                continue
            xs = out
            for k, v in est.heap.items():
                if heap.get(k) is not v and (k in heap or not (isinstance(k, T.Term) and k.op == "ref")):
                    if xs is out:
                        xs = out.copy()
                    v = self.snap_late(est, v, late)
                    if syms(v) & accs or syms(g) & accs or brk or k in changed_refs:
                        xs.heap[k] = raw("softloop", fresh("g").args[0])
                    else:
                        xs.heap[k] = v if j not in syms(v) else raw("first", dom, mklam([j], g), mklam([j], v))
            fr.exits.append((gp, kind, tv, xs, node))
            out = out.copy()
            out.path = and_(out.path, not_(gg))
        if out.path is FALSE:
            return None
        out = out.copy()
        if end is None and not brk:
            # every iteration leaves the function
            ne = raw("truth", raw("nonempty", dom))
            for n in names:
                if n not in st.env:
                    out.env[n] = self.unk("loopvar")
            return self.alive(out)
        if brk and s.orelse and end is not None and left is None and all(e[1] == "break" for e in others):
            r = self.broken(s, st, out, fr, acc, accs, nxt, brk, end, dom, j, names, late)
            if r is not False:
                return r
        if brk:
            for a, (kind, key, init) in acc.items():
                v = None
                if all(e[1] == "break" for e in others):
                    v = left(a) if left is not None else self.breaking(a, acc, nxt, brk, end, dom, j)
                if v is None:
                    v = raw("softloop", fresh("b").args[0])
                if kind == "n":
                    out.env[key] = v
                else:
                    out.heap[key] = v
            for n in names:
                if n not in out.env or n in targets:
                    out.env[n] = raw("softloop", fresh("b").args[0])
            if s.orelse:
                for n in self.stored_names(s.orelse):
                    out.env[n] = raw("softloop", fresh("b").args[0])
                pre = out.copy()
                mark = len(fr.exits)
                self.block(s.orelse, pre, fr)
                fr.exits[mark:] = [
                    (and_(e[0], raw("truth", raw("softloop", fresh("b").args[0]))),) + e[1:] for e in fr.exits[mark:]
                ]
            return out
        nexts = {a: nxt(kind, key, end) for a, (kind, key, init) in acc.items()}
        # dictionaries whose carried keys are overwritten before every read carry nothing
        for a, (kind, key, init) in acc.items():
            v = nexts[a]
            d = self.dtail(a, v)
            if not d or not all(x.op == "kv" and not (syms(x.args[0]) & (accs | {j})) for x in d):
                continue
            K = {x.args[0] for x in d}
            if all(self.only_overridden(t, a, K) for b, t in nexts.items() if b is not a):
                for b in nexts:
                    if b is not a:
                        nexts[b] = subst(nexts[b], {a: init})
        for a, (kind, key, init) in acc.items():
            v = nexts[a]
            res = self.summarise(a, init, v, dom, j, accs)
            if res.op == "softloop":
                res = self.joint(a, acc, nexts, T.FALSE, dom, j) or res
            if kind == "n":
                if st.env[key].op == "ref" or is_seq(res) or res.op in ("dict",):
                    out.env[key] = self.newref(out, res)
                else:
                    out.env[key] = res
            else:
                out.heap[key] = res
        for n in names:
            if n in changed_names:
                continue
            v = end.env.get(n)
            if v is None:
                continue
            v = self.snap_late(end, v, late)
            if n in targets or n not in st.env:
                if syms(v) & accs:
                    out.env[n] = raw("softloop", fresh("l").args[0])
                else:
                    out.env[n] = raw("last", dom, mklam([j], v)) if j in syms(v) else v
        if s.orelse:
            return self.block(s.orelse, out, fr)
        return self.alive(out)

    s_AsyncFor = s_For

    def only_overridden(self, t, a, K):
        if a not in syms(t):
            return True
        if t is a:
            return False
        if t.op == "dict" and t.args and t.args[0] is dstar(a):
            keys = {x.args[0] for x in t.args[1:] if x.op == "kv"}
            return K <= keys and all(self.only_overridden(x, a, K) for x in t.args[1:])
        return all(self.only_overridden(s, a, K) for s in T.subterms(t))

    def snap_late(self, e, v, late):
        return self.snap(e, v, late)

    def unroll(self, s, lit, st, fr):
        pend = []
        for v in lit:
            if st is None:
                break
            self.assign(s.target, v, st, fr)
            mark = len(fr.exits)
            st2 = self.block(s.body, st, fr)
            ex = fr.exits[mark:]
            fr.exits[mark:] = [e for e in ex if e[1] not in ("break", "continue")]
            for e in ex:
                if e[1] == "continue":
                    st2 = e[3].copy() if st2 is None else self.merge(e[0], e[3], st2)
                elif e[1] == "break":
                    pend.append(e)
            st = st2
        if s.orelse and st is not None:
            st = self.block(s.orelse, st, fr)
        for e in pend:
            st = e[3].copy() if st is None else self.merge(e[0], e[3], st)
        return st

    def literal(self, t, st):
        """Elements of a fully known sequence, or None."""
        if t.op in ("list", "tuple", "set"):
            out = []
            for x in t.args:
                inner = self.literal(x.args[0], st) if x.op == "star" and t.op != "set" else None
                if x.op == "star" and inner is None:
                    return None
                out.extend([x] if inner is None else inner)
            return out
        if t.op == "range" and all(a.op == "n" for a in t.args):
            a = [int(x.args[0]) for x in t.args]
            r = range(*a)
            return [num(i) for i in r] if len(r) <= 8 else None
        if t.op == "enumerate":
            l = self.literal(t.args[0], st)
            return None if l is None else [raw("tuple", num(i), v) for i, v in enumerate(l)]
        if t.op == "zip":
            ls = [self.literal(a, st) for a in t.args]
            for i, a in enumerate(t.args):
                n = self.arity(a) if ls[i] is None else None
                if n is not None:
                    ls[i] = [sub(a, num(k)) for k in range(n)]
            if any(l is None for l in ls):
                return None
            return [raw("tuple", *x) for x in zip(*ls)]
        if t.op == "items" and t.args[0].op == "dict" and all(e.op == "kv" for e in t.args[0].args):
            return [raw("tuple", e.args[0], e.args[1]) for e in t.args[0].args]
        return None

    def isdict(self, t):
        return t.op in ("dict", "dminus", "dmap") or t in self.dicts

    def domain(self, t, j, st):
        """(domain term, element for index j)."""
        if t.op == "enumerate":
            d, e = self.domain(t.args[0], j, st)
            start = t.args[1] if len(t.args) > 1 else ZERO
            return d, raw("tuple", add(j, start), e)
        if t.op == "zip":
            ds = [self.domain(a, j, st) for a in t.args]
            doms = []
            for d, _ in ds:
                if d not in doms:
                    doms.append(d)
            dom = doms[0] if len(doms) == 1 else raw("Dzip", *sorted(doms, key=lambda x: x.id))
            return dom, raw("tuple", *[e for _, e in ds])
        if t.op == "range" and len(t.args) == 1:
            n = t.args[0]
            if n.op == "len":
                return raw("D", n.args[0]), j
            return raw("D", raw("range", n)), j
        if t.op == "items":
            d = t.args[0]
            k = raw("key", d, j)
            return raw("D", d), raw("tuple", k, dictget(d, k))
        if t.op == "values":
            d = t.args[0]
            return raw("D", d), dictget(d, raw("key", d, j))
        if t.op == "keys" or self.isdict(t):
            d = t.args[0] if t.op == "keys" else t
            return raw("D", d), raw("key", d, j)
        if t.op in ("list", "tuple") and len(t.args) == 1 and t.args[0].op == "star":
            x = t.args[0].args[0]
            if x.op == "fmap":
                body = x.args[1]
                if body.op == "lam":
                    b = apply_lam(body, [j])
                    if b.op == "list" and len(b.args) == 1 and b.args[0].op != "star":
                        return x.args[0], b.args[0]
            else:
                return self.domain(x, j, st)
        return raw("D", t), sub(t, j)

    def breaking(self, a, acc, nxt, brk, end, dom, j):
        """Summary of accumulator a of a loop that can be left early: (left?, next value) per element."""
        def step(b):
            kind, key, _ = acc[b]
            t = nxt(kind, key, end) if end is not None else None
            for e in reversed(brk):
                v = nxt(kind, key, e[3])
                t = v if t is None else ite(e[0], v, t)
            return t

        g = T.FALSE
        for e in brk:
            g = or_(g, e[0])
        return self.joint(a, acc, {b: step(b) for b in acc}, g, dom, j)

    def leaving(self, acc, nxt, brk, rets, vals, end, dom, j):
        """Loop left by break and by return: its accumulators together with whether and with what it returned; None if not expressible."""
        F, R = fresh("acc"), fresh("acc")
        acc = dict(acc)
        acc[F], acc[R] = ("x", F, FALSE), ("x", R, NONE)

        def step(b):
            kind, key, _ = acc[b]
            base = {F: FALSE, R: NONE}.get(b)

            def at(e):
                return base if base is not None else nxt(kind, key, e)

            t = at(end) if end is not None else None
            for e in reversed(brk):
                t = at(e[3]) if t is None else ite(e[0], at(e[3]), t)
            for e in reversed(rets):
                v = TRUE if b is F else vals[id(e)] if b is R else at(e[3])
                t = v if t is None else ite(e[0], v, t)
            return t

        g = FALSE
        for e in brk + rets:
            g = or_(g, e[0])
        steps = {b: step(b) for b in acc}
        out = {b: self.joint(b, acc, steps, g, dom, j) for b in acc}
        if out[F] is None or out[R] is None:
            return None
        return lambda b: out[F if b == "F" else R if b == "R" else b] or raw("softloop", fresh("b").args[0])

    def broken(self, s, st, out, fr, acc, accs, nxt, brk, end, dom, j, names, late):
        """Loop with an else block that can be left by break: what follows the break and what follows the else block, merged."""
        G = FALSE
        for e in brk:
            G = or_(G, e[0])
        if syms(G) & accs:
            return False
        hit = self.anyof(dom, j, G)
        bs, es = out.copy(), out.copy()
        bs.path, es.path = and_(out.path, hit), and_(out.path, not_(hit))
        nexts = {a: nxt(k, key, end) for a, (k, key, _) in acc.items()}
        init = {a: i for a, (_, _, i) in acc.items()}

        def put(x, kind, key, v):
            if kind == "n":
                x.env[key] = self.newref(x, v) if (key in st.env and st.env[key].op == "ref") or is_seq(v) or v.op == "dict" else v
            else:
                x.heap[key] = v

        for a, (kind, key, i) in acc.items():
            v = None
            for e in reversed(brk):
                w = nxt(kind, key, e[3])
                v = w if v is None else ite(e[0], w, v)
            same = lambda b: nexts[b] is b or nexts[b].op == "list" and nexts[b].args == (star(b),) or nexts[b].op == "dict" and nexts[b].args == (dstar(b),)
            if v is not None and all(same(b) for b in (syms(v) & accs)):
                v = subst(v, {b: init[b] for b in accs})
                b_val = v if j not in syms(v) else raw("first", dom, mklam([j], G), mklam([j], v))
            else:
                b_val = self.breaking(a, acc, nxt, brk, end, dom, j)
            e_val = self.summarise(a, i, nexts[a], dom, j, accs)
            if e_val.op == "softloop":
                e_val = self.joint(a, acc, nexts, FALSE, dom, j)
            put(bs, kind, key, b_val if b_val is not None else raw("softloop", fresh("b").args[0]))
            put(es, kind, key, e_val if e_val is not None else raw("softloop", fresh("b").args[0]))
        for n in names:
            if any(k == "n" and key == n for k, key, _ in acc.values()):
                continue
            v = None
            for e in reversed(brk):
                w = e[3].env.get(n)
                w = self.snap_late(e[3], w, late) if w is not None else raw("undef", n)
                v = w if v is None else ite(e[0], w, v)
            if v is None or syms(v) & accs:
                v = raw("softloop", fresh("b").args[0])
            elif j in syms(v):
                v = raw("first", dom, mklam([j], G), mklam([j], v))
            bs.env[n] = v
            es.env[n] = raw("softloop", fresh("b").args[0])
        es = None if es.path is FALSE else self.block(s.orelse, es, fr)
        if bs.path is FALSE:
            return es
        if es is None:
            return bs
        return self.merge(hit, bs, es)

    def joint(self, a, acc, steps, g, dom, j):
        """Accumulator a as the first component of a fold over all accumulators it depends on."""
        order, todo = [], [a]
        while todo:
            b = todo.pop(0)
            if b in order:
                continue
            order.append(b)
            dep = (syms(steps[b]) | syms(g)) & set(acc)
            todo.extend(x for x in acc if x in dep)
        if any(T.has_unk(steps[b]) or T.has_unk(acc[b][2]) for b in order) or T.has_unk(g):
            return None
        if len(order) > 5:
            return None
        body = raw("tuple", g, *[steps[b] for b in order])
        return raw("bfold", dom, tuple(acc[b][2] for b in order), mklam([j] + order, body))

    def anyof(self, dom, j, g):
        if j not in syms(g):
            return and_(g, raw("truth", raw("nonempty", dom))) if g is not TRUE else raw("truth", raw("nonempty", dom))
        return raw("any", dom, mklam([j], g))

    def summarise(self, a, init, v, dom, j, accs):
        """Value of accumulator a after the loop."""
        if v is a or (v.op == "list" and v.args == (star(a),)) or (v.op == "dict" and v.args == (dstar(a),)):
            return init
        if a in syms(v) and v.op in ("setitem", "ite", "fold") and T.keeps_shape(v, a):
            v = subst(v, {raw("attr", a, "shape"): raw("attr", init, "shape")})
        s = syms(v)
        if not (s & accs):
            last = raw("last", dom, mklam([j], v)) if j in s else v
            ne = raw("truth", raw("nonempty", dom))
            return ite(ne, last, init)
        # sequences
        e = self.tail(a, v)
        if e is not None and not (syms(e) & accs):
            return self.extend(init, dom, j, e)
        # numeric sums
        d = self.delta(a, v)
        if d is not None and not (syms(d) & accs):
            lam = mklam([j], d) if j in syms(d) else raw("lam", (raw("bv", T.height(d) + 1),), d)
            if lam.op != "lam":
                # eta-reduced
                bv = raw("bv", T.height(d) + 1)
                lam = raw("lam", (bv,), subst(d, {j: bv}))
            return add(init, mksum(dom, lam))
        # dict stores
        dd = self.dtail(a, v)
        if dd is not None and not any(syms(x) & accs for x in dd):
            ent = raw("dict", *[x for x in dd])
            return mkdict(list(init.args if init.op == "dict" else [dstar(init)]) + [dstar(raw("dmap", dom, mklam([j], ent)))])
        if v.op == "setitem" and v.args[0] is a and v.args[1] is j and not (syms(v.args[2]) & accs):
            if init.op == "call" and init.args[0].op == "fn" and init.args[0].args[0] in (
                "numpy.empty", "numpy.zeros", "numpy.ones", "numpy.empty_like", "numpy.zeros_like"):
                seq = self.extend(raw("list"), dom, j, raw("list", v.args[2]))
                dt = dict(init.args[2]).get("dtype")
                if dt is None or dt in (raw("fn", "float"), raw("fn", "numpy.float64")):
                    return raw("arr", seq)
                return raw("call", raw("fn", "numpy.array"), (seq,), (("dtype", dt),))
            if init.op == "repeat":
                return self.extend(raw("list"), dom, j, raw("list", v.args[2]))
        if v.op in ("max", "min") and a in v.args:
            rest = [x for x in v.args if x is not a]
            if not any(syms(x) & accs for x in rest):
                m = raw(v.op, *rest) if len(rest) > 1 else rest[0]
                return extremum(v.op, [init, raw(v.op + "over", dom, mklam([j], m))])
        if isbool(v):
            # found = found or c
            if T.ite(a, TRUE, v) is v and isbool(a):
                pass
        if not ((s & accs) - {a}):
            return T.fold(dom, init, mklam([j, a], v))
        return raw("softloop", fresh("f").args[0])

    def tail(self, a, v):
        return T.appended(a, v)

    def extend(self, init, dom, j, e):
        lam = mklam([j], e)
        if e.op == "list" and len(e.args) == 1 and dom.op == "D" and e.args[0] is sub(dom.args[0], j) and e.args[0].op == "sub":
            seg = star(dom.args[0])
        elif lam.op == "lam":
            seg = star(T.fmap(dom, lam))
        else:
            bv = raw("bv", T.height(e) + 1)
            seg = star(raw("fmap", dom, raw("lam", (bv,), subst(e, {j: bv}))))
        base = init.args if init.op == "list" else (star(init),)
        return raw("list", *(base + (seg,)))

    def dtail(self, a, v):
        if v.op == "dict" and v.args and v.args[0] is dstar(a):
            return list(v.args[1:])
        if v.op == "ite" and a not in syms(v.args[0]):
            x, y = self.dtail(a, v.args[1]), self.dtail(a, v.args[2])
            if x and y and len(x) == len(y) and all(e.op == "kv" for e in x + y):
                return [kv(ite(v.args[0], e.args[0], f.args[0]), ite(v.args[0], e.args[1], f.args[1])) for e, f in zip(x, y)]
        return None

    def delta(self, a, v):
        if v is a:
            return ZERO
        if v.op == "ite" and a not in syms(v.args[0]):
            x, y = self.delta(a, v.args[1]), self.delta(a, v.args[2])
            if x is None or y is None:
                return None
            return ite(v.args[0], x, y)
        if v.op == "poly":
            d = subtract(v, a)
            if a not in syms(d):
                return d
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk(type(e).__name__)
        return m(e, st, fr)

    def evc(self, e, st, fr):
        """evaluate to dereferenced content"""
        return self.content(st, self.ev(e, st, fr))

    def evs(self, e, st, fr):
        return self.snap(st, self.ev(e, st, fr))

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            return st.env[e.id]
        p = fr.parent
        while p is not None:
            f, env, late = p
            if late is None:
                late = next((l for l in self.lates if l[2] is f), None)
            if late is not None and e.id in late[0]:
                # captured loop variable, read after the loop
                return raw("latebound", late[1], e.id)
            if f.cur is not None and e.id in f.cur.env:
                return f.cur.env[e.id]
            if e.id in env:
                return env[e.id]
            p = f.parent
        g = self.global_name(e.id, fr.module)
        return st.heap.get(("alias", g), g)

    def global_name(self, name, module):
        r = self.p.lookup(module, name)
        if r is None:
            if name in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[name])
            return raw("fn", name)
        return self.from_res(r, name)

    def from_res(self, r, name):
        if r[0] == "func":
            return raw("fn", r[1].qual)
        if r[0] == "class":
            return raw("fn", r[1].qual)
        if r[0] == "module":
            return raw("fn", r[1].name)
        if r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        if r[0] == "const":
            return self.modconst(r[1], r[2])
        d = r[1]
        if d in CONSTS:
            return CONSTS[d]
        return raw("fn", ALIAS.get(d, d))

    def class_attr(self, c, name):
        for k in self.p.mro(c):
            if name in k.attrs:
                bases = [dotted_name(b) for b in k.node.bases]
                if any(b and b.split(".")[-1] == "Enum" for b in bases):
                    return raw("c", "enum", f"{k.name}.{name}")
                return self.const_expr(k.attrs[name], k.module)
        return raw("attr", raw("fn", c.qual), name)

    def const_expr(self, expr, module):
        fr = Frame(None, module)
        st = State({}, {}, TRUE)
        ev0 = len(self.events)
        try:
            v = self.snap(st, self.ev(expr, st, fr))
        finally:
            del self.events[ev0:]
        return v

    def modconst(self, m, name):
        key = (m.name, name)
        if key in self.constmemo:
            return self.constmemo[key]
        vals = m.assigns[name]
        g = raw("glob", f"{m.name}.{name}")
        self.constmemo[key] = g
        if len(vals) == 1 and isinstance(vals[0], (ast.Dict, ast.List)) and not self.is_mutated_global(m, name):
            v = self.const_expr(vals[0], m)
            if not any(x.op in ("unk", "fmap") for x in T.walk(v)):
                self.constmemo[key] = v
                return v
        if len(vals) == 1 and isinstance(vals[0], (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Attribute, ast.Name, ast.Tuple, ast.Lambda)):
            v = self.const_expr(vals[0], m)
            if v.op in ("n", "c", "poly", "fn", "ext", "tuple") or v in (T.INF, T.NAN):
                self.constmemo[key] = v
                return v
        if len(vals) == 1 and isinstance(vals[0], (ast.Call, ast.BinOp)):
            v = self.const_expr(vals[0], m)
            if all(x.op in ("n", "c", "poly", "fn") or (x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0] in PUREMATH) for x in T.walk(v)):
                self.constmemo[key] = v
                return v
        return g

    def is_mutated_global(self, m, name):
        for mod in self.p.modules.values():
            for n in ast.walk(mod.tree):
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "update", "pop", "extend", "clear", "setdefault", "insert", "remove", "popitem", "sort"
                ):
                    t = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.AugAssign):
                    t = n.target
                if t is not None:
                    d = dotted_name(t)
                    if d and d.split(".")[-1] == name and (mod is m or name in mod.imports):
                        return True
        return False

    def e_Tuple(self, e, st, fr):
        return self.seq("tuple", e.elts, st, fr)

    def e_List(self, e, st, fr):
        return self.newref(st, self.seq("list", e.elts, st, fr))

    def e_Set(self, e, st, fr):
        v = self.seq("list", e.elts, st, fr)
        return raw("set", *v.args)

    def seq(self, op, elts, st, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                c = self.as_iter(self.content(st, self.iterable(self.ev(x.value, st, fr), x, st, fr)))
                segs.extend([sub(c, num(i)) for i in range(self.arity(c))] if self.arity(c) else [star(c)])
            else:
                segs.append(self.ev(x, st, fr))
        return mklist(op, segs)

    def as_iter(self, t):
        if t.op == "keys":
            return t.args[0]
        return t

    def e_Dict(self, e, st, fr):
        ents = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = self.evc(v, st, fr)
                ents.append(dstar(c))
            else:
                ents.append(kv(self.evs(k, st, fr), self.ev(v, st, fr)))
        return self.newref(st, mkdict(ents))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.evs(v.value, st, fr)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = raw("fmt", x, ast.dump(v.format_spec) if v.format_spec else "", v.conversion)
                parts.append(x)
        return fstr(parts)

    def e_FormattedValue(self, e, st, fr):
        return self.evs(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        return self.mkfv(e, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_IfExp(self, e, st, fr):
        c = self.tested(self.ev(e.test, st, fr), st)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        return self.branch(c, lambda s: self.ev(e.body, s, fr), lambda s: self.ev(e.orelse, s, fr), st, fr)

    def branch(self, c, fa, fb, st, fr):
        a, b = st.copy(), st.copy()
        a.path, b.path = and_(st.path, c), and_(st.path, not_(c))
        fr.cur = a
        va = fa(a)
        fr.cur = b
        vb = fb(b)
        if a.path is FALSE:
            m, v = b, vb
        elif b.path is FALSE:
            m, v = a, va
        else:
            m, v = self.merge(c, a, b), ite(c, va, vb)
        st.env, st.heap, st.path = m.env, m.heap, m.path
        fr.cur = st
        return v

    def e_BoolOp(self, e, st, fr):
        vals = list(e.values)
        v = self.ev(vals[0], st, fr)
        for x in vals[1:]:
            v = self.content(st, v) if v.op == "ref" else v
            c = truth(v)
            cur = v
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    return v
                if c is TRUE:
                    v = self.ev(x, st, fr)
                    continue
                v = self.branch(c, lambda s, x=x: self.ev(x, s, fr), lambda s, cur=cur: cur if not isbool(cur) else FALSE, st, fr)
            else:
                if c is TRUE:
                    return v
                if c is FALSE:
                    v = self.ev(x, st, fr)
                    continue
                v = self.branch(c, lambda s, cur=cur: cur if not isbool(cur) else TRUE, lambda s, x=x: self.ev(x, s, fr), st, fr)
        return v

    def e_UnaryOp(self, e, st, fr):
        v = self.evc(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isbool(v):
            return not_(v)
        return raw("invert", v)

    def e_BinOp(self, e, st, fr):
        a = self.content(st, self.ev(e.left, st, fr))
        b = self.content(st, self.ev(e.right, st, fr))
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        if op in (ast.Add, ast.Sub, ast.Mult, ast.Div) and not (is_seq(a) or is_seq(b)):
            # distribute over conditionals only when one side is constant-foldable: keep opaque otherwise
            pass
        if op is ast.Add:
            return add(a, b)
        if op is ast.Sub:
            if a.op == "set" or (a.op == "call" and T.show(a.args[0]) == "set"):
                return raw("setminus", a, b)
            return subtract(a, b)
        if op is ast.Mult:
            if isbool(a) and not isbool(b) and not is_seq(b):
                return ite(a, b, ZERO)
            if isbool(b) and not isbool(a) and not is_seq(a):
                return ite(b, a, ZERO)
            return mul(a, b)
        if op is ast.Div:
            return div(a, b)
        if op is ast.Pow:
            return power(a, b)
        if op is ast.MatMult:
            return raw("matmul", a, b)
        if op is ast.Mod:
            if a.op == "n" and b.op == "n" and b.args[0]:
                return num(a.args[0] % b.args[0])
            return raw("mod", a, b)
        if op is ast.FloorDiv:
            if a.op == "n" and b.op == "n" and b.args[0]:
                return num(a.args[0] // b.args[0])
            return raw("floordiv", a, b)
        if op in (ast.BitAnd, ast.BitOr) and isbool(a) and isbool(b):
            return and_(a, b) if op is ast.BitAnd else or_(a, b)
        if op is ast.BitOr and (self.isdict(a) or self.isdict(b)):
            return mkdict([dstar(a), dstar(b)])
        if op is ast.BitAnd:
            x, y = sorted((a, b), key=lambda t: t.id)
            return raw("bitand", x, y)
        if op is ast.BitOr:
            x, y = sorted((a, b), key=lambda t: t.id)
            return raw("bitor", x, y)
        return raw("binop", op.__name__, a, b)

    def e_Compare(self, e, st, fr):
        res = None
        left = self.content(st, self.ev(e.left, st, fr))
        for op, r in zip(e.ops, e.comparators):
            right = self.content(st, self.ev(r, st, fr))
            c = self.compare(type(op), self.snap(st, left), self.snap(st, right))
            res = c if res is None else and_(res, c)
            left = right
        return res

    def compare(self, op, a, b):
        if op in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            if (a.op == "ite" and (is_const(b))) :
                return ite(a.args[0], self.compare(op, a.args[1], b), self.compare(op, a.args[2], b))
            if (b.op == "ite" and (is_const(a))):
                return ite(b.args[0], self.compare(op, a, b.args[1]), self.compare(op, a, b.args[2]))
        if op is ast.Lt:
            return lt(a, b)
        if op is ast.Gt:
            return lt(b, a)
        if op is ast.LtE:
            return le(a, b)
        if op is ast.GtE:
            return le(b, a)
        if op is ast.Eq:
            return eq(a, b)
        if op is ast.NotEq:
            return not_(eq(a, b))
        if op is ast.Is:
            return is_(a, b)
        if op is ast.IsNot:
            return not_(is_(a, b))
        if op is ast.In:
            return self.among(a, b)
        return not_(self.among(a, b))

    def among(self, a, b):
        """a in [e(x) for x in D] is any(a == e(x) for x in D)."""
        if b.op in ("list", "tuple") and b.args and all(x.op != "star" or x.args[0].op == "fmap" for x in b.args) and any(x.op == "star" for x in b.args):
            r = FALSE
            for x in b.args:
                if x.op != "star":
                    r = or_(r, T.eq(a, x))
                    continue
                dom, lam = x.args[0].args
                j = fresh("j")
                e = apply_lam(lam, [j]) if lam.op == "lam" else None
                if e is None or e.op != "list" or any(y.op == "star" for y in e.args):
                    return isin(a, b)
                g = FALSE
                for y in e.args:
                    g = or_(g, T.eq(y, a))
                r = or_(r, self.anyof(dom, j, g))
            return r
        return isin(a, b)

    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: NONE if x is None else self.evs(x, st, fr)
            return raw("slc", g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return raw("tuple", *[self.ev_index(x, st, fr) for x in s.elts])
        return self.ev(s, st, fr)

    def e_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        i = self.content(st, self.ev_index(e.slice, st, fr))
        if o.op in ("sym", "call", "attr"):
            c = self.typeof(o)
            if c is not None and self.p.method(c, "__getitem__") is not None:
                return self.bound_call(o, "__getitem__", [i], [], e, st, fr)
        o = self.content(st, o)
        if getattr(fr, "keyed", 0) and isinstance(e.ctx, ast.Load) and self.isdict(o):
            has = isin(self.snap(st, i), self.snap(st, o))
            if o.op == "dict" and all(x.op == "kv" for x in o.args):
                has = FALSE
                for x in o.args:
                    has = or_(has, T.eq(x.args[0], self.snap(st, i)))
            bad = st.copy()
            bad.path = and_(st.path, not_(has))
            if bad.path is not FALSE:
                self.exit(fr, bad, "raise", raw("raise", "KeyError"), e)
                st.path = and_(st.path, has)
        return self.getitem(o, i, st)

    def getitem(self, o, i, st):
        if o.op == "ite":
            return ite(o.args[0], self.getitem(o.args[1], i, st), self.getitem(o.args[2], i, st))
        if i.op == "call" and i.args[0] in (raw("fn", "slice"), raw("fn", "builtins.slice")) and 1 <= len(i.args[1]) <= 3 and not i.args[2]:
            x = i.args[1]
            i = raw("slc", *((NONE, x[0]) if len(x) == 1 else x[:2]), x[2] if len(x) > 2 else NONE)
        if i.op == "slc":
            lo, hi, stp = i.args
            if o.op in ("list", "tuple") and all(x.op != "star" for x in o.args) and all(x is NONE or x.op == "n" for x in i.args):
                f = lambda x: None if x is NONE else int(x.args[0])
                return raw(o.op, *o.args[slice(f(lo), f(hi), f(stp))])
            if lo is NONE and hi is NONE and stp is NONE:
                return o
            if lo is ZERO:
                lo = NONE
            if lo.op == "n" and lo.args[0] < 0 and False:
                pass
            if o.op == "slice" and o.args[3] is NONE and stp is NONE and o.args[2] is NONE and lo.op == "n" and o.args[1].op == "n" and lo.args[0] >= 0 and o.args[1].args[0] >= 0 and hi is NONE:
                return raw("slice", o.args[0], add(o.args[1], lo), NONE, NONE)
            return raw("slice", o, lo, hi, stp)
        if o.op == "slice" and i.op == "n" and o.args[3] is NONE and (o.args[1] is NONE or o.args[1].op == "n"):
            lo = ZERO if o.args[1] is NONE else o.args[1]
            if lo.args[0] >= 0 and i.args[0] >= 0:
                return sub(o.args[0], add(lo, i))
        if i.op == "sym" and i.args[0].startswith("%j") and o.op in ("list", "tuple") and len(o.args) == 1 and o.args[0].op == "star":
            return self.domain(o, i, st)[1]
        return sub(o, self.snap(st, i))

    def e_Starred(self, e, st, fr):
        return star(self.evc(e.value, st, fr))

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.evs(e.value, st, fr)
        self.event("yield", "yield", v, e, st, fr)
        return self.unk("yield")

    def e_YieldFrom(self, e, st, fr):
        return self.e_Yield(e, st, fr)

    # ---- comprehensions
    def comp(self, gens, leaf, st, fr):
        """list term of segments produced by the generators."""
        if not gens:
            return leaf(st)
        g = gens[0]
        it = self.content(st, self.iterable(self.ev(g.iter, st, fr), g.iter, st, fr))
        return self.comp_over(it, g, gens, leaf, st, fr)

    def comp_over(self, it, g, gens, leaf, st, fr):
        if self.splittable(it):
            return self.branch(
                it.args[0],
                lambda s: self.snap(s, self.comp_over(it.args[1], g, gens, leaf, s, fr)),
                lambda s: self.snap(s, self.comp_over(it.args[2], g, gens, leaf, s, fr)),
                st, fr,
            )
        lit = self.literal(it, st)
        if lit is not None and len(lit) <= 8:
            out = raw("list")
            for v in lit:
                s2 = State(dict(st.env), st.heap, TRUE)
                mark = len(fr.exits)
                self.assign(g.target, v, s2, fr)
                out = seqcat(out, self.compif(g, gens, leaf, s2, fr))
                self.inner_exits(fr, mark, st, lambda x: x)
            return out
        j = fresh("j")
        dom, elem = self.domain(it, j, st)
        s2 = State(dict(st.env), dict(st.heap), TRUE)
        old = fr.cur
        fr.cur = s2
        mark = len(fr.exits)
        self.assign(g.target, elem, s2, fr)
        self.loops.append(dom)
        try:
            seg = self.compif(g, gens, leaf, s2, fr)
            names = self.stored_names([g.target])
            seg = self.snap(s2, seg, (names, dom))
        finally:
            self.loops.pop()
            fr.cur = old
        self.inner_exits(fr, mark, st, lambda x: self.anyof(dom, j, x))
        return self.extend(raw("list"), dom, j, seg)

    def inner_exits(self, fr, mark, st, cond):
        """An element of a comprehension that raises ends the enclosing function where the comprehension is reached."""
        for k in range(mark, len(fr.exits)):
            e = fr.exits[k]
            g = and_(st.path, cond(e[0]))
            fr.exits[k] = (g,) + e[1:]
            st.path = and_(st.path, not_(g))

    def compif(self, g, gens, leaf, s2, fr):
        c = TRUE
        for x in g.ifs:
            c = and_(c, truth(self.evs(x, s2, fr)))
        mark = len(fr.exits)
        body = self.comp(gens[1:], leaf, s2, fr)
        for k in range(mark, len(fr.exits)):
            fr.exits[k] = (and_(c, fr.exits[k][0]),) + fr.exits[k][1:]
        return ite(c, body, raw("list"))

    def e_ListComp(self, e, st, fr):
        r = self.comp(e.generators, lambda s: raw("list", self.ev(e.elt, s, fr)), st, fr)
        return self.newref(st, r)

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e.generators, lambda s: raw("list", self.ev(e.elt, s, fr)), st, fr)

    def e_SetComp(self, e, st, fr):
        r = self.comp(e.generators, lambda s: raw("list", self.ev(e.elt, s, fr)), st, fr)
        return raw("set", *r.args)

    def e_DictComp(self, e, st, fr):
        r = self.comp(
            e.generators, lambda s: raw("list", kv(self.evs(e.key, s, fr), self.ev(e.value, s, fr))), st, fr
        )
        ents = []
        for s in r.args:
            if s.op == "star" and s.args[0].op == "fmap":
                fm = s.args[0]
                lam = fm.args[1]
                b = lam.args[1] if lam.op == "lam" else None
                if b is not None and b.op == "list":
                    ents.append(dstar(raw("dmap", fm.args[0], raw("lam", lam.args[0], raw("dict", *b.args)))))
                else:
                    ents.append(dstar(raw("dmap", fm.args[0], lam)))
            else:
                ents.append(s)
        return self.newref(st, mkdict(ents))

    # ---- attributes
    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == "attr":
            c = self.typeof(t.args[0])
            if c is not None:
                for k in self.p.mro(c):
                    if t.args[1] in k.methods and k.methods[t.args[1]].is_property:
                        return self.anncls(k.methods[t.args[1]].node.returns, k.module)
                    if t.args[1] in k.ann:
                        return self.anncls(k.ann[t.args[1]], k.module)
        if t.op == "call":
            f, a, k = t.args
            if f.op == "m" and a:
                c = self.typeof(a[0])
                if c is not None:
                    m = self.p.method(c, f.args[0])
                    if m is not None:
                        return self.anncls(m.node.returns, m.module)
            if f.op == "fn":
                r = self.p.resolve(f.args[0])
                if r[0] == "class":
                    return r[1]
                if r[0] == "func":
                    return self.anncls(r[1].node.returns, r[1].module)
        if t.op == "ite":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            return a if a is b else None
        return None

    def anncls(self, ann, module):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        d = dotted_name(ann)
        if d:
            r = self.p.resolve_in(module, d)
            if r and r[0] == "class":
                return r[1]
        return None

    def e_Attribute(self, e, st, fr):
        # module-qualified names
        d = dotted_name(e)
        if d:
            root = d.split(".")[0]
            if root not in st.env and not self.captured(root, fr):
                r = self.p.lookup(fr.module, root)
                if r is not None and r[0] in ("module", "ext", "class"):
                    rr = self.p.resolve_in(fr.module, d)
                    if rr is not None:
                        return self.from_res(rr, d)
        o = self.ev(e.value, st, fr)
        v = self.getattr(o, e.attr, st, fr, e)
        if v.op == "boundm" and isinstance(e.value, ast.Name) and isinstance(e.ctx, ast.Load):
            w = self.wrapper(e, o)
            if w is not None:
                return self.mkfv(w, st, fr)
        return v

    def wrapper(self, e, o):
        """lambda x: o.m(x) for the method o.m handed on as a value, when its text can be followed."""
        if hasattr(e, "_wrapper"):
            return e._wrapper
        c = self.typeof(o)
        m = self.p.method(c, e.attr)
        a = m.node.args
        w = None
        if self.may_inline(m) and not m.is_static and not m.is_classmethod and not m.decorators and not self.overridden(c, e.attr, o) and not (a.defaults or a.vararg or a.kwarg or a.kwonlyargs):
            names = [x.arg for x in (a.posonlyargs + a.args)[1:]]
            text = f"lambda {', '.join(names)}: {e.value.id}.{e.attr}({', '.join(names)})"
            if e.value.id not in names:
                w = ast.parse(text, mode="eval").body
                for x in ast.walk(w):
                    if isinstance(x, (ast.expr, ast.arg)):
                        ast.copy_location(x, e)
                e._wrapper = w
        return w

    def captured(self, name, fr):
        p = fr.parent
        while p is not None:
            f, env, late = p
            if name in env or (f.cur is not None and name in f.cur.env):
                return True
            p = f.parent
        return False

    def getattr(self, o, name, st, fr, node=None):
        if o.op == "ite":
            return ite(o.args[0], self.getattr(o.args[1], name, st, fr, node), self.getattr(o.args[2], name, st, fr, node))
        k = ("f", o, name)
        if k in st.heap:
            return st.heap[k]
        if o.op == "fn":
            r = self.p.resolve(o.args[0])
            if r[0] == "class":
                if name in r[1].methods:
                    return raw("fn", r[1].methods[name].qual)
                for c in self.p.mro(r[1]):
                    if name in c.methods:
                        return raw("fn", c.methods[name].qual)
                return self.class_attr(r[1], name)
            if r[0] == "ext":
                d = canon_ext(r[1] + "." + name)
                return CONSTS.get(d, raw("fn", ALIAS.get(d, d)))
            return raw("attr", o, name)
        if o.op == "call" and o.args[0].op == "fn":
            r = self.p.resolve(o.args[0].args[0])
            if r[0] == "class" and r[1].is_dataclass:
                for kk, v in o.args[2]:
                    if kk == name:
                        return v
            if r[0] == "class" and not r[1].is_dataclass and not o.args[1]:
                fm = self.ctor_fields(r[1], o)
                if fm is not None and name in fm:
                    return fm[name]
        if name == "T":
            return raw("T", self.content(st, o))
        c = self.typeof(o)
        if c is not None:
            m = self.p.method(c, name)
            if m is not None:
                if m.is_property:
                    if not m.is_abstract and self.may_inline(m) and not self.overridden(c, name, o):
                        return self.inline_call(m, {self.first(m): o}, st, fr, node)
                    return raw("attr", o, name)
                return raw("boundm", o, name)
            if o is sym("self") or o.op == "sym":
                for kcls in self.p.mro(c):
                    if name in kcls.attrs and not kcls.is_dataclass and name not in kcls.ann:
                        return self.class_attr(kcls, name)
        if o.op == "ref":
            o = self.content(st, o)
        return raw("attr", o, name)

    def ctor_fields(self, cls, o):
        """Attribute values an instance has right after construction (only never re-assigned ones)."""
        key = ("ctor", o)
        if key in self.constmemo:
            return self.constmemo[key]
        self.constmemo[key] = None
        init = self.p.method(cls, "__init__")
        if init is None or any(k == "**" for k, _ in o.args[2]) or len(self.stack) > MAXDEPTH:
            return None
        later = set()
        for k in self.p.mro(cls):
            for n, m in k.methods.items():
                if n == "__init__":
                    continue
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        later.add(x.attr)
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.attr in ("append", "pop", "update", "clear"):
                        later.add(x.value.attr)
        bind = dict(o.args[2])
        me = fresh("obj")
        self.types[me] = cls
        bind[init.params()[0]] = me
        st = State({}, {}, TRUE)
        n0 = len(self.events)
        fr = Frame(init, init.module, cls)
        try:
            self.inline_call(init, bind, st, fr, None, cls)
        finally:
            del self.events[n0:]
        fm = {}
        for k, v in st.heap.items():
            if isinstance(k, tuple) and k[0] == "f" and k[1] is me and k[2] not in later:
                fm[k[2]] = subst(self.snap(st, v), {me: o})
        self.constmemo[key] = fm
        return fm

    def overridden(self, c, name, o):
        if o is sym("self"):
            return False
        return any(name in k.methods for k in self.p.subclasses(c))

    def first(self, m):
        return m.params()[0]

    # ---- calls
    def event(self, kind, fn, term, node, st, fr, extra=None):
        where = fr.func.qual if fr.func is not None else fr.module.name
        self.events.append(
            Event(kind, fn, term, node, st.path, where, extra, self.lamdepth > 0, tuple(self.loops), tuple(self.ctx))
        )

    def may_inline(self, f):
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.is_abstract:
            return False
        if f.qual in self.stack or len(self.stack) > MAXDEPTH:
            return False
        if f.qual in self.inline or f.name in self.inline:
            return True
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return not f.decorators and gathered(f.node) is not None and f.qual not in self.anchors
        return f.qual not in self.anchors

    def e_Call(self, e, st, fr):
        fn = e.func
        # super().x(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            return self.super_call(e, fn.attr, st, fr)
        d = dotted_name(fn)
        if d:
            root = d.split(".")[0]
            if root not in st.env and not self.captured(root, fr):
                full = None
                r = self.p.lookup(fr.module, root)
                if root in LOGNAMES or (r and r[0] == "ext" and r[1].split(".")[0] in ("logging", "warnings")):
                    if isinstance(fn, ast.Attribute) and fn.attr in ("debug", "info", "warning", "error", "critical", "log", "exception", "warn"):
                        for a in e.args:
                            if not isinstance(a, (ast.Constant, ast.JoinedStr)):
                                self.quiet(a, st, fr)
                        if root != "warnings":
                            return NONE
        if isinstance(fn, ast.Name) and fn.id not in st.env and not self.captured(fn.id, fr):
            r = self.p.lookup(fr.module, fn.id)
            if r is None and fn.id in BUILTINS:
                return self.builtin(fn.id, e, st, fr)
        if isinstance(fn, ast.Attribute):
            # method call on a value?
            if not (d and self.is_global_path(d, st, fr)):
                o = self.ev(fn.value, st, fr)
                return self.method_call(o, fn.attr, fn.value, e, st, fr)
        f = self.ev(fn, st, fr)
        args, kws = self.args(e, st, fr)
        return self.apply(f, args, kws, e, st, fr)

    def quiet(self, a, st, fr):
        n = len(self.events)
        s = st.copy()
        m = len(fr.exits)
        try:
            self.ev(a, s, fr)
        finally:
            del self.events[n:]
            del fr.exits[m:]

    def is_global_path(self, d, st, fr):
        root = d.split(".")[0]
        if root in st.env or self.captured(root, fr):
            return False
        r = self.p.lookup(fr.module, root)
        return r is not None and r[0] in ("module", "ext", "class")

    def args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                c = self.as_iter(self.content(st, self.iterable(self.ev(a.value, st, fr), a, st, fr)))
                if c.op in ("list", "tuple"):
                    args.extend(c.args)
                elif self.arity(c):
                    args.extend(sub(c, num(i)) for i in range(self.arity(c)))
                else:
                    args.append(star(c))
            else:
                args.append(self.ev(a, st, fr))
        kws = []
        for k in e.keywords:
            if k.arg is None:
                c = self.content(st, self.ev(k.value, st, fr))
                kws.extend(self.kwitems(c, st))
            else:
                kws.append((k.arg, self.ev(k.value, st, fr)))
        return args, kws

    def kwitems(self, c, st):
        if c.op == "dict":
            out = []
            for en in c.args:
                if en.op == "kv" and en.args[0].op == "c":
                    out.append((en.args[0].args[1], en.args[1]))
                elif en.op == "dstar":
                    out.extend(self.kwitems(en.args[0], st))
                else:
                    out.append(("**", raw("dict", en)))
            # later explicit keys override earlier ones
            seen = {}
            res = []
            for k, v in out:
                if k != "**" and k in seen:
                    res[seen[k]] = (k, v)
                    continue
                if k != "**":
                    seen[k] = len(res)
                res.append((k, v))
            return res
        return [("**", c)]

    def apply(self, f, args, kws, e, st, fr):
        if f.op == "ite":
            c = f.args[0]
            return self.branch(
                c,
                lambda s: self.apply(f.args[1], args, kws, e, s, fr),
                lambda s: self.apply(f.args[2], args, kws, e, s, fr),
                st, fr,
            )
        if f.op == "fv":
            fv = self.fvs[f.args[0]]
            return self.call_fv(f, fv, args, kws, e, st, fr)
        if f.op == "lam":
            if not kws and len(args) == len(f.args[0]) and not any(a.op == "star" for a in args):
                return apply_lam(f, [self.snap(st, a) for a in args])
        if f.op == "partial":
            pf, pa, pk = f.args
            d = dict(pk)
            d.update(dict(kws))
            return self.apply(pf, list(pa) + list(args), list(d.items()), e, st, fr)
        if f.op == "boundm":
            return self.bound_call(f.args[0], f.args[1], args, kws, e, st, fr)
        if f.op == "delayed":
            return self.apply(f.args[0], args, kws, e, st, fr)
        if f.op == "call" and f.args[0] == raw("fn", "joblib.Parallel") and "return_as" not in dict(f.args[2]) and len(args) == 1 and not kws:
            return self.newref(st, raw("list", star(self.content(st, args[0]))))  # the results in the order of the tasks
        if f.op == "fn":
            q = f.args[0]
            r = self.p.resolve(q) if "." in q else None
            if r and r[0] == "func":
                fu = r[1]
                if fu.cls is not None and not fu.is_static and not fu.is_classmethod and args:
                    return self.bound_call(args[0], fu.name, args[1:], kws, e, st, fr, exact=fu)
                return self.project_call(fu, args, kws, e, st, fr)
            if r and r[0] == "class":
                return self.construct(r[1], args, kws, e, st, fr)
            return self.ext_call(q, args, kws, e, st, fr)
        c = self.typeof(f) if f.op in ("sym", "call", "attr") else None
        if c is not None and self.p.method(c, "__call__") is not None:
            return self.bound_call(f, "__call__", args, kws, e, st, fr)
        a = tuple(self.snap(st, x) for x in args)
        k = tuple(sorted((n, self.snap(st, v)) for n, v in kws if True) if False else self.sortkw(kws, st))
        t = raw("call", self.snap(st, f), a, k)
        self.event("call", "?", t, e, st, fr, extra="unknown")
        return t

    def sortkw(self, kws, st):
        named = sorted(((n, self.snap(st, v)) for n, v in kws if n != "**"), key=lambda x: x[0])
        stars = [(n, self.snap(st, v)) for n, v in kws if n == "**"]
        # ** of an empty dict
        stars = [(n, v) for n, v in stars if not (v.op == "dict" and not v.args)]
        return named + stars

    def call_fv(self, f, fv, args, kws, e, st, fr):
        key = ("call", f)
        if self.stack.count(key) >= 1 or len(self.stack) > MAXDEPTH:
            return raw("call", raw("recfn", fv.func.name), tuple(self.snap(st, a) for a in args), tuple(self.sortkw(kws, st)))
        bind = self.bind_node(fv.node.args, fv.defaults, args, kws, st, fv.func.module if fv.func else None, kwd=getattr(fv, 'kwd', None))
        if bind is None:
            return self.unk("bind")
        self.stack.append(key)
        try:
            out = self.run_fv(fv, bind, st)
        finally:
            self.stack.pop()
        return self.absorb(out, st, fr, e, fv.frame)

    def absorb(self, out, st, fr, e, defframe=None):
        """Fold a callee outcome into the caller state."""
        for g, t, node in out.raises:
            g2 = and_(st.path, g)
            if g2 is FALSE:
                continue
            s2 = st.copy()
            s2.path = g2
            self.exit(fr, s2, "raise", t, e)
        if out.state is None:
            st.path = FALSE
            return raw("bot")
        for k, v in out.state.heap.items():
            if isinstance(k, tuple) and k[0] == "alias" and st.heap.get(k) is not v:
                for n, w in list(st.env.items()):
                    if w is k[1]:
                        st.env[n] = v
            st.heap[k] = v
        st.path = and_(st.path, out.state.path)
        return out.ret

    def bind_node(self, a, defaults, args, kws, st, module=None, skip=0, selfterm=None, kwd=None):
        names = [x.arg for x in a.posonlyargs + a.args]
        bind = {}
        pos = list(args)
        if any(x.op == "star" for x in pos):
            if a.vararg and pos and not names:
                bind[a.vararg.arg] = mklist("tuple", pos)
                pos = []
            elif len(pos) == 1 and not kws:
                c = pos[0].args[0]
                req = len(names) - len(defaults)
                for i, n in enumerate(names[:req]):
                    bind[n] = sub(c, num(i))
                pos = []
            else:
                return None
        if len(pos) > len(names):
            if not a.vararg:
                return None
            bind[a.vararg.arg] = mklist("tuple", pos[len(names):])
            pos = pos[: len(names)]
        elif a.vararg and a.vararg.arg not in bind:
            bind[a.vararg.arg] = raw("tuple")
        for n, v in zip(names, pos):
            bind[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        stars = []
        for n, v in kws:
            if n == "**":
                stars.append(v)
            elif n in names or n in kwonly:
                bind[n] = v
            else:
                extra.append((n, v))
        dflt = {}
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            dflt[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[x.arg] = (kwd or {})[x.arg] if x.arg in (kwd or {}) else d if isinstance(d, T.Term) else self.const_expr(d, module) if module else const(getattr(d, "value", None))
        missing = [n for n in names + kwonly if n not in bind]
        rest = [dstar(v) for v in stars]
        for n in missing:
            k = const(n)
            d = dflt.get(n)
            v = d
            for s in stars:
                if cannot_have(s, k):
                    continue
                v = dictget(s, k, v if v is not None else raw("missing", n))
            if v is None:
                return None
            bind[n] = v
        if a.kwarg:
            ents = [dstar(dminus(v, [const(n) for n in missing])) for v in stars] + [kv(const(n), v) for n, v in extra]
            if len(ents) == 1 and ents[0].op == "dstar":
                content = ents[0].args[0]
            else:
                content = mkdict(ents)
            bind[a.kwarg.arg] = self.newref(st, content)
        elif extra:
            return None
        return bind

    def defaults_of(self, fu):
        return [self.const_expr(d, fu.module) for d in fu.node.args.defaults]

    def project_call(self, fu, args, kws, e, st, fr, selfterm=None, cls=None):
        """Call of a known project function."""
        if self.may_inline(fu):
            full = ([selfterm] if selfterm is not None else []) + list(args)
            bind = self.bind_node(fu.node.args, self.defaults_of(fu), full, kws, st, fu.module)
            if bind is not None:
                return self.inline_call(fu, bind, st, fr, e, cls)
        # opaque
        named, rest = self.opaque_args(fu, args, kws, st, selfterm is not None or (fu.cls is not None and not fu.is_static))
        if selfterm is not None:
            t = raw("call", raw("m", fu.name), (self.snap(st, selfterm),) + rest, named)
        else:
            t = raw("call", raw("fn", fu.qual), rest, named)
        self.event("call", fu.qual, t, e, st, fr, extra="project")
        return t

    def opaque_args(self, fu, args, kws, st, hasself):
        a = fu.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if hasself:
            names = names[1:]
        kwonly = [x.arg for x in a.kwonlyargs]
        bound = {}
        rest = []
        for i, v in enumerate(args):
            v = self.snap(st, v)
            if v.op == "star" or i >= len(names) or rest:
                rest.append(v)
            else:
                bound[names[i]] = v
        stars = []
        for n, v in kws:
            v = self.snap(st, v)
            if n == "**":
                if not (v.op == "dict" and not v.args):
                    stars.append(v)
            else:
                bound[n] = v
        if not rest:
            nd = len(a.defaults)
            allp = [x.arg for x in a.posonlyargs + a.args]
            for n, d in zip(allp[len(allp) - nd:], a.defaults):
                if n in names and n not in bound and all(cannot_have(s, const(n)) for s in stars):
                    bound[n] = self.const_expr(d, fu.module)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None and x.arg not in bound and all(cannot_have(s, const(x.arg)) for s in stars):
                    bound[x.arg] = self.const_expr(d, fu.module)
        named = tuple(sorted(bound.items(), key=lambda kv_: kv_[0])) + tuple(("**", s) for s in stars)
        return named, tuple(rest)

    def inline_call(self, fu, bind, st, fr, e, cls=None):
        f2 = Frame(fu, fu.module, cls or fu.cls)
        a = fu.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in bind:
                self.hint(bind[x.arg], x.annotation, fu.module)
        s2 = State(dict(bind), st.heap, TRUE)
        s2.heap = dict(st.heap)
        self.stack.append(fu.qual)
        n0 = len(self.events)
        try:
            end = self.block(gathered(fu.node) or fu.node.body, s2, f2)
        finally:
            self.stack.pop()
        for ev in self.events[n0:]:
            ev.guard = and_(st.path, ev.guard)
        out = self.finish(f2, end, NONE)
        return self.absorb(out, st, fr, e)

    def super_call(self, e, name, st, fr):
        cls = fr.cls
        args, kws = self.args(e, st, fr)
        if cls is None:
            return self.unk("super")
        selfn = fr.func.params()[0] if fr.func is not None and fr.func.params() else "self"
        selft = st.env.get(selfn, sym("self"))
        defcls = fr.func.cls or cls
        full = self.p.mro(self.typeof(selft) or cls)
        after = full[full.index(defcls) + 1:] if defcls in full else self.p.mro(defcls)[1:]
        for c in after:
            if name in c.methods:
                return self.project_call(c.methods[name], args, kws, e, st, fr, selfterm=selft, cls=fr.cls)
        return NONE if name == "__init__" else self.unk("super")

    def bound_call(self, o, name, args, kws, e, st, fr, exact=None):
        c = self.typeof(o)
        m = exact or (self.p.method(c, name) if c is not None else None)
        if m is None:
            t = raw("call", raw("attr", self.snap(st, o), name), tuple(self.snap(st, a) for a in args), tuple(self.sortkw(kws, st)))
            self.event("call", name, t, e, st, fr, extra="unknown")
            return t
        if m.is_static:
            return self.project_call(m, args, kws, e, st, fr)
        if m.is_classmethod:
            return self.project_call(m, args, kws, e, st, fr, selfterm=o)
        if c is not None and o is not sym("self") and self.overridden(c, name, o):
            sv = m.is_abstract
            named, rest = self.opaque_args(m, args, kws, st, True)
            t = raw("call", raw("m", m.name), (self.snap(st, o),) + rest, named)
            self.event("call", m.qual, t, e, st, fr, extra="project")
            return t
        return self.project_call(m, args, kws, e, st, fr, selfterm=o, cls=c)

    def construct(self, cls, args, kws, e, st, fr):
        if cls.is_dataclass:
            bound = {}
            flds = []
            for c in reversed(self.p.mro(cls)):
                for n, d in c.fields:
                    flds = [x for x in flds if x[0] != n] + [(n, d)]
            for (n, _), v in zip(flds, args):
                bound[n] = self.snap(st, v)
            stars = []
            for n, v in kws:
                if n == "**":
                    stars.append(("**", self.snap(st, v)))
                else:
                    bound[n] = self.snap(st, v)
            for n, d in flds:
                if n not in bound and d is not None and not stars:
                    bound[n] = self.const_expr(d, cls.module)
            t = raw("call", raw("fn", cls.qual), (), tuple(sorted(bound.items())) + tuple(stars))
        else:
            init = self.p.method(cls, "__init__")
            if init is not None:
                named, rest = self.opaque_args(init, args, kws, st, True)
                t = raw("call", raw("fn", cls.qual), rest, named)
            else:
                t = raw("call", raw("fn", cls.qual), tuple(self.snap(st, a) for a in args), tuple(self.sortkw(kws, st)))
        self.event("call", cls.qual, t, e, st, fr, extra="project")
        return t

    # ---- method calls
    def method_call(self, o, name, onode, e, st, fr):
        if o.op == "ite" and name not in ("append", "extend", "update", "pop"):
            c = o.args[0]
            return self.branch(
                c,
                lambda s: self.method_call(o.args[1], name, onode, e, s, fr),
                lambda s: self.method_call(o.args[2], name, onode, e, s, fr),
                st, fr,
            )
        args, kws = self.args(e, st, fr)
        if o.op not in ("ref",):
            fld = st.heap.get(("f", o, name))
            if fld is not None:
                return self.apply(fld, args, kws, e, st, fr)
            c = self.typeof(o)
            if c is not None and self.p.method(c, name) is not None:
                m = self.p.method(c, name)
                if m.is_property:
                    f = self.getattr(o, name, st, fr, e)
                    return self.apply(f, args, kws, e, st, fr)
                return self.bound_call(o, name, args, kws, e, st, fr)
            if o.op in ("fv",):
                return self.unk("fvattr")
            if o.op == "fn":
                f = self.getattr(o, name, st, fr, e)
                return self.apply(f, args, kws, e, st, fr)
        c = self.content(st, o)
        sargs = [self.snap(st, a) for a in args]
        A = sargs[0] if sargs else None
        n = len(sargs)
        # --- dict
        if name == "get" and n >= 1 and not kws:
            return dictget(c, A, args[1] if n > 1 else NONE)
        if name == "setdefault" and n >= 1:
            v = dictget(c, A, args[1] if n > 1 else NONE)
            self.mutate(onode, o, lambda c_: self.setitem(c_, A, self.snap(st, v)), st, fr, e, name)
            return v
        if name == "items" and n == 0:
            return raw("items", c)
        if name == "keys" and n == 0:
            return raw("keys", c)
        if name == "values" and n == 0:
            return raw("values", c)
        if name == "pop" and (self.isdict(c) or (n and A.op == "c" and A.args[0] == "str")):
            v = dictget(c, A, args[1] if n > 1 else None)
            self.mutate(onode, o, lambda c_: dminus(c_, [A]) if is_const(A) else raw("delitem", c_, A), st, fr, e, name)
            return v
        if name == "pop":
            i = A if A is not None else num(-1)
            v = sub(c, i)
            self.mutate(onode, o, lambda c_: raw("delitem", c_, i), st, fr, e, name)
            return v
        if name == "update" and (n <= 1):
            ents = []
            if n:
                ents.append(dstar(A))
            ents += [(dstar(v) if k == "**" else kv(const(k), v)) for k, v in self.sortkw(kws, st)]

            def upd(c_):
                base = list(c_.args) if c_.op == "dict" else [dstar(c_)]
                return mkdict(base + ents)

            if not (o.op == "fn" or (o.op == "call" and not self.isdict(c))):
                self.mutate(onode, o, upd, st, fr, e, name)
                return NONE
        # --- list
        if name == "append" and n == 1:
            v = args[0]
            self.mutate(onode, o, lambda c_: seqcat(c_ if c_.op == "list" else raw("list", star(c_)), raw("list", v)), st, fr, e, name)
            return NONE
        if name == "extend" and n == 1:
            self.mutate(
                onode, o,
                lambda c_: mklist("list", list((c_ if c_.op == "list" else raw("list", star(c_))).args) + [star(self.as_iter(A))]),
                st, fr, e, name,
            )
            return NONE
        if name == "insert" and n == 2:
            self.mutate(
                onode, o,
                lambda c_: mklist("list", [sargs[1], star(c_)]) if A is ZERO else raw("insert", c_, A, sargs[1]),
                st, fr, e, name,
            )
            return NONE
        if name in ("sort", "reverse", "clear", "remove", "popleft", "appendleft", "add", "discard", "popitem", "fill", "move_to_end"):
            self.mutate(onode, o, lambda c_: raw("mut", name, c_, tuple(sargs)), st, fr, e, name)
            return NONE if name not in ("popleft", "popitem") else self.unk(name)
        if name == "copy" and n == 0:
            return self.newref(st, c)
        # --- arrays
        if name == "sum" and n == 0 and not kws:
            return self.total(c)
        if name == "dot" and n == 1:
            return raw("matmul", c, A)
        if name == "tolist" and n == 0:
            return c
        if name == "astype" and n == 1 and A in (raw("fn", "float"), raw("fn", "numpy.float64")):
            return c
        if name == "transpose" and n == 0:
            return raw("T", c)
        if name == "item" and n == 0:
            return c
        if name == "join" and n == 1 and c.op == "c":
            return raw("call", raw("attr", c, name), (A,), ())
        t = raw("call", raw("attr", self.snap(st, c), name), tuple(sargs), tuple(self.sortkw(kws, st)))
        self.event("call", name, t, e, st, fr, extra="unknown")
        return t

    def total(self, c):
        if c.op == "ite":
            return ite(c.args[0], self.total(c.args[1]), self.total(c.args[2]))
        if c.op in ("list", "tuple"):
            r = ZERO
            for s in c.args:
                if s.op == "star":
                    x = s.args[0]
                    if x.op == "fmap" and x.args[1].op == "lam":
                        lam = x.args[1]
                        b = self.seqsum(lam.args[1])
                        if b is not None:
                            r = add(r, mksum(x.args[0], raw("lam", lam.args[0], b)))
                            continue
                    r = add(r, raw("total", x))
                else:
                    r = add(r, s)
            return r
        k, prim = T.content(c)
        if c.op == "poly" and len(c.args[0]) == 1:
            sgn = T.leadsign(prim)
            prim = prim if sgn > 0 else neg(prim)
            return mul(num(k * sgn), raw("total", prim))
        return raw("total", c)

    def seqsum(self, l):
        if l.op == "list":
            return self.total(l)
        if l.op == "ite":
            a, b = self.seqsum(l.args[1]), self.seqsum(l.args[2])
            if a is None or b is None:
                return None
            return ite(l.args[0], a, b)
        return None

    # ---- builtins
    def builtin(self, name, e, st, fr):
        args, kws = self.args(e, st, fr)
        return self.builtin_apply(name, args, kws, e, st, fr)

    def builtin_apply(self, name, args, kws, e, st, fr):
        if (name in ITERATING and args) or (name in ("max", "min") and len(args) == 1):
            k = 1 if name in ("map", "filter") else 0
            args = list(args[:k]) + [self.iterable(a, e, st, fr) for a in args[k:]]
        c = [self.content(st, a) for a in args]
        n = len(args)
        if any(a.op == "star" for a in args):
            return raw("call", raw("fn", name), tuple(self.snap(st, a) for a in args), tuple(self.sortkw(kws, st)))
        if name == "isinstance" and n == 2:
            if c[1].op == "tuple":
                r = FALSE
                for k in c[1].args:
                    r = or_(r, self.inst(self.snap(st, c[0]), k))
                return r
            return self.inst(self.snap(st, c[0]), c[1])
        if name == "len" and n == 1:
            k = self.typeof(args[0]) if args[0].op in ("sym", "call", "attr") else None
            m = self.p.method(k, "__len__") if k is not None else None
            if m is not None and self.may_inline(m):
                return self.bound_call(args[0], "__len__", [], [], e, st, fr)
            return self.length(c[0], st)
        if name in ("list", "tuple"):
            if n == 0:
                return self.newref(st, raw("list")) if name == "list" else raw("tuple")
            x = self.as_iter(c[0])
            if x.op in ("list", "tuple", "set") and x.op != "set":
                r = raw(name, *x.args)
            elif self.lazy(x) is not None:
                r = raw(name, *self.lazy(x).args)
            elif self.arity(x):
                r = raw(name, *[sub(x, num(i)) for i in range(self.arity(x))])
            else:
                r = raw(name, star(x))
            return self.newref(st, r) if name == "list" else r
        if name == "dict":
            ents = [dstar(x) for x in c] + [(dstar(v) if k == "**" else kv(const(k), v)) for k, v in kws]
            return self.newref(st, mkdict(ents))
        if name == "set":
            if n == 0:
                return self.newref(st, raw("set"))
            x = self.as_iter(c[0])
            if x.op in ("list", "tuple"):
                return raw("set", *x.args)
            return raw("set", star(x))
        if name == "float":
            if n == 1:
                x = self.snap(st, c[0])
                if x.op == "c" and x.args[0] == "str":
                    s = x.args[1].lower()
                    if s in ("inf", "+inf", "infinity"):
                        return T.INF
                    if s == "-inf":
                        return neg(T.INF)
                    if s == "nan":
                        return T.NAN
                return x
            return ZERO
        if name == "bool" and n == 1:
            return truth(c[0])
        if name == "int" and n == 1:
            x = self.snap(st, c[0])
            if x.op == "len" or x.op == "n" and x.args[0].denominator == 1:
                return x
            return raw("int", x)
        if name == "str" and n == 1:
            return fstr([self.snap(st, c[0])]) if c[0].op != "c" else const(str(c[0].args[1]))
        if name == "enumerate":
            st0 = args[1] if n > 1 else dict(kws).get("start", ZERO)
            return raw("enumerate", c[0], st0) if st0 is not ZERO else raw("enumerate", c[0])
        if name == "zip":
            return raw("zip", *c)
        if name == "range":
            if n >= 2 and c[0] is ZERO and (n == 2 or c[2] is ONE):
                return raw("range", c[1])
            return raw("range", *c)
        if name == "sum" and n >= 1:
            x = self.lazy(c[0]) or c[0]
            r = self.total(self.snap(st, x))
            return add(r, c[1]) if n > 1 else r
        if name in ("any", "all") and n == 1:
            return self.quant(name, self.snap(st, self.lazy(c[0]) or c[0]))
        if name in ("max", "min"):
            key = dict(kws).get("key")
            if n >= 2 and not kws:
                return extremum(name, [self.snap(st, x) for x in c])
            if n == 1 and not kws:
                x = self.snap(st, self.lazy(c[0]) or c[0])
                if x.op in ("list", "tuple") and x.args and all(s.op != "star" for s in x.args):
                    return extremum(name, list(x.args))
                if x.op == "ite":
                    return ite(x.args[0], self.builtin_apply(name, [x.args[1]], kws, e, st, fr), self.builtin_apply(name, [x.args[2]], kws, e, st, fr))
                return raw("call", raw("fn", "numpy." + name), (x,), ())
        if name == "map" and n >= 2:
            return self.mapcall(args[0], c[1:], e, st, fr)
        if name == "filter" and n == 2:
            return self.filtercall(args[0], c[1], e, st, fr)
        if name == "getattr" and n >= 2:
            nm = self.snap(st, c[1])
            if nm.op == "c":
                if n == 2:
                    return self.getattr(args[0], nm.args[1], st, fr, e)
                o = self.snap(st, args[0])
                return ite(self.has(o, nm), self.getattr(args[0], nm.args[1], st, fr, e), self.snap(st, args[2]))
            return raw("getattr", *[self.snap(st, a) for a in args])
        if name == "hasattr" and n == 2:
            o = self.snap(st, args[0])
            return self.has(o, self.snap(st, c[1]))
        if name == "callable" and n == 1:
            return raw("callable", self.snap(st, c[0]))
        if name == "round" and n == 1:
            return raw("call", raw("fn", "round"), (self.snap(st, c[0]),), ())
        if name == "setattr" and n == 3 and c[1].op == "c":
            st.heap[("f", args[0], c[1].args[1])] = args[2]
            self.event("store", c[1].args[1], self.snap(st, args[2]), e, st, fr, extra=args[0])
            return NONE
        if name == "print":
            return NONE
        if name == "iter" and n == 1:
            return c[0]
        if name in UN and n == 1:
            return UN[name](self.snap(st, c[0]))
        if name in BIN and n == 2:
            return BIN[name](self.snap(st, c[0]), self.snap(st, c[1]))
        if name == "reversed" and n == 1:
            x = c[0]
            if x.op in ("list", "tuple") and all(s.op != "star" for s in x.args):
                return raw("list", *reversed(x.args))
        if name == "next" and n in (1, 2):
            r = self.nextof(c[0], args[1:], e, st, fr)
            if r is not None:
                return r
        t = raw("call", raw("fn", name), tuple(self.snap(st, a) for a in args), tuple(self.sortkw(kws, st)))
        if name in ("open", "next"):
            self.event("call", name, t, e, st, fr, extra="ext")
        return t

    def nextof(self, x, default, e, st, fr):
        """First element of a mapped and filtered collection; without a default, StopIteration where there is none."""
        x = self.snap(st, x)
        if x.op not in ("list", "tuple") or len(x.args) != 1 or x.args[0].op != "star":
            return None
        x = x.args[0].args[0]
        j = fresh("j")
        if x.op != "fmap":
            dom, el = self.domain(x, j, st)
            g = TRUE
        else:
            dom, lam = x.args
            el = apply_lam(lam, [j]) if lam.op == "lam" else None
            if el is None:
                return None
            g = TRUE
            if el.op == "ite":
                if el.args[2].op == "list" and not el.args[2].args:
                    g, el = el.args[0], el.args[1]
                elif el.args[1].op == "list" and not el.args[1].args:
                    g, el = not_(el.args[0]), el.args[2]
            if el.op != "list" or len(el.args) != 1 or el.args[0].op == "star":
                return None
            el = el.args[0]
        some = self.anyof(dom, j, g)
        hit = raw("first", dom, mklam([j], g), mklam([j], el)) if j in syms(g) else apply_lam(mklam([j], el), [ZERO])
        if default:
            return ite(some, hit, self.snap(st, default[0]))
        bad = st.copy()
        bad.path = and_(st.path, not_(some))
        if bad.path is not FALSE:
            self.exit(fr, bad, "raise", raw("raise", "StopIteration"), e)
            st.path = and_(st.path, some)
        return hit

    def inst(self, x, k):
        kn = k.args[0] if k.op == "fn" else T.show(k)
        kn = kn.split(".")[-1]
        table = {
            "n": {"float", "int", "Number", "Real"}, "list": {"list", "Iterable", "Sequence"}, "tuple": {"tuple", "Iterable", "Sequence"},
            "dict": {"dict", "Iterable", "Mapping"},
        }
        if x.op in ("list", "tuple", "dict"):
            return TRUE if kn in table[x.op] else FALSE
        if x is NONE:
            return FALSE if kn != "NoneType" else TRUE
        if x.op == "c" and x.args[0] == "str":
            return TRUE if kn in ("str", "Iterable", "Sequence") else FALSE
        if x.op == "lam":
            return FALSE
        return raw("isinstance", x, kn)

    def length(self, x, st):
        if x.op == "ite":
            return ite(x.args[0], self.length(x.args[1], st), self.length(x.args[2], st))
        if x.op in ("list", "tuple"):
            r = ZERO
            for s in x.args:
                if s.op == "star":
                    y = s.args[0]
                    if y.op == "fmap":
                        b = y.args[1].args[1] if y.args[1].op == "lam" else None
                        if b is not None and b.op == "list" and all(z.op != "star" for z in b.args):
                            r = add(r, mul(num(len(b.args)), self.domlen(y.args[0])))
                            continue
                        r = add(r, raw("len", raw("list", s)))
                    else:
                        r = add(r, self.length(y, st))
                else:
                    r = add(r, ONE)
            return r
        if x.op == "repeat":
            return mul(self.length(x.args[0], st), x.args[1])
        if x.op == "setitem" and not self.isdict(x.args[0]):
            return self.length(x.args[0], st)
        if x.op == "c" and x.args[0] == "str":
            return num(len(x.args[1]))
        if x.op == "dict" and not x.args:
            return ZERO
        return raw("len", self.snap(st, x))

    def domlen(self, d):
        if d.op == "D":
            if d.args[0].op == "range":
                return d.args[0].args[0]
            return raw("len", d.args[0])
        return raw("len", d)

    def arity(self, x):
        """Number of elements of the tuple a project function is annotated to return, or None."""
        if x.op != "call":
            return None
        f = x.args[0]
        name = f.args[1] if f.op == "attr" else f.args[0].rsplit(".", 1)[-1] if f.op in ("m", "fn") else None
        if name is None or f.op == "fn" and not f.args[0].startswith("spey."):
            return None
        found = set()
        for m in self.p.modules.values():
            for fu in list(m.functions.values()) + [y for c in m.classes.values() for y in c.methods.values()]:
                if fu.name == name:
                    r = fu.node.returns
                    r = r.slice if isinstance(r, ast.Subscript) and ast.unparse(r.value).split(".")[-1] in ("Tuple", "tuple") else None
                    found.add(len(r.elts) if isinstance(r, ast.Tuple) and not any(isinstance(y, ast.Constant) and y.value is ... for y in r.elts) else None)
        return found.pop() if len(found) == 1 else None

    def lazy(self, x):
        """list term of a lazy iterable (zip/enumerate/items/values), if expressible."""
        if x.op in ("zip", "enumerate", "items", "values", "keys", "range") or (self.isdict(x)):
            j = fresh("j")
            dom, el = self.domain(x, j, None)
            return self.extend(raw("list"), dom, j, raw("list", el))
        return None

    def quant(self, name, x):
        if x.op in ("list", "tuple", "set"):
            r = TRUE if name == "all" else FALSE
            f = and_ if name == "all" else or_
            for s in x.args:
                if s.op == "star":
                    y = s.args[0]
                    if y.op == "fmap" and y.args[1].op == "lam":
                        b = y.args[1].args[1]
                        g = self.quantbody(name, b)
                        if g is not None:
                            lam = raw("lam", y.args[1].args[0], g)
                            if name == "all":
                                r = and_(r, not_(raw("any", y.args[0], raw("lam", y.args[1].args[0], not_(g)))))
                            else:
                                r = or_(r, raw("any", y.args[0], lam))
                            continue
                    j = raw("bv", T.height(y) + 1)
                    g = truth(sub(y, j))
                    if name == "all":
                        r = and_(r, not_(raw("any", raw("D", y), raw("lam", (j,), not_(g)))))
                    else:
                        r = or_(r, raw("any", raw("D", y), raw("lam", (j,), g)))
                else:
                    r = f(r, truth(s))
            return r
        if isbool(x):
            # elementwise condition: np.any(a > b)
            return not_(raw("any", raw("D", x), not_(x))) if name == "all" else raw("any", raw("D", x), x)
        j = raw("bv", T.height(x) + 1)
        g = truth(sub(x, j))
        if name == "all":
            return not_(raw("any", raw("D", x), raw("lam", (j,), not_(g))))
        return raw("any", raw("D", x), raw("lam", (j,), g))

    def quantbody(self, name, b):
        if b.op == "list":
            return self.quant(name, b)
        if b.op == "ite":
            x, y = self.quantbody(name, b.args[1]), self.quantbody(name, b.args[2])
            if x is None or y is None:
                return None
            return ite(b.args[0], x, y)
        return None

    def mapcall(self, f, its, e, st, fr):
        z = its[0] if len(its) == 1 else raw("zip", *its)
        lit = self.literal(z, st)
        many = len(its) > 1
        if lit is not None and len(lit) <= 8:
            out = []
            for v in lit:
                out.append(self.apply(f, list(v.args) if many else [v], [], e, st, fr))
            return raw("list", *[self.snap(st, o) for o in out])
        j = fresh("j")
        dom, el = self.domain(z, j, st)
        s2 = State(dict(st.env), dict(st.heap), TRUE)
        self.loops.append(dom)
        try:
            v = self.apply(f, list(el.args) if many else [el], [], e, s2, fr)
            v = self.snap(s2, v)
        finally:
            self.loops.pop()
        return self.extend(raw("list"), dom, j, raw("list", v))

    def filtercall(self, f, it, e, st, fr):
        j = fresh("j")
        dom, el = self.domain(it, j, st)
        s2 = State(dict(st.env), dict(st.heap), TRUE)
        c = truth(el) if f is NONE else truth(self.snap(s2, self.apply(f, [el], [], e, s2, fr)))
        return self.extend(raw("list"), dom, j, ite(c, raw("list", el), raw("list")))

    # ---- external functions
    def ext_call(self, q, args, kws, e, st, fr):
        q = ALIAS.get(canon_ext(q), canon_ext(q))
        if q in BUILTINS:
            return self.builtin_apply(q, args, kws, e, st, fr)
        if q in ("functools.partial",):
            return self.mkpartial(args, kws, st, e, fr)
        if q.split(".")[0] == "tqdm" and q.split(".")[-1] == "tqdm" and (args or "iterable" in dict(kws)):
            return args[0] if args else dict(kws)["iterable"]  # a progress bar yields what it is given
        if q == "joblib.delayed" and len(args) == 1 and not kws:
            return raw("delayed", args[0])
        if q in EXTSIG and kws:
            sig = EXTSIG[q]
            kd = dict(kws)
            pos = list(args)
            while len(pos) < len(sig) and sig[len(pos)] in kd:
                pos.append(kd.pop(sig[len(pos)]))
            args, kws = pos, [(k, v) for k, v in kws if k in kd]
        c = [self.content(st, a) for a in args]
        n = len(c)
        s = lambda i: self.snap(st, c[i])
        if (q in UN or q in BIN) and kws:
            kws = [(k, v) for k, v in kws if not (k == "dtype" and v in (raw("fn", "numpy.float64"), raw("fn", "float")))]
        if not kws and not any(a.op == "star" for a in args):
            if q in UN and n == 1:
                return UN[q](s(0))
            if q in BIN and n == 2:
                return BIN[q](s(0), s(1))
            if q == "numpy.sum" and n == 1:
                return self.total(s(0))
            if q in ("numpy.any", "numpy.all") and n == 1:
                return self.quant(q[6:], s(0))
            if q == "numpy.where" and n == 3:
                return ite(truth(s(0)), s(1), s(2))
            if q in ("numpy.max", "numpy.min") and n == 1:
                return self.builtin_apply(q[6:], args, [], e, st, fr)
            if q == "numpy.isclose" and n == 2:
                return raw("truth", raw("call", raw("fn", q), (s(0), s(1)), ()))
            if q in ("numpy.dot", "numpy.matmul") and n == 2:
                return raw("matmul", s(0), s(1))
            if q in ("numpy.float64", "numpy.copy", "copy.copy", "copy.deepcopy") and n == 1:
                x = c[0]
                return self.newref(st, x) if q != "numpy.float64" and args[0].op == "ref" else x
            if q in ("numpy.isnan", "numpy.isinf", "numpy.isfinite") and n == 1:
                return raw("truth", raw("call", raw("fn", q), (s(0),), ()))
            if q == "numpy.vstack" and n == 1:
                pass
        if q == "numpy.fromiter" and n >= 1:
            dt = c[1] if n > 1 else dict(kws).get("dtype", NONE)
            if dt in (raw("fn", "float"), raw("fn", "numpy.float64")):
                return raw("arr", s(0))
            return raw("call", raw("fn", "numpy.array"), (s(0),), (("dtype", dt),))
        if q in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray") and n >= 1:
            kd = dict(kws)
            kd.pop("copy", None)
            dt = kd.pop("dtype", c[1] if n > 1 else None)
            x = s(0)
            if (dt is None or dt in (raw("fn", "float"), raw("fn", "numpy.float64"))) and not kd:
                return self.arr(x)
            return raw("call", raw("fn", "numpy.array"), (x,), tuple(sorted([("dtype", dt)] + list(kd.items()))) if dt is not None else tuple(sorted(kd.items())))
        if q == "numpy.clip" and n == 3:
            x = s(0)
            if c[1] is not NONE:
                x = extremum("max", [x, s(1)])
            if c[2] is not NONE:
                x = extremum("min", [x, s(2)])
            return x
        if q.startswith("scipy.stats.norm.") and n == 1 and not kws:
            x = s(0)
            k = q.rsplit(".", 1)[1]
            cdf = lambda y: raw("call", raw("fn", "scipy.stats.norm.cdf"), (y,), ())
            if k in ("cdf", "sf"):
                y = x if k == "cdf" else neg(x)
                if T.leadsign(y) < 0 and y.op in ("poly", "n"):
                    return subtract(ONE, cdf(neg(y)))
                return cdf(y)
            if k == "isf":
                return neg(raw("call", raw("fn", "scipy.stats.norm.ppf"), (x,), ()))
        if q.startswith("scipy.stats.chi2.") and n == 2 and not kws:
            k = q.rsplit(".", 1)[1]
            if k == "isf":
                return raw("call", raw("fn", "scipy.stats.chi2.ppf"), (subtract(ONE, s(0)), s(1)), ())
            if k == "sf":
                return subtract(ONE, raw("call", raw("fn", "scipy.stats.chi2.cdf"), (s(0), s(1)), ()))
        t = raw("call", raw("fn", q), tuple(self.snap(st, a) for a in args), tuple(self.sortkw(kws, st)))
        self.event("call", q, t, e, st, fr, extra="ext")
        return t

    def arr(self, x):
        return x if x.op not in ("list", "tuple") else raw("arr", x)

    def mkpartial(self, args, kws, st, e=None, fr=None):
        f = args[0]
        if f.op == "fv":
            fv = self.fvs[f.args[0]]
            # build lambda over the remaining positional parameters
            names = [a.arg for a in fv.node.args.args]
            given = dict(zip(names, args[1:]))
            for k, v in kws:
                given[k] = v
            if all(k in names for k in given):
                node = fv.node
                rem = [n for n in names if n not in given]
                ps = [fresh("p") for _ in rem]
                bind = dict(zip(rem, ps))
                bind.update(given)
                key = ("close", f)
                if key in self.stack:
                    return self.unk("partial")
                self.stack.append(key)
                self.lamdepth += 1
                try:
                    out = self.run_fv(fv, bind, st)
                    body = self.snap(out.state, out.value()) if out.state is not None else out.value()
                finally:
                    self.stack.pop()
                    self.lamdepth -= 1
                return mklam(ps, body) if ps else raw("lam", (), body)
        if f.op == "fn" and f.args[0].startswith("spey.") and fr is not None:
            r = self.p.resolve(f.args[0])
            if r and r[0] == "func" and r[1].cls is None and not r[1].decorators and self.may_inline(r[1]):
                a = r[1].node.args
                names = [x.arg for x in a.posonlyargs + a.args]
                given = dict(zip(names, args[1:]))
                given.update({k: v for k, v in kws if k != "**"})
                if all(k in names for k in given) and not (a.vararg or a.kwarg or a.kwonlyargs or a.defaults) and all(k != "**" for k, _ in kws) and not any(x.op == "star" for x in args):
                    rem = [n for n in names if n not in given]
                    ps = [fresh("p") for _ in rem]
                    bind = dict(zip(rem, ps))
                    bind.update(given)
                    s2, n, m = st.copy(), len(self.events), len(fr.exits)
                    self.lamdepth += 1
                    try:
                        body = self.project_call(r[1], [bind[x] for x in names], [], e, s2, fr)
                        body = self.snap(s2, body)
                        raised = len(fr.exits) > m
                    finally:
                        self.lamdepth -= 1
                        del self.events[n:]
                        del fr.exits[m:]
                    if not raised:
                        return mklam(ps, body) if ps else raw("lam", (), body)
        return raw("partial", f, tuple(args[1:]), tuple(sorted(kws, key=lambda x: x[0])))


# ---------------------------------------------------------------------- equivalence
CLASSES_EXCL = {"dict", "float", "str", "ndarray", "list", "tuple", "int", "set", "bool", "slice"}


def _conds(t, bound=frozenset(), seen=None):
    """Decision atoms of t usable for splitting (no free bound variables)."""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        a = t.args[0]
        if not _free_bv(a):
            yield a
        yield from _conds(a, bound, seen)
    elif T.isbool(t) and t.op != "c" and not _free_bv(t):
        yield t
    for s in T.subterms(t):
        yield from _conds(s, bound, seen)


def _free_bv(t):
    return any(s.op == "bv" for s in syms(t))


def implied(atom, val):
    """Other atoms fixed by atom=val (as function other->bool|None)."""

    def f(o):
        if o is atom:
            return val
        if atom.op in ("lt0", "eq0") and o.op in ("lt0", "eq0"):
            p, q = atom.args[0], o.args[0]
            if atom.op == "lt0" and o.op == "lt0":
                if q is neg(p) and val:
                    return False
                # thresholds: p = x - a, q = x - b
                d = subtract(p, q)
                if d.op == "n":
                    # p = q + d
                    if val and d.args[0] >= 0:
                        return True  # q = p - d < 0
                    if not val and d.args[0] <= 0:
                        return False
                d = add(p, q)
                if d.op == "n" and val and d.args[0] >= 0:
                    # q = d - p > d >= 0
                    return False
            elif atom.op == "lt0" and o.op == "eq0":
                if (q is p or q is neg(p)) and val:
                    return False
            elif atom.op == "eq0" and o.op == "lt0" and val:
                if q is p or q is neg(p):
                    return False
                for s in (1, -1):
                    d = subtract(q, p if s == 1 else neg(p))
                    if d.op == "n":
                        return d.args[0] < 0
            elif atom.op == "eq0" and o.op == "eq0" and val:
                d = subtract(p, q)
                if d.op == "n" and d is not ZERO:
                    return False
        if atom.op == "eq" and o.op == "eq" and val:
            a, b = atom.args
            for x, k in ((a, b), (b, a)):
                if is_const(k):
                    for y, k2 in ((o.args[0], o.args[1]), (o.args[1], o.args[0])):
                        if y is x and is_const(k2) and k2 is not k:
                            if {k.args[0], k2.args[0]} == {"str", "enum"}:
                                return None
                            return False
        if atom.op == "is" and val and NONE in atom.args:
            x = atom.args[0] if atom.args[1] is NONE else atom.args[1]
            if o.op == "isinstance" and o.args[0] is x:
                return False
            if o.op == "truth" and o.args[0] is x:
                return False
            if o.op == "eq" and x in o.args and any(is_const(k) for k in o.args):
                return False
            if o.op == "callable" and o.args[0] is x:
                return False
        if o.op == "is" and NONE in o.args:
            x = o.args[0] if o.args[1] is NONE else o.args[1]
            if val and atom.op in ("isinstance", "truth", "callable") and atom.args[0] is x:
                return False
            if val and atom.op == "eq" and x in atom.args and any(is_const(k) for k in atom.args):
                return False
        if atom.op == "isinstance" and o.op == "isinstance" and atom.args[0] is o.args[0] and val:
            if {atom.args[1], o.args[1]} <= CLASSES_EXCL and atom.args[1] != o.args[1]:
                if {atom.args[1], o.args[1]} == {"int", "bool"}:
                    return None
                return False
            if o.args[1] == "Iterable" and atom.args[1] in ("list", "tuple", "dict", "ndarray", "str"):
                return True
        return None

    return f


def assign(t, atom, val):
    f = implied(atom, val)
    m = {}
    for s in T.walk(t):
        if s.op in T.BOOLOPS:
            r = f(s)
            if r is not None:
                m[s] = TRUE if r else FALSE
    if atom.op == "in" and not val and is_const(atom.args[0]):
        k, d = atom.args
        for s in T.walk(t):
            if s.op == "dminus" and s.args[0] is d and k in s.args[1]:
                m[s] = T.dminus(d, [x for x in s.args[1] if x is not k])
            elif s.op == "dget" and s.args[0] is d and s.args[1] is k:
                m[s] = s.args[2]
    if atom.op == "in" and val:
        k, d = atom.args
        for s in T.walk(t):
            if s.op == "dget" and s.args[0] is d and s.args[1] is k:
                m[s] = T.sub(d, k)
    if atom.op == "is" and val and NONE in atom.args:
        x = atom.args[0] if atom.args[1] is NONE else atom.args[1]
        if x is not NONE and x.op in ("sym", "dget", "attr"):
            m2 = dict(m)
            m2[x] = NONE
            return subst(t, m2)
    if atom.op == "eq" and val:
        a, b = atom.args
        if b.op == "c" and a.op in ("sym", "dget") and b.args[0] in ("str",):
            m[a] = b
        elif a.op == "c" and b.op in ("sym", "dget") and a.args[0] in ("str",):
            m[b] = a
    if atom.op == "truth" and not val:
        x = atom.args[0]
        for s in T.walk(t):
            if s.op in ("any", "sum", "fold", "fmap") and (s.args[0] is x.args[0] if x.op == "nonempty" else s.args[0].op == "D" and s.args[0].args[0] is x):
                m[s] = {"any": T.FALSE, "sum": ZERO, "fold": s.args[1], "fmap": raw("list")}[s.op]
            elif s.op == "call" and any(k == "**" and v is x for k, v in s.args[2]):
                m[s] = raw("call", s.args[0], s.args[1], tuple((k, raw("dict") if k == "**" and v is x else v) for k, v in s.args[2]))
            elif s.op == "dstar" and s.args[0] is x:
                m[s] = dstar(raw("dict"))
    t = subst(t, m) if m else t
    if atom.op == "isinstance" and val and str(atom.args[1].args[0] if isinstance(atom.args[1], T.Term) and atom.args[1].args else atom.args[1]) == "dict":
        x = atom.args[0]  # iterating over a dictionary gives its keys
        m = {}
        for s in T.walk(t):
            if (s.op in ITERATION or s.op in ("first", "last")) and s.args[0].op == "D" and s.args[0].args[0] is x:
                new = []
                for l in s.args:
                    if isinstance(l, T.Term) and l.op == "lam":
                        ps = [fresh("e") for _ in l.args[0]]
                        l = mklam(ps, subst(T.apply_lam(l, ps), {raw("sub", x, ps[0]): raw("key", x, ps[0])}))
                    new.append(l)
                if any(a is not b for a, b in zip(new, s.args)):
                    m[s] = T.rebuild(s.op, new)
        t = subst(t, m) if m else t
    if atom.op == "any" and not val and atom.args[1].op == "lam" and not any(x.op == "lam" for x in T.walk(atom.args[1].args[1])):
        t = nowhere(t, atom.args[0], atom.args[1])
    return t


def nowhere(t, dom, lam):
    """t given that lam holds for no element of dom: iterations over dom simplified accordingly."""
    m = {}
    for s in T.walk(t):
        if s.op not in ITERATION or s.args[0] is not dom:
            continue
        bodies = [x for x in s.args[1:] if isinstance(x, T.Term) and x.op == "lam"]
        if len(bodies) != 1:
            continue
        l = bodies[0]
        ps = [fresh("e") for _ in l.args[0]]
        p = T.apply_lam(lam, [ps[0]])
        b = T.apply_lam(l, ps)
        b2 = given(b, p)
        if b2 is not b:
            m[s] = T.rebuild(s.op, [mklam(ps, b2) if x is l else x for x in s.args])
    t = subst(t, m) if m else t
    if dom.op == "D":
        # nor for an element that is looked at by its position
        at = {s.args[1] for s in T.walk(t) if s.op == "sub" and s.args[0] is dom.args[0] and s.args[1].op == "n"}
        for i in sorted(at, key=lambda x: x.id)[:3]:
            t = given(t, T.apply_lam(lam, [i]))
    return t


def given(t, p):
    """t with its conditions simplified by p being false."""
    if p.op != "ite" and p.op not in T.BOOLOPS:
        return t
    atoms = {x for x in T.walk(p) if x.op in T.BOOLOPS}
    k = {}
    for x in T.walk(t):
        if (x.op == "ite" or x.op in T.BOOLOPS) and atoms & set(T.walk(x)):
            y = without(ite(p, NEVER, x))
            if y is not NEVER and y is not x:
                k[x] = y
    return subst(t, k) if k else t


NEVER = sym("NEVER")


def without(t):
    """t with the branches that cannot happen removed."""
    if t.op != "ite":
        return t
    a, b = without(t.args[1]), without(t.args[2])
    if a is NEVER:
        return b
    if b is NEVER:
        return a
    return t if a is t.args[1] and b is t.args[2] else ite(t.args[0], a, b)


ANY = sym("ANY")


class Diff:
    def __init__(self, status, path=(), a=None, b=None):
        self.status = status  # "same" | "diff" | "undecided"
        self.path = path
        self.a = a
        self.b = b

    def describe(self):
        p = " and ".join(f"{T.show(x, 5)}{'' if v else ' is false'}" for x, v in self.path) or "always"
        return f"when {p}: code gives {T.show(self.a, 6)} ; required {T.show(self.b, 6)}"


def split(t, leafs=None):
    pass


BUDGET = 4000
DEADLINE = 0  # a check that still has comparisons to make when its time is nearly up leaves them undecided


def equiv(a, b, ignore_raise=True, path=(), budget=None):
    """Are the two values equal under every assignment of the decision atoms?"""
    if budget is None:
        budget = [BUDGET, {}]
    elif len(budget) == 1:
        budget.append({})
    if len(budget) == 2:
        budget.append(0)
    key = (a, b, ignore_raise)
    hit = budget[1].get(key)
    if hit is None or hit[0] != "same" and infeasible(path + tuple(hit[1])):
        taint = budget[2]
        d = equiv0(a, b, ignore_raise, path, budget)
        if budget[0] >= 0 and budget[2] == taint:
            budget[1][key] = (d.status, d.path[len(path):], d.a, d.b)
        return d
    return Diff(hit[0], path + tuple(hit[1]), hit[2], hit[3])


def sizes(path, n):
    """Lengths of a collection the decisions leave possible (up to a bound beyond their constants)."""
    some = truth(n.args[0])
    out = []
    for k in range(12):
        for x, v in path:
            if x is some:
                y = T.TRUE if k else T.FALSE
            elif x.op in ("lt0", "eq0") and n in T.walk(x):
                y = subst(x, {n: num(k)})
            else:
                continue
            if y is (T.FALSE if v else T.TRUE):
                break
        else:
            out.append(k)
    return out


_infeasible = {}


def infeasible(path):
    """Decisions that exclude each other although none does by itself."""
    if len(path) < 2 or len(path) > 40:
        return False
    r = _infeasible.get(path)
    if r is None:
        r = False
        for i, (x, v) in enumerate(path):
            for j, (y, w) in enumerate(path):
                if i != j and x not in (T.TRUE, T.FALSE):
                    x = assign(x, y, w)
            if x is (T.FALSE if v else T.TRUE):
                r = True
                break
        r = r or any(not sizes(path, n) for n in {y for x, _ in path if x.op in ("lt0", "eq0") for y in T.walk(x) if y.op == "len"})
        _infeasible[path] = r
    return r


def innermost(atom, a, b):
    """A condition inside the conditions about to be decided comes first: two of them may be the same once it is."""
    for t in (atom, a.args[0] if a.op == "ite" else a, b.args[0] if b.op == "ite" else b):
        if T.isbool(t):
            for x in t.args:
                for c in _inner(x):
                    if c is not atom:
                        return innermost(c, T.TRUE, T.TRUE)
    return atom


_inmost = {}


def _inner(x):
    """Decision atoms below a term that is not itself a decision."""
    if isinstance(x, tuple):
        return [c for y in x for c in _inner(y)]
    if not isinstance(x, T.Term):
        return []
    if x not in _inmost:
        _inmost[x] = [c for y in T.walk(x) if y.op == "ite" for c in [y.args[0]] if not _free_bv(c)]
    return _inmost[x]


def equiv0(a, b, ignore_raise, path, budget):
    if a is b or b is ANY or a is ANY:
        return Diff("same")
    if ignore_raise and (a.op in ("raise", "bot") or b.op in ("raise", "bot")):
        return Diff("same")
    if a.op == "raise" and b.op == "raise" and "ANY" in (a.args[0], b.args[0]):
        return Diff("same")
    budget[0] -= 1
    if budget[0] < 0 or DEADLINE and time.monotonic() > DEADLINE:
        return Diff("undecided", path, a, b)
    atom = None
    for t in (a, b):
        if t.op == "ite":
            atom = t.args[0]
            break
    if atom is None and (T.isbool(a) or T.isbool(b)):
        for t in (a, b):
            if T.isbool(t) and t.op != "c":
                atom = t
                break
    if atom is not None and not _free_bv(atom):
        return _branches(a, b, innermost(atom, a, b), ignore_raise, path, budget)
    # congruence
    d = unrolled(a, b, ignore_raise, path, budget) or congruent(a, b, ignore_raise, path, budget)
    if d.status == "same":
        return d
    # nested decisions
    for t in (a, b):
        for c in _conds(t):
            return _branches(a, b, c, ignore_raise, path, budget)
    if d.status == "undecided" or T.has_unk(a) or T.has_unk(b) or (d.a is a and d.b is b or a.op == b.op and a.op in ITERATION and a.args[0] is not b.args[0]) and reshaped(a, b):
        return Diff("undecided", path, a, b)
    return Diff("diff", path, a, b)


ITERATION = ("fold", "bfold", "fmap", "any", "sum", "dmap", "total")
ARRAYS = set("""outer einsum tensordot multiply meshgrid vectorize apply_along_axis fromfunction fromiter broadcast_to cumsum indices ix_ expand_dims where
product map accumulate starmap triu tril subtract add divide true_divide mean average count_nonzero sum prod cumprod nansum nanmean dot inner vdot matmul
trace any all searchsorted digitize histogram bincount unique argsort sort argmin argmax cov corrcoef diagonal diag add.reduce add.reduceat reduceat nonzero
flatnonzero select piecewise choose take put fill_diagonal column_stack stack vstack hstack block concatenate linalg.multi_dot atleast_2d atleast_1d
kron isin in1d nanmin nanmax median quantile percentile full full_like zeros_like ones_like repeat tile fsum chain chain.from_iterable permutations
combinations combinations_with_replacement zip_longest groupby Counter""".split())


def vocabulary(t):
    """How a value is put together: the number of loops of each kind, and the array operations it uses."""
    v = t._vocab
    if v is None:
        loops, arrays = {}, set()
        for x in T.walk(t):
            if x.op in ITERATION:
                loops[x.op] = loops.get(x.op, 0) + 1
            elif x.op in ("fn", "ext") and isinstance(x.args[0], str) and x.args[0].split(".", 1)[0] in ("numpy", "itertools", "math", "collections", "operator") and x.args[0].split(".", 1)[-1] in ARRAYS:
                arrays.add(x.args[0])
            elif x.op == "matmul":
                arrays.add("numpy.matmul")
        v = t._vocab = (loops, frozenset(arrays))
    return v


PLAIN = {"raise": 1, "bot": 1, "c": 2, "n": 3, "tuple": 4, "dict": 5, "fstr": 6, "lam": 7}


def reshaped(a, b):
    """The code computes over a collection in another way than the required text (another kind of loop, or whole-array operations): nothing is proved either way."""
    if PLAIN.get(a.op) != PLAIN.get(b.op):
        return False
    la, aa = vocabulary(a)
    lb, ab = vocabulary(b)
    if any(n > lb.get(k, 0) for k, n in la.items()):
        return True
    return bool(lb and aa - ab)


def unrolled(a, b, ignore_raise, path, budget):
    """A written-out list against one produced from a collection of unknown length: compared element by element."""
    if a.op == b.op and a.op in ("list", "tuple") and len(b.args) == 1 and b.args[0].op == "star" and b.args[0].args[0].op == "fmap" and a.args and all(x.op != "star" for x in a.args):
        lam = b.args[0].args[0].args[1]
        if lam.op == "lam" and len(lam.args[0]) == 1:
            for k, x in enumerate(a.args):
                y = apply_lam(lam, [T.num(k)])
                if y.op != "list" or len(y.args) != 1:
                    return None
                d = equiv(x, y.args[0], ignore_raise, path, budget)
                if d.status != "same":
                    return d
            return Diff("undecided", path, a, b)
    return None


def _branches(a, b, atom, ignore_raise, path, budget):
    """Case split; a condition the analysis could not resolve proves nothing on one side alone."""
    und, n = None, 0
    last = None
    for val in (True, False):
        d = equiv(assign(a, atom, val), assign(b, atom, val), ignore_raise, path + ((atom, val),), budget)
        if d.status != "same" and len(d.path) == len(path) + 1 and infeasible(d.path):
            budget[2] += 1  # this answer holds for these decisions only
            d = Diff("same")
        if d.status == "diff":
            if not T.has_unk(atom):
                return d
            n += 1
            last = d
        elif d.status == "undecided":
            und = d
    if n == 2:
        return last
    if n:
        return Diff("undecided", path, a, b)
    return und or Diff("same")


def congruent(a, b, ignore_raise, path, budget):
    if a is b or a is ANY or b is ANY:
        return Diff("same")
    for x, y in ((a, b), (b, a)):
        if x.op == "tuple" and len(x.args) > 1 and y.op in ("call", "tuple"):
            # (v[0], v[1]) repacks the tuple v that was unpacked
            v = y.args[0].args[0] if y.op == "tuple" and len(y.args) == 1 and y.args[0].op == "star" else y
            if v.op == "call" and all(e.op == "sub" and e.args[0] is v and e.args[1] is num(i) for i, e in enumerate(x.args)):
                return Diff("same")
    if a.op == "lam" and b.op == "lam" and len(a.args[0]) == len(b.args[0]):
        ps = [fresh("e") for _ in a.args[0]]
        return equiv(apply_lam(a, ps), apply_lam(b, ps), ignore_raise, path, budget)
    if a.op == "lam" or b.op == "lam":
        # eta
        l, o = (a, b) if a.op == "lam" else (b, a)
        if len(l.args[0]) == 1 and o.op in ("fn", "attr", "boundm", "call", "sub", "sym"):
            p = fresh("e")
            return equiv(apply_lam(l, [p]), raw("call", o, (p,), ()), ignore_raise, path, budget) if a is l else equiv(
                raw("call", o, (p,), ()), apply_lam(l, [p]), ignore_raise, path, budget
            )
    if a.op != b.op and "bfold" in (a.op, b.op):
        return Diff("undecided", path, a, b)
    if a.op == "bfold":
        return _foldcong(a, b, ignore_raise, path, budget)
    if a.op != b.op or a.op in ("n", "c", "sym", "bv", "unk", "fn", "ext", "softloop"):
        return Diff("undecided" if (T.has_unk(a) or T.has_unk(b)) else "diff", path, a, b)
    if a.op == "poly":
        pa, pb = a.args[0], b.args[0]
        if len(pa) != len(pb):
            return Diff("undecided" if (T.has_unk(a) or T.has_unk(b)) else "diff", path, a, b)
        # match monomials up to congruence of atoms
        restb = list(pb)
        for m, c in pa:
            hit = None
            for k, (m2, c2) in enumerate(restb):
                if c == c2 and len(m) == len(m2) and _monocong(m, m2, ignore_raise, path, budget):
                    hit = k
                    break
            if hit is None:
                return Diff("undecided" if (T.has_unk(a) or T.has_unk(b)) else "diff", path, a, b)
            restb.pop(hit)
        return Diff("same")
    if a.op == "dict" and b.op == "dict" and len(a.args) == len(b.args):
        pass
    return _argcong(a.args, b.args, ignore_raise, path, budget, a, b)


def _foldcong(a, b, ir, path, budget):
    """Folds over several accumulators agree up to the order of the secondary accumulators."""
    import itertools

    n = len(a.args[1])
    if n != len(b.args[1]):
        return Diff("undecided", path, a, b)
    d = equiv(a.args[0], b.args[0], ir, path, budget)
    if d.status != "same":
        return d
    ps = [fresh("e") for _ in range(n + 1)]
    x = apply_lam(a.args[2], ps)
    first = None
    for perm in itertools.permutations(range(1, n)):
        o = (0,) + perm
        y = apply_lam(b.args[2], [ps[0]] + [ps[1 + o.index(i)] for i in range(n)])
        ya = y.args if y.op == "tuple" and x.op == "tuple" and len(y.args) == len(x.args) == n + 1 else None
        if ya is None:
            return Diff("undecided", path, a, b)
        y = raw("tuple", ya[0], *[ya[1 + k] for k in o])
        d = _argcong(a.args[1], tuple(b.args[1][k] for k in o), ir, path, budget, a, b)
        if d.status == "same":
            d = equiv(x, y, ir, path, budget)
        if d.status == "same":
            return d
        if first is None or (d.status == "undecided" and first.status == "diff"):
            first = d
    return first


def _monocong(m, m2, ir, path, budget):
    rest = list(m2)
    for x, e in m:
        hit = None
        for k, (y, e2) in enumerate(rest):
            if e == e2 and (x is y or (x.op == y.op and equiv(x, y, ir, path, budget).status == "same")):
                hit = k
                break
        if hit is None:
            return False
        rest.pop(hit)
    return True


def _argcong(x, y, ir, path, budget, a, b):
    if isinstance(x, T.Term) and isinstance(y, T.Term):
        return equiv(x, y, ir, path, budget)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return Diff("undecided" if (T.has_unk(a) or T.has_unk(b)) else "diff", path, a, b)
        und = None
        for u, v in zip(x, y):
            d = _argcong(u, v, ir, path, budget, a, b)
            if d.status == "diff":
                return d
            if d.status == "undecided":
                und = d
        return und or Diff("same")
    return Diff("same") if x == y else Diff("diff", path, a, b)


_E0 = Engine(None)
T.REBUILD["total"] = lambda x: _E0.total(x)
T.REBUILD["len"] = lambda x: _E0.length(x, State({}, {}, TRUE))
