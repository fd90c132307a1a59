"""Failures of back ends and optional features (S13)."""
import ast
import builtins

from . import prop
from .state import Functions, loc, own_nodes
from .. import terms as T
from ..paths import Machine, State, Overflow, dotted, is_generator

EXEMPT = ("spey.system", "spey.base.utils", "spey.multiparameter", "spey.about", "spey._version")
# optional feature -> what a missing one must become
CONTINUE = {"negative_loglikelihood", "minimize_negative_loglikelihood", "asimov_negative_loglikelihood", "minimize_asimov_negative_loglikelihood"}
CONVERT = {"get_sampler": "MethodNotAvailable", "get_hessian_logpdf_func": "MethodNotAvailable", "combine": "CombinerNotAvailable"}
# (exception, callee) pairs for which going on is documented
ALLOWED = {("NotImplementedError", c) for c in CONTINUE | set(CONVERT) | {"get_objective_function"}}
ALLOWED |= {("MethodNotAvailable", "sigma_mu_from_hessian"), ("MethodNotAvailable", "sigma_mu"), ("NegativeExpectedYields", "likelihood"),
            ("AsimovTestStatZero", "compute_teststatistics"), ("AsimovTestStatZero", "compute_asymptotic_confidence_level"), ("NotImplementedError", "%objective")}
NAMED = ("NotImplementedError", "MethodNotAvailable", "NegativeExpectedYields", "AsimovTestStatZero")
STARTING = ("UnCorrStatisticsCombiner.maximize_likelihood", {"maximize_likelihood", "sigma_mu"})


def hierarchy(project, name, cache={}):
    """names of all base classes of an exception class"""
    k = (id(project), name)
    if k in cache:
        return cache[k]
    out = [name]
    b = getattr(builtins, name, None)
    if isinstance(b, type):
        out = [c.__name__ for c in b.__mro__]
    else:
        m = project.modules.get("spey.system.exceptions")
        for x in (m.tree.body if m is not None else ()):
            if isinstance(x, ast.ClassDef) and x.name == name:
                for base in x.bases:
                    out += hierarchy(project, dotted(base).split(".")[-1])
        if len(out) == 1:
            out += ["Exception", "BaseException"]
    cache[k] = set(out)
    return cache[k]


def exc_name(ex):
    """class name of an exception value"""
    x = ex[1]
    if x == "any":
        return None
    if x[0] == "call" and x[2][0] == "glob":
        return x[2][1].split(".")[-1]
    if x[0] == "glob":
        return x[1].split(".")[-1]
    if x[0] == "alloc" and not isinstance(x[2], str):
        return x[2].name
    if x[0] == "class":
        return x[1].name
    if x[0] == "call" and x[2][0] == "class":
        return x[2][1].name
    return None


class FaultMachine(Machine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.armed = []

    def faults(self):
        """exceptions the guarded regions around the current call can absorb"""
        out = []
        for ts in self.armed:
            if ts is None or any(t in ("Exception", "BaseException") for t in ts):
                out += list(NAMED) + ["some other error"]
            for t in ts or ():
                out += [n for n in NAMED if t in hierarchy(self.project, n)]
                if t not in ("Exception", "BaseException"):
                    out.append(t)
        return list(dict.fromkeys(out))

    risk = frozenset()
    prune = False

    def block(self, stmts, states, scope, mod):
        """states of the analysed function's own body that can no longer matter end at once"""
        if not self.prune or len(self.stack) != 1 or stmts is not self.stack[0].body or self.armed:
            return super().block(stmts, states, scope, mod)
        out, cur = [], states
        for i, n in enumerate(stmts):
            rest = [x for y in stmts[i:] for x in ast.walk(y)]
            faults = any(isinstance(x, (ast.Try, ast.With)) or (isinstance(x, ast.Attribute) and (x.attr in self.risk or (isinstance(x.value, ast.Attribute) and x.value.attr == "backend"))) or (isinstance(x, ast.Name) and x.id in self.risk) for x in rest)
            raising = any(isinstance(x, (ast.Raise, ast.Assert)) or (isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) in self.risk) for x in rest)
            nxt = []
            for s in cur:
                thrown = any(e.kind == "thrown" for e in s.events)
                if (not thrown and not faults) or (thrown and not raising):
                    out.append((s, ("return", ("const", None))))
                else:
                    nxt.append(s)
            cur = []
            for s in self.merge(nxt):
                for s2, o in self.stmt(n, s, scope, mod):
                    if o is None:
                        cur.append(s2)
                    else:
                        out.append((s2, o))
        return out + [(s, None) for s in cur]

    def types(self, e, s, scope, mod):
        """class names in a handler type, None if unknown"""
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                r = self.types(x, s, scope, mod)
                if r is None:
                    return None
                out += r
            return out
        if isinstance(e, ast.Name):
            v = self.lookup(s, scope, e.id, mod)
            if v[0] == "class":
                return [v[1].name]
            if v[0] == "tuple":
                out = [exc_name((0, x)) for x in v[1]]
                return None if None in out else out
            if v[0] == "glob":
                last = v[1].split(".")[-1]
                vals = mod.assigns.get(e.id, [])
                if len(vals) == 1:
                    return self.types(vals[0], s, (), mod)
                return [last]
            return None
        d = dotted(e)
        return [d.split(".")[-1]] if d else None

    def matches(self, exc, names):
        n = exc_name(exc)
        if n is None or names is None:
            return None
        return any(x in hierarchy(self.project, n) for x in names)

    def s_Try(self, n, s, scope, mod):
        res = []
        ts = [self.types(h.type, s, scope, mod) if h.type is not None else None for h in n.handlers] + [None] * bool(n.finalbody)
        self.armed.append(None if None in ts else [t for x in ts for t in x])
        try:
            body = self.block(n.body, [s], scope, mod)
        finally:
            self.armed.pop()
        for s2, o in body:
            if o is None:
                if n.orelse:
                    res.extend(self.block(n.orelse, [s2], scope, mod))
                else:
                    res.append((s2, None))
            elif o[0] == "raise":
                pending = True
                for h in n.handlers:
                    m = True if h.type is None else self.matches(o[1], self.types(h.type, s2, scope, mod))
                    if m is False:
                        continue
                    b = s2.fork()
                    if m is None:
                        b.emit("unsure", node=h, mod=mod)
                    b.emit("caught", h.type, o[1], node=h, mod=mod)
                    b.exc = b.exc + (o[1],)
                    if h.name:
                        b.frames[scope[-1]][h.name] = ("caught", o[1])
                    for s3, o3 in self.block(h.body, [b], scope, mod):
                        s3.exc = s3.exc[:-1]
                        res.append((s3, o3))
                    if m is True:
                        pending = False
                        break
                if pending:
                    res.append((s2, o))
            else:
                res.append((s2, o))
        if not n.finalbody:
            return res
        out = []
        for s2, o in res:
            for s3, o3 in self.block(n.finalbody, [s2], scope, mod):
                out.append((s3, o3 if o3 is not None else o))
        return out

    def s_With(self, n, s, scope, mod, i=0):
        if i == len(n.items):
            return self.block(n.body, [s], scope, mod)
        out = []
        for s1, v, ex in self.ev(n.items[i].context_expr, s, scope, mod):
            if ex is not None:
                out.append((s1, ("raise", ex)))
                continue
            s1 = s1.fork()
            sup = v[0] == "call" and v[2] == ("glob", "contextlib.suppress")
            if n.items[i].optional_vars is not None:
                self.bind_target(n.items[i].optional_vars, ("entered", v), s1, scope, mod)
            if sup:
                names = [exc_name((0, x)) for x in v[3]]
                self.armed.append(None if None in names else names)
            try:
                inner = self.s_With(n, s1, scope, mod, i + 1)
            finally:
                if sup:
                    self.armed.pop()
            for s2, o in inner:
                if sup and o is not None and o[0] == "raise":
                    names = [exc_name((0, x)) for x in v[3]]
                    m = self.matches(o[1], None if None in names else names)
                    if m is not False:
                        s3 = s2.fork()
                        s3.emit("caught" if m else "unsure", node=n, mod=mod)
                        out.append((s3, None))
                    if m is True:
                        continue
                out.append((s2, o))
        return out

    def call(self, s, f, pos, kw, node, scope, mod):
        if f == ("glob", "builtins.isinstance") and len(pos) == 2 and pos[0][0] == "caught":
            v = pos[1]
            names = [exc_name((0, x)) for x in (v[1] if v[0] == "tuple" else (v,))]
            m = self.matches(pos[0][1], None if None in names else names)
            if m is not None:
                return [(s, ("const", m), None)]
        if f == ("glob", "builtins.type") and len(pos) == 1 and pos[0][0] == "caught":
            return [(s, pos[0][1][1], None)]
        return super().call(s, f, pos, kw, node, scope, mod)


def callee_name(f):
    if f[0] == "attr":
        return f[2]
    if f[0] == "func":
        return f[1].name
    if f[0] == "bound":
        return f[1][1].name
    if f[0] in ("glob", "param"):
        return f[1].split(".")[-1]
    if f[0] == "class":
        return f[1].name
    return None


HARMLESS = {"debug", "info", "warning", "warn", "error", "log", "append", "extend", "update", "get", "items", "keys", "values", "join", "format", "split", "tolist", "copy", "pop", "popleft", "setdefault", "critical", "exception", "startswith", "lower", "isinstance"}


def interesting(f, callers=()):
    """may the call reach a back end or foreign code?"""
    n = callee_name(f)
    if f[0] == "glob":
        return f[1].startswith(("spey.", "scipy.optimize.", "iminuit.")) and n not in HARMLESS
    if f[0] == "class":
        return True
    if f[0] == "attr":
        b = f[1]
        while b[0] == "attr":
            b = b[1]
        if b[0] == "glob" and not b[1].startswith("spey."):
            return False
        return n not in HARMLESS
    return True


def swallows(node):
    for x in own_nodes(node):
        if isinstance(x, ast.Try) and (x.handlers or any(isinstance(y, (ast.Return, ast.Break, ast.Continue)) for z in x.finalbody for y in ast.walk(z))):
            return True
        if isinstance(x, (ast.With, ast.AsyncWith)) and any(isinstance(i.context_expr, ast.Call) and dotted(i.context_expr.func).split(".")[-1] == "suppress" for i in x.items):
            return True
    return False


def references(node, names):
    """names among `names` used in a function body: directly called, used as values"""
    called, used = set(), set()
    funcs = {id(x.func) for x in ast.walk(node) if isinstance(x, ast.Call)}
    for x in ast.walk(node):
        n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
        if n in names and isinstance(x.ctx, ast.Load):
            (called if id(x) in funcs else used).add(n)
    return called, used


@prop("S13", min=6, assumptions=["third-party packages are not analysed", "failures inside the contour and interval searches are treated there as points without a value (S25, S32)"])
def s13(ctx):
    """Fault-injection path analysis: every function that catches exceptions (outside networking, caching, logging and the searches that treat unusable points as absent) is walked with one exception at a time - each of spey's own, NotImplementedError and unrelated ones - raised at each call inside a guarded region; an exception may only be absorbed for the documented (exception, callee) pairs, and nothing may turn an unrelated failure into an exception that is absorbed elsewhere. Missing optional features must continue or become MethodNotAvailable / CombinerNotAvailable. The default implementations of the optional features in the base class must raise NotImplementedError on every path."""
    P = ctx.project
    F = Functions(P)
    scope = [f for f in F.all if not any(f[0].name == e or f[0].name.startswith(e + ".") for e in EXEMPT)]
    risky = {f[1] for f in scope if swallows(f[1])}
    helper = lambda f: f[3] is not None or (f[1].name.startswith("_") and not f[1].name.startswith("__")) or (f[4] not in ctx.anchors and not f[1].name.startswith("__"))
    feature = lambda f: f[0].name.startswith("spey.interface") and any(isinstance(x, ast.Attribute) and x.attr in CONTINUE | set(CONVERT) and isinstance(x.value, ast.Attribute) and x.value.attr == "backend" for x in own_nodes(f[1]))
    risky |= {f[1] for f in scope if feature(f)}
    # private and nested functions that absorb exceptions are analysed in their callers
    inl = {f[1] for f in scope if f[1] in risky and helper(f) and not is_generator(f[1])}
    grown = True
    while grown:
        grown = False
        names = {n.name for n in inl}
        for f in scope:
            if f[1] not in risky and references(f[1], names)[0]:
                risky.add(f[1])
                grown = True
                if helper(f) and not is_generator(f[1]):
                    inl.add(f[1])
    called, used = set(), set()
    for f in scope:
        c, u = references(f[1], {n.name for n in inl})
        called |= c
        used |= u
    for f in sorted(scope, key=lambda f: f[4]):
        if f[1] not in risky:
            continue
        if f[1] in inl and f[1].name in called and f[1].name not in used:
            continue
        analyse(ctx, f, inl, f[1] in inl)
    base(ctx)
    ctx.returns("combine", "StatisticalModel.combine", """
        def f(self, other, **kwargs):
            try:
                c = self.backend.combine(other.backend, **kwargs)
                assert isinstance(c, BackendBase)
                return StatisticalModel(backend=c, analysis=f"combine[{self.analysis}, {other.analysis}]")
            except NotImplementedError as e:
                raise CombinerNotAvailable("") from e
    """, ignore_raise=False)
    ctx.returns("combine", "StatisticalModel.__matmul__", """
        def f(self, other):
            return self.combine(other)
    """, ignore_raise=False)


def analyse(ctx, f, inl, standalone):
    P = ctx.project
    mod, node, cls, outer, qual = f
    injected = [0]

    def raises(m, s, c, pos, cn):
        if not interesting(c) or any(e.kind == "thrown" for e in s.events):
            return ()
        n = callee_name(c)
        back = c[0] == "attr" and c[1][0] == "attr" and c[1][2] == "backend"
        if m.armed:
            injected[0] += 1
            return [("glob", "builtins." + x) for x in m.faults()]
        if back and n in CONTINUE | set(CONVERT):
            injected[0] += 1
            return [("glob", "builtins.NotImplementedError")]
        return ()

    c = None
    if cls is not None:
        r = P.modules[mod.name].classes.get(cls.name) if hasattr(mod, "classes") else None
        c = r
    m = FaultMachine(P, raises, inline=lambda x: x.node in inl, limit=3000000, unroll=1, cls=c)
    m.prune = True
    m.risk = {x.name for x in inl}
    a = node.args
    pos = tuple(("param", x.arg) for x in a.posonlyargs + a.args)
    kw = tuple((x.arg, ("param", x.arg)) for x in a.kwonlyargs)
    if a.kwarg is not None:
        kw += ((None, ("param", a.kwarg.arg)),)
    try:
        paths = m.enter(State(), m.closure(node, mod, ())[1], pos, kw, node)
    except (Overflow, RecursionError) as err:
        ctx.undec("absorbed", qual, f"paths not enumerated: {err}")
        return
    bad = {}
    for s, v, ex in paths:
        ev = s.events
        th = next((e for e in ev if e.kind == "thrown"), None)
        if th is None:
            continue
        i = ev.index(th)
        # the injected class is the one of the first catch or of the result
        x = next((exc_name(e.b) for e in ev[i:] if e.kind == "caught" and e.b is not None), None) or (exc_name(ex) if ex is not None else None)
        n = callee_name(th.a) or "?"
        if any(e.kind == "unsure" for e in ev):
            continue
        outcome = exc_name(ex) if ex is not None else "return"
        if x is None:
            x = "some error"
        if outcome == "return":
            if x == "ConnectionError" or ((x, n) in ALLOWED and n not in CONVERT):
                continue
            if qual.endswith(STARTING[0]) and n in STARTING[1]:
                continue
            if standalone and x in NAMED and n == "?":
                continue
            bad.setdefault((loc(th.mod or mod, th.node), n, x), "is absorbed: the function goes on to return a result")
        elif x not in NAMED and outcome in NAMED + ("CombinerNotAvailable",):
            bad.setdefault((loc(th.mod or mod, th.node), n, x), f"is turned into {outcome}, which callers take for a missing feature")
        elif x == "NotImplementedError" and n in CONVERT and back_call(th.a) and outcome != CONVERT[n]:
            bad.setdefault((loc(th.mod or mod, th.node), n, x), f"must become {CONVERT[n]}, not {outcome}")
        elif x == "NotImplementedError" and n in CONTINUE and back_call(th.a) and outcome == "NotImplementedError" and not any(e.kind == "caught" for e in ev[i:]):
            bad.setdefault((loc(th.mod or mod, th.node), n, x), "ends the call although the generic path is documented")
    if bad:
        for (l, n, x), msg in sorted(bad.items())[:6]:
            ctx.fail("absorbed", f"{qual}: {x} from {n}()", l, f"{x} raised by {n}() {msg}")
    else:
        ctx.ok("absorbed", f"{qual}: {len(paths)} paths, exceptions injected at {injected[0]} calls", loc(mod, node))


def back_call(c):
    return c[0] == "attr" and c[1][0] == "attr" and c[1][2] == "backend"


OPTIONAL = ["get_hessian_logpdf_func", "get_sampler", "expected_data", "combine", "negative_loglikelihood", "minimize_negative_loglikelihood", "asimov_negative_loglikelihood", "minimize_asimov_negative_loglikelihood"]


def base(ctx):
    for n in OPTIONAL:
        default_raises(ctx, n)
    default_raises(ctx, "fixed_poi_sampler", "HypothesisTestingBase")


def default_raises(ctx, n, c="BackendBase"):
    f = ctx.func(f"{c}.{n}")
    mod, node = f.module, f.node
    m = FaultMachine(ctx.project, lambda *a: (), inline=lambda x: False, limit=60000, unroll=1)
    a = node.args
    try:
        paths = m.enter(State(), m.closure(node, mod, ())[1], tuple(("param", x.arg) for x in a.posonlyargs + a.args), tuple((x.arg, ("param", x.arg)) for x in a.kwonlyargs), node)
    except Overflow:
        ctx.undec("default-raises", f.qual, "too many paths")
        return
    bad = [p for p in paths if p[2] is None or exc_name(p[2]) != "NotImplementedError"]
    unk = [p for p in bad if p[2] is not None and exc_name(p[2]) is None]
    if unk or (bad and any(e.kind == "call" and interesting(e.a) for p in bad for e in p[0].events)):
        ctx.undec("default-raises", f.qual, "outcome not resolved")
        return
    ctx.check("default-raises", f"{c}.{n}", not bad, f.loc(), "the default of an optional feature must raise NotImplementedError, or its absence looks like a result")
