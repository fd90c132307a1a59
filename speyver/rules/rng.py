"""Random numbers: generators, seeds and the library-wide random state (S26)."""
import ast

from . import prop
from ..paths import dotted
from .state import Functions, own_nodes, loc
from .net import full_name

CONSTRUCT = {"default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM", "BitGenerator"}
RESEED = {"numpy.random.seed", "numpy.random.set_state", "numpy.random.set_bit_generator", "random.seed", "random.setstate",
          "autograd.numpy.random.seed", "autograd.numpy.random.set_state", "numpy.random.mtrand.seed"}
WRAPPERS = {"int", "float", "abs", "list", "tuple", "numpy.array", "numpy.asarray", "numpy.uint64", "numpy.int64", "numpy.atleast_1d", "hash", "str"}
PASS_METHODS = {"tolist", "copy", "astype", "item", "ravel", "flatten", "reshape"}
SEEDNAMES = ("seed", "random_state")
PARALLEL = {"delayed", "submit", "map", "imap", "starmap", "apply_async", "map_async", "Thread", "Process"}
UNORDERED = {"as_completed", "imap_unordered"}


def rname(n):
    """numpy.random / random function called, if any"""
    for p in ("autograd.numpy.random.", "numpy.random.", "random."):
        if n.startswith(p):
            return n[len(p):]
    return None


class Prov:
    """Where a value used as generator or seed comes from."""

    def __init__(self, ctx, F):
        self.ctx, self.F, self.p = ctx, F, ctx.project
        self.busy = set()
        self.memo = {}
        self.sites = {}
        for f in F.all + [(m, m.tree, None, None, m.name) for m in ctx.project.modules.values() if m.name.startswith("spey")]:
            for x in own_nodes_any(f[1]):
                if isinstance(x, ast.Call):
                    t = self.callee(f, x.func)
                    if t is not None:
                        self.sites.setdefault(t[1], []).append((f, x))
                    # delayed(f)(args...)
                    if isinstance(x.func, ast.Call) and len(x.func.args) == 1:
                        t = self.callee(f, x.func.args[0])
                        if t is not None:
                            self.sites.setdefault(t[1], []).append((f, x))

    def outer(self, f):
        return self.F.by_node.get(f[3]) if f[3] is not None else None

    def callee(self, f, fx):
        if isinstance(fx, ast.Name):
            g = f
            while g is not None and not isinstance(g[1], ast.Module):
                for h in self.F.all:
                    if h[3] is g[1] and h[1].name == fx.id and h[2] is None:
                        return h
                if fx.id in params(g[1]):
                    return None
                g = self.outer(g)
        n = full_name(self.p, f[0], fx)
        for h in self.F.all:
            if h[4] == n:
                return h
        return None

    # ---- bindings
    def bindings(self, f, name):
        """(function, kind, expression, statement) for every binding of a name visible in f"""
        g = f
        while g is not None:
            out = []
            node = g[1]
            if not isinstance(node, ast.Module) and name in params(node):
                out.append((g, "param", name, None))
            for x in own_nodes_any(node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        out += [(g, k, e, x) for k, e in target(t, x.value, name)]
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
                    out += [(g, k, e, x) for k, e in target(x.target, x.value, name)]
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    out.append((g, "aug", x.value, x))
                elif isinstance(x, (ast.For, ast.comprehension)):
                    out += [(g, "elem", e, x) for k, e in target(x.target, x.iter, name)]
                elif isinstance(x, ast.With):
                    for it in x.items:
                        if it.optional_vars is not None:
                            out += [(g, "other", e, x) for k, e in target(it.optional_vars, it.context_expr, name)]
            if out:
                return out
            g = self.outer(g) if not isinstance(node, ast.Module) else None
            if g is None and not isinstance(node, ast.Module):
                g = (f[0], f[0].tree, None, None, f[0].name)
        return []

    def of(self, f, e):
        """set of origins: seed gen gens draw none const fresh falsy other unk"""
        if e is None:
            return {"none"}
        if isinstance(e, ast.Constant):
            return {"none"} if e.value is None else {"const"}
        if isinstance(e, ast.Name):
            key = (id(f[1]), e.id)
            if key in self.memo:
                return self.memo[key]
            if key in self.busy:
                return set()
            self.busy.add(key)
            bs = self.bindings(f, e.id)
            out = set()
            for g, k, x, st in bs:
                o = self.param(g, x) if k == "param" else self.of(g, x) if x is not None else {"unk"}
                if k == "elem":
                    o = {"gen" if y == "gens" else y for y in o}
                if k in ("other", "aug"):
                    o = {"unk"}
                if st is not None and any(b[1] == "param" for b in bs) and not (o & {"seed", "draw", "gen"}):
                    w = none_guard(g[1], st, e.id)
                    if w == "none":
                        continue
                    if w == "falsy":
                        o = {"falsy"}
                out |= o
            self.busy.discard(key)
            out = out or {"unk"}
            self.memo[key] = out
            return out
        if isinstance(e, ast.IfExp):
            a, b = self.of(f, e.body), self.of(f, e.orelse)
            t = e.test
            s = self.seedtest(f, t)
            if s == "none-test":
                return {x for x in a | b if x not in ("none", "fresh", "const", "other")} or {"unk"}
            if s == "truth":
                return {"falsy"} | (a | b)
            return a | b
        if isinstance(e, ast.BoolOp):
            vs = [self.of(f, x) for x in e.values]
            if any(v & {"seed", "draw"} for v in vs[:-1]):
                if isinstance(e.op, ast.Or) and vs[-1] == {"none"} or not isinstance(e.op, ast.Or):
                    return {"falsy"}
                return {"falsy"}
            return set().union(*vs)
        if isinstance(e, (ast.List, ast.Tuple)):
            out = set().union(*[self.of(f, x) for x in e.elts]) if e.elts else {"other"}
            return {"gens" if x == "gen" else x for x in out}
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return {"gens" if x == "gen" else x for x in self.of(f, e.elt)}
        if isinstance(e, ast.Subscript):
            return {"gen" if x == "gens" else x for x in self.of(f, e.value)}
        if isinstance(e, ast.Starred):
            return self.of(f, e.value)
        if isinstance(e, ast.Call):
            n = full_name(self.p, f[0], e.func)
            r = rname(n)
            args = list(e.args) + [k.value for k in e.keywords]
            if r is not None and r.split(".")[-1] in CONSTRUCT:
                a = self.of(f, args[0]) if args else {"none"}
                if r.split(".")[-1] in ("default_rng", "Generator", "RandomState"):
                    if a & {"seed", "draw", "gen"} and not a & BAD:
                        return {"gen"}
                    return {"unk"} if "unk" in a and not a & BAD else {"fresh"}
                return a if a != {"none"} else {"fresh"}
            if r is not None:
                return {"global"}
            if isinstance(e.func, ast.Attribute):
                o = self.of(f, e.func.value)
                if "gen" in o:
                    if e.func.attr == "spawn":
                        return {"gens"}
                    return {"draw"}
                if o & {"seed", "draw"} and e.func.attr in PASS_METHODS | {"spawn", "generate_state"}:
                    return o
            subs = [self.of(f, x) for x in args]
            t = self.callee(f, e.func)
            if t is not None:
                key = ("ret", t[4])
                if key not in self.busy:
                    self.busy.add(key)
                    rets = [x.value for x in own_nodes(t[1]) if isinstance(x, ast.Return)]
                    out = set().union(*[self.of(t, x) for x in rets]) if rets else {"none"}
                    self.busy.discard(key)
                    if out - {"unk", "other"}:
                        return out
            if any(s & {"seed", "draw", "falsy"} for s in subs):
                return set().union(*[s & {"seed", "draw", "falsy"} for s in subs])
            if n in ("range", "builtins.range", "len", "numpy.arange"):
                return {"const"}
            if n.split(".")[-1] in ("tqdm", "list", "sorted", "reversed", "trange") and subs:
                return subs[0]
            if n in ("time.time", "time.time_ns", "os.getpid", "os.urandom", "secrets.randbits", "id", "builtins.id", "uuid.uuid4"):
                return {"fresh"}
            return {"unk"}
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            parts = [self.of(f, x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
            got = set().union(*parts)
            if got & {"seed", "draw", "falsy"}:
                return got & {"seed", "draw", "falsy", "fresh"}
            return {"const"} if got == {"const"} else {"gens"} if "gens" in got else {"unk"}
        if isinstance(e, ast.Attribute):
            o = self.of(f, e.value)
            if "gen" in o:
                return {"seed"} if e.attr in ("bit_generator", "seed_seq", "_bit_generator") else {"unk"}
            if o & {"seed"}:
                return {"seed"}
            return {"unk"}
        return {"unk"}

    def seedtest(self, f, t):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return "none-test" if self.of(f, t.left) & {"seed", "gen"} else None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.seedtest(f, t.operand)
        if isinstance(t, (ast.Name, ast.Call)) and self.of(f, t) & {"seed"}:
            return "truth"
        return None

    def param(self, g, name):
        node = g[1]
        a = next(x for x in all_args(node) if x.arg == name)
        ann = ast.unparse(a.annotation) if a.annotation is not None else ""
        by_name = {"seed"} if any(s in name.lower() for s in SEEDNAMES) else {"gen"} if "Generator" in ann and "random" in ann or name in ("rng", "generator") else None
        key = ("param", g[4], name)
        if key in self.busy:
            return set()
        self.busy.add(key)
        got = set()
        public = not node.name.startswith("_") and g[3] is None
        sites = self.sites.get(node, [])
        for f, call in sites:
            x = argument(node, call, name)
            if x == "missing":
                d = default_of(node, name)
                got |= self.of(g, d) if d is not None else {"unk"}
            elif x == "unk":
                got |= {"unk"}
            else:
                got |= self.of(f, x)
        self.busy.discard(key)
        if by_name is not None and (public or not sites):
            return by_name
        if by_name is not None:
            got = {("seed" if x == "draw" else x) for x in got}
            return got or by_name
        return got or {"unk"}


BAD = {"none", "const", "fresh", "falsy", "global"}


def own_nodes_any(node):
    if isinstance(node, ast.Module):
        st = list(node.body)
        while st:
            x = st.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                st.extend(ast.iter_child_nodes(x))
    else:
        # lambdas belong to the function that holds them
        st = list(node.body)
        while st:
            x = st.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                st.extend(ast.iter_child_nodes(x))


def all_args(node):
    a = node.args
    return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def params(node):
    return {x.arg for x in all_args(node)}


def default_of(node, name):
    a = node.args
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == name:
            return d
    return None


def argument(node, call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    ps = [x.arg for x in node.args.posonlyargs + node.args.args]
    if name in ps:
        i = ps.index(name)
        if any(isinstance(x, ast.Starred) for x in call.args):
            return "unk"
        if i < len(call.args):
            return call.args[i]
    if any(k.arg is None for k in call.keywords):
        return "unk"
    return "missing"


def target(t, value, name):
    if isinstance(t, ast.Name):
        return [("assign", value)] if t.id == name else []
    if isinstance(t, (ast.Tuple, ast.List)):
        out = []
        for i, x in enumerate(t.elts):
            if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    out += target(x, value.elts[i], name)
                elif isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == "enumerate" and len(t.elts) == 2 and i == 1 and value.args:
                    out += target(x, value.args[0], name)
                elif isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == "zip" and i < len(value.args):
                    out += target(x, value.args[i], name)
                else:
                    out.append(("other", None))
        return out
    return []


def none_guard(node, st, name):
    """kind of test of the parameter under which a statement runs"""
    for x in ast.walk(node):
        if isinstance(x, ast.If):
            body = any(y is st for b in x.body for y in ast.walk(b))
            other = any(y is st for b in x.orelse for y in ast.walk(b))
            if not (body or other):
                continue
            t, neg = x.test, other
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, not neg
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == name and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                isnone = isinstance(t.ops[0], (ast.Is, ast.Eq))
                if isnone != neg:
                    return "none"
            if isinstance(t, ast.Name) and t.id == name and neg:
                return "falsy"
    return None


def seeded_functions(F, P, ctx):
    """functions that take a seed or generator, what they define and what they refer to in the package"""
    roots = []
    for f in F.all:
        for a in all_args(f[1]):
            ann = ast.unparse(a.annotation) if a.annotation is not None else ""
            if any(s in a.arg.lower() for s in SEEDNAMES) or ("Generator" in ann and "random" in ann) or a.arg in ("rng",):
                roots.append(f)
                break
    seen, work = {}, [(f, f) for f in roots]
    while work:
        f, r = work.pop()
        if f[1] in seen:
            continue
        seen[f[1]] = (f, r)
        for g in F.all:
            if g[3] is f[1]:
                work.append((g, r))
        for x in own_nodes_any(f[1]):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(getattr(x, "ctx", None), ast.Load):
                g = P.callee(f, x)
                if g is not None:
                    work.append((g, r))
    return roots, seen


@prop("S26", min=8)
def s26(ctx):
    """Origin analysis of every random generator, seed and draw of the package: each generator used below a routine that takes a seed is built from that seed (zero included) or from draws of such a generator, parallel workers own their generator, the library-wide state is never reseeded, routines without a seed draw from it, and nothing random runs at import."""
    F = Functions(ctx.project)
    P = Prov(ctx, F)
    roots, seeded = seeded_functions(F, P, ctx)
    mods = [m for m in ctx.project.modules.values() if m.name.startswith("spey")]
    # no reseeding, nothing at import
    for m in mods:
        bad = False
        inside = set()
        for f in F.all:
            if f[0] is m:
                for b in f[1].body:
                    inside.update(id(y) for y in ast.walk(b))
        lam = {id(y) for x in ast.walk(m.tree) if isinstance(x, ast.Lambda) for y in ast.walk(x.body)}
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                n = full_name(ctx.project, m, x)
                if n in RESEED:
                    bad = True
                    ctx.fail("reseed", m.name, loc(m, x), f"{n} changes the library-wide random state of the user's session")
            if isinstance(x, ast.Call):
                n = full_name(ctx.project, m, x.func)
                if n in ("importlib.reload",) and any("random" in ast.unparse(a) for a in x.args):
                    bad = True
                    ctx.fail("reseed", m.name, loc(m, x), "reloading the random module reseeds it")
                if rname(n) is not None and id(x) not in inside and id(x) not in lam:
                    bad = True
                    ctx.fail("import-time", m.name, loc(m, x), f"{n} runs while the package is imported")
        if not bad:
            ctx.ok("reseed", m.name)
            ctx.ok("import-time", m.name)
    # seeds that are accepted are used
    for f in roots:
        ctx.functions.add(f[4])
        for a in all_args(f[1]):
            if any(s in a.arg.lower() for s in SEEDNAMES):
                used = [x for b in f[1].body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == a.arg and isinstance(x.ctx, ast.Load)]
                ctx.check("seed-used", f"{f[4]}({a.arg})", bool(used), loc(f[0], f[1]), "the seed is accepted and never used")
    n = 0
    for f in F.all:
        mod, node, cls, outer, qual = f
        top = seeded.get(node)
        for x in own_nodes_any(node):
            if not isinstance(x, ast.Call):
                continue
            name = full_name(ctx.project, mod, x.func)
            r = rname(name)
            where = loc(mod, x)
            if r is not None and r.split(".")[-1] in CONSTRUCT:
                args = list(x.args) + [k.value for k in x.keywords]
                o = P.of(f, args[0]) if args else {"none"}
                n += 1
                c = f"{qual}[{r}]"
                ctx.functions.add(qual)
                if top is not None and not o & {"seed", "draw", "gen"} and under_none(f, x, F):
                    ctx.ok("generator-origin", c)
                elif top is not None:
                    if o & {"falsy"}:
                        ctx.fail("generator-origin", c, where, "the seed goes through a truth test, so a seed of zero is not honoured")
                    elif o & (BAD - {"falsy"}):
                        what = {"none": "no seed", "const": "a constant", "fresh": "fresh entropy", "global": "the library-wide state"}[sorted(o & (BAD - {"falsy"}))[0]]
                        ctx.fail("generator-origin", c, where, f"a generator used below {top[1][4]} is built from {what} instead of the seed given to it")
                    elif "unk" in o:
                        ctx.undec("generator-origin", c, "origin of the seed not followed")
                    else:
                        ctx.ok("generator-origin", c)
                else:
                    ctx.fail("library-state", c, where, f"{qual} takes no seed but builds its own generator: its draws no longer follow the library-wide random state")
                continue
            if r is not None and name not in RESEED and r.split(".")[-1] not in ("get_state", "getstate"):
                n += 1
                ctx.functions.add(qual)
                if top is not None:
                    ctx.fail("draw-origin", f"{qual}[{name}]", where, f"{name} draws from the library-wide state below {top[1][4]}, which takes a seed or generator")
                else:
                    ctx.ok("draw-origin", f"{qual}[{name}]")
                continue
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("rvs", "resample"):
                n += 1
                ctx.functions.add(qual)
                kw = {k.arg: k.value for k in x.keywords}
                rs = kw.get("random_state", kw.get("seed"))
                c = f"{qual}[{x.func.attr}]"
                o = P.of(f, rs) if rs is not None else {"none"}
                if None in kw and rs is None:
                    o = {"unk"}
                if top is not None:
                    if o & {"none", "const", "fresh", "falsy", "global"}:
                        ctx.fail("draw-origin", c, where, f"samples below {top[1][4]} do not use the generator derived from its seed")
                    elif "unk" in o:
                        ctx.undec("draw-origin", c, "origin of random_state not followed")
                    else:
                        ctx.ok("draw-origin", c)
                elif o == {"none"}:
                    ctx.ok("draw-origin", c)
                elif o & {"const", "fresh"}:
                    ctx.fail("library-state", c, where, "a private generator replaces the library-wide random state")
                else:
                    ctx.undec("draw-origin", c, "random_state not followed")
                continue
            if top is not None and isinstance(x.func, ast.Attribute):
                o = P.of(f, x.func.value)
                if o & {"gen", "fresh"} and x.func.attr not in ("append",):
                    n += 1
                    c = f"{qual}[.{x.func.attr}]"
                    if "fresh" in o:
                        ctx.fail("draw-origin", c, where, "draws from a generator that is not derived from the seed")
                    elif "none" in o or "const" in o:
                        ctx.undec("draw-origin", c, "some callers give no generator")
                    else:
                        ctx.ok("draw-origin", c)
            # parallel work
            last = name.split(".")[-1] if name else (x.func.attr if isinstance(x.func, ast.Attribute) else "")
            if top is not None and last in UNORDERED:
                ctx.fail("worker", f"{qual}[{last}]", where, "results arrive in the order of completion, so the outcome depends on the schedule")
            if top is not None and last == "Parallel":
                kw = {k.arg: k.value for k in x.keywords}
                v = kw.get("return_as")
                if isinstance(v, ast.Constant) and v.value == "generator_unordered":
                    ctx.fail("worker", f"{qual}[Parallel]", where, "results arrive in the order of completion, so the outcome depends on the schedule")
            if top is not None and last in PARALLEL and x.args:
                w = worker(P, f, x.args[0])
                if w is None:
                    continue
                n += 1
                c = f"{qual}[{last} {w[1].name}]"
                bad = shared_generator(P, F, f, w)
                if bad:
                    ctx.fail("worker", c, loc(mod, bad), f"parallel calls of {w[1].name} share one generator: the samples depend on the number of workers and on their schedule")
                else:
                    ctx.ok("worker", c)
    if not any(any(s in a.arg.lower() for s in SEEDNAMES) for f in roots for a in all_args(f[1])):
        ctx.undec("seed-used", "package", "no routine takes a seed any more")


def under_none(f, call, F):
    """runs only when no seed was given"""
    for a in all_args(f[1]):
        if any(s in a.arg.lower() for s in SEEDNAMES) or a.arg == "rng":
            if none_guard(f[1], call, a.arg) == "none":
                return True
            for x in ast.walk(f[1]):
                if isinstance(x, ast.IfExp) and isinstance(x.test, ast.Compare) and isinstance(x.test.left, ast.Name) and x.test.left.id == a.arg and isinstance(x.test.comparators[0], ast.Constant) and x.test.comparators[0].value is None:
                    br = x.body if isinstance(x.test.ops[0], (ast.Is, ast.Eq)) else x.orelse
                    if any(y is call for y in ast.walk(br)):
                        return True
    return False


def worker(P, f, e):
    if isinstance(e, ast.Call) and e.args and dotted(e.func).split(".")[-1] == "partial":
        e = e.args[0]
    return P.callee(f, e)


def shared_generator(P, F, f, w):
    """a generator object that several parallel calls of w would draw from"""
    inner = params(w[1])
    nodes = [w] + [g for g in F.all if g[3] is w[1]]
    for g in nodes:
        for x in own_nodes_any(g[1]):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                bs = P.bindings(g, x.id)
                if bs and bs[0][0][1] not in [q[1] for q in nodes] and not isinstance(bs[0][0][1], ast.Module) and "gen" in P.of(g, x) and not subscripted(g[1], x):
                    return x
    for a in inner:
        for h, call in P.sites.get(w[1], []):
            if isinstance(call.func, ast.Call):
                v = argument(w[1], call, a)
                if isinstance(v, ast.Name) and "gen" in P.of(h, v):
                    bs = P.bindings(h, v.id)
                    if not any(b[1] == "elem" for b in bs):
                        return v
    return None


def subscripted(node, x):
    return any(isinstance(s, ast.Subscript) and s.value is x for s in ast.walk(node))
