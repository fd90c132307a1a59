"""Obligations, reporting, evidence and the command line of the checks."""
import ast
import json
import os
import sys
import textwrap
import time
import traceback

sys.setrecursionlimit(20000)

from . import engine, interp, paths
from . import terms as T
from .engine import Engine, equiv, ANY, Diff
from .project import Project, Module, AnalysisBroken, Func, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class SpecModule(Module):
    def __init__(self, name, text, project, fallback):
        super().__init__(name, f"<spec:{name}>", text, project, False)
        self.fallback = fallback


_orig_lookup = Project.lookup


def _lookup(self, m, name, depth=0):
    r = _orig_lookup(self, m, name, depth)
    if r is None and getattr(m, "fallback", None) is not None:
        return self.lookup(m.fallback, name, depth)
    return r


Project.lookup = _lookup


def load_anchors():
    p = os.path.join(VERIF, "speyver", "anchors.txt")
    with open(p) as f:
        return frozenset(x.strip() for x in f if x.strip())


def short(t, n=700, depth=6):
    s = T.show(t, depth) if isinstance(t, T.Term) else str(t)
    return s if len(s) <= n else s[: n - 3] + "..."


_decided = {}


def decide(a, b, ignore_raise):
    """Value numbering first; where it cannot make the values equal, only an assignment that tells them apart makes the difference definite."""
    d = equiv(a, b, ignore_raise)
    if d.status == "same" or T.has_unk(a) or T.has_unk(b):
        return d
    key = (a, b, ignore_raise)
    v = _decided.get(key)
    if v is None and time.monotonic() > engine.DEADLINE > 0:
        return engine.Diff("undecided", d.path, a, b)
    if v is None:
        v = interp.compare(a, b, d.path, ignore_raise)
        if v.status == "partial" and d.a is not None and d.b is not None and not (T.has_unk(d.a) or T.has_unk(d.b)):
            w = interp.compare(d.a, d.b, d.path, ignore_raise, like=v.world)
            v = w if w.status == "agree" else v
        _decided[key] = v
    if os.environ.get("SPEYVER_DECIDE"):
        print("DECIDE", d.status, v.status, v.note[:300], "\n   A:", short(d.a if d.a is not None else a, 500, 7), "\n   B:", short(d.b if d.b is not None else b, 500, 7), file=sys.__stderr__)
    if v.status == "diff":
        return engine.Diff("diff", d.path, d.a if d.a is not None else a, d.b if d.b is not None else b)
    if v.status == "agree":
        return engine.Diff("undecided", d.path, a, b)
    return d


class SpecBroken(Exception):
    """A private name the required-behaviour text relies on no longer exists in the code."""


def needs_spec(fn):
    import functools

    @functools.wraps(fn)
    def w(self, rule, dotted, *a, **k):
        try:
            return fn(self, rule, dotted, *a, **k)
        except SpecBroken as e:
            q = dotted if isinstance(dotted, str) else dotted.qual
            self.undec(rule, k.get("construct") or q, str(e))
            return None

    return w


SHARED = None  # set by the self-tests in tools/, which ask many properties of one source


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.project = SHARED or Project()
        self.anchors = load_anchors()
        self.obligations = []
        self.findings = []
        self.undecided = []
        self.functions = set()
        self.nspec = 0
        self.notes = []
        self._engines = {}

    # -------------------------------------------------- engines
    def engine(self, inline=(), opaque=()):
        k = (frozenset(inline), frozenset(opaque))
        if k not in self._engines:
            self._engines[k] = Engine(self.project, inline=inline, opaque=opaque, anchors=self.anchors)
        return self._engines[k]

    def cls(self, name):
        return self.project.cls(name)

    def func(self, dotted):
        f = self.project.func(dotted)
        self.functions.add(f.qual)
        return f

    def run(self, func, cls=None, inline=(), opaque=(), bind=None, fields=None):
        """Abstractly evaluate a project function; func is a Func or dotted name."""
        f = self.func(func) if isinstance(func, str) else func
        self.functions.add(f.qual)
        c = self.cls(cls) if isinstance(cls, str) else cls
        eng = self.engine(inline, opaque)
        out = eng.entry(f, c, bind=bind, fields=fields)
        out.func = f
        out.engine = eng
        return out

    def spec(self, text, like, cls=None, inline=(), opaque=(), bind=None, fields=None):
        """Evaluate required-behaviour text in the naming context of function `like`."""
        f = self.func(like) if isinstance(like, str) else like
        text = textwrap.dedent(text)
        self.nspec += 1
        m = SpecModule(f"spec{self.nspec}", text, self.project, f.module)
        self.check_names(m, f)
        name = next(iter(m.functions))
        sf = m.functions[name]
        anns = {x.arg: x.annotation for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
        for x in sf.node.args.posonlyargs + sf.node.args.args + sf.node.args.kwonlyargs:
            if x.annotation is None:
                x.annotation = anns.get(x.arg)
        c = self.cls(cls) if isinstance(cls, str) else cls
        eng = self.engine(inline, opaque)
        self.project.modules[m.name] = m
        try:
            sf2 = Func(sf.node, m, f.cls)
            sf2.qual = f.qual + "@spec"
            # parameters: bind the spec's by position onto the code's names
            b = dict(bind or {})
            for k, v in self.by_position(eng, f, sf, c).items():
                b.setdefault(k, v)
            out = eng.entry(sf2, c or f.cls, bind=b, fields=fields)
        finally:
            pass
        out.engine = eng
        return out

    def by_position(self, eng, f, sf, c):
        """Parameters of the required-behaviour text that are named differently in a private function of the code."""
        have = f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs
        want = sf.node.args.posonlyargs + sf.node.args.args + sf.node.args.kwonlyargs
        names = {x.arg for x in have}
        own = f.qual.rpartition(".")[2]
        if not own.startswith("_") or own.startswith("__") or all(x.arg in names for x in want):
            return {}
        if len(want) > len(have):
            raise SpecBroken(f"{f.qual} has fewer parameters than expected")
        env = eng.bind_params(f, selfterm=T.sym("self"))
        out = {}
        for h, w in zip(have, want):
            w.annotation = h.annotation
            out[w.arg] = env[h.arg]
        return out

    def check_names(self, m, f):
        import re

        words = getattr(self, "_words", None)
        if words is None:
            words = self._words = set()
            for k in self.project.modules.values():
                if not isinstance(k, SpecModule):
                    words |= set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", k.text))
        own = stored(m.tree) | {a.arg for a in ast.walk(m.tree) if isinstance(a, ast.arg)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id in own:
                continue
            x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if x and x.startswith("_") and x not in words and not (x.startswith("__") and x.endswith("__")):
                raise SpecBroken(f"private name {x} no longer exists")
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and x.startswith("_") and self.project.lookup(f.module, x) is None:
                raise SpecBroken(f"private name {x} no longer exists in {f.module.name}")

    # -------------------------------------------------- verdicts
    only = None

    def limited(self, *rules):
        """Within the block, only obligations of these rules are recorded (a rule group shared with another property)."""
        import contextlib

        @contextlib.contextmanager
        def block():
            old, self.only = self.only, set(rules)
            try:
                yield
            finally:
                self.only = old
        return block()

    def admits(self, rule, construct):
        return self.only is None or rule in self.only or any(x.partition("~")[0] == rule and construct.endswith(x.partition("~")[2]) for x in self.only if "~" in x)

    def ok(self, rule, construct, detail=""):
        if not self.admits(rule, construct):
            return
        self.obligations.append((rule, construct, "held", detail))

    def undec(self, rule, construct, why):
        if not self.admits(rule, construct):
            return
        self.obligations.append((rule, construct, "undecided", why))
        self.undecided.append({"rule": rule, "construct": construct, "why": why[:600]})

    def fail(self, rule, construct, where, message):
        if not self.admits(rule, construct):
            return
        self.obligations.append((rule, construct, "violated", message))
        self.findings.append({"rule": rule, "construct": construct, "where": where, "message": message})

    def check(self, rule, construct, cond, where, message, detail=""):
        if cond:
            self.ok(rule, construct, detail)
        else:
            self.fail(rule, construct, where, message)
        return cond

    def same(self, rule, construct, code, spec, where, ignore_raise=True):
        d = decide(code, spec, ignore_raise)
        if d.status == "same":
            self.ok(rule, construct)
            return True
        if d.status == "undecided":
            self.undec(rule, construct, "not comparable: " + short(d.a, 200, 4) + " ~ " + short(d.b, 200, 4))
            return None
        self.fail(rule, construct, where, describe(d))
        return False

    @needs_spec
    def returns(self, rule, dotted, spec_text, cls=None, inline=(), opaque=(), pick=None, ignore_raise=True, bind=None, fields=None, construct=None, also=()):
        """Return value of `dotted` equals that of the required-behaviour text."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        s = self.spec(spec_text, f, cls, inline, opaque, bind, fields)
        try:
            o = self.run(f, cls, inline, opaque, bind, fields)
        except AnalysisBroken:
            raise
        except Exception as e:  # the code uses a shape the engine cannot follow
            if os.environ.get("SPEYVER_DEBUG"):
                raise
            self.undec(rule, construct or f.qual, f"analysis error {type(e).__name__}: {e}")
            return None
        a, b = (o.ret, s.ret) if ignore_raise else (o.value(), s.value())
        if ignore_raise:
            a, b = o.value(), s.value()
        if pick is not None:
            a, b = pick(a), pick(b)
        for text in also:  # equally acceptable ways of computing the same value
            b2 = self.spec(text, f, cls, inline, opaque, bind, fields).value()
            b2 = b2 if pick is None else pick(b2)
            st = equiv(a, b2, ignore_raise).status
            if st == "same" or st == "undecided" and equiv(a, b, ignore_raise).status == "diff":
                b = b2
                break
        return self.same(rule, construct or f.qual, a, b, f.loc(), ignore_raise)


    def defaults(self, rule, dotted, **want):
        """Documented default values of public parameters."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        eng = self.engine()
        have = {p.arg: eng.const_expr(d, f.module) for p, d in pairs}
        allnames = {p.arg for p in ps + a.kwonlyargs}
        for name, w in want.items():
            if name not in allnames:
                self.undec(rule, f"{f.qual}({name})", "parameter not found")
                continue
            w = w if isinstance(w, T.Term) else (T.num(w) if isinstance(w, (int, float)) and not isinstance(w, bool) else T.const(w))
            got = have.get(name)
            if got is w:
                self.ok(rule, f"{f.qual}({name})")
            elif got is not None and T.has_unk(got):
                self.undec(rule, f"{f.qual}({name})", "default not resolved")
            else:
                self.fail(rule, f"{f.qual}({name})", f.loc(), f"default of {name} is {short(got) if got is not None else 'missing'}, documented {short(w)}")

    @needs_spec
    def matches(self, dotted, program, required, cls=None, inline=(), opaque=(), ignore_raise=True):
        """Does the program compute what this text says (another acceptable construction)?"""
        f = self.func(dotted)
        try:
            a = self.spec(program, f, cls, tuple(inline) + (f.qual,), opaque).value()
            b = self.spec(required, f, cls, (), opaque).value()
            return decide(a, b, ignore_raise).status == "same"
        except AnalysisBroken:
            raise
        except Exception:
            if os.environ.get("SPEYVER_DEBUG"):
                raise
            return False

    @needs_spec
    def after(self, rule, dotted, program, required, cls=None, inline=(), opaque=(), ignore_raise=True, construct=None, fields=None, norm=None):
        """A short program that uses the code (inlined) computes the same as the required-behaviour text."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        s = self.spec(required, f, cls, (), opaque, fields=fields)
        try:
            o = self.spec(program, f, cls, tuple(inline) + (f.qual,), opaque, fields=fields)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("SPEYVER_DEBUG"):
                raise
            self.undec(rule, construct or f.qual, f"analysis error {type(e).__name__}: {e}")
            return None
        a, b = o.value(), s.value()
        if norm is not None:
            a, b = norm(a), norm(b)
        return self.same(rule, construct or f.qual, a, b, f.loc(), ignore_raise)

    def val(self, expr, like=None):
        """Value of a constant expression in the naming context of a function."""
        m = (self.func(like) if isinstance(like, str) else like).module if like is not None else self.project.modules["spey"]
        return self.engine().const_expr(ast.parse(expr, mode="eval").body, m)

    @needs_spec
    def loops(self, rule, dotted, spec_text, cls=None, opaque=()):
        """Every loop of the required-behaviour text occurs among the loops of `dotted`."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        s = self.spec(spec_text, f, cls, (), opaque)
        try:
            o = self.run(f, cls, (), opaque)
        except AnalysisBroken:
            raise
        except Exception as e:
            self.undec(rule, f.qual, f"analysis error {e}")
            return
        have = [e.term for e in o.events if e.kind == "while"]
        for k, w in enumerate([e.term for e in s.events if e.kind == "while"]):
            c = f"{f.qual}[loop {k}]"
            res = [decide(h, w, False) for h in have]
            if any(d.status == "same" for d in res):
                self.ok(rule, c)
            elif not have or any(d.status == "undecided" for d in res):
                self.undec(rule, c, "loop not recognised")
            else:
                self.fail(rule, c, f.loc(), "no loop with the required start, continuation condition and step; nearest: " + describe(res[min(k, len(res) - 1)]))

    @needs_spec
    def calls(self, rule, dotted, spec_text, callee, cls=None, inline=(), opaque=(), guards=False, construct=None):
        """Every call of `callee` in the required-behaviour text has a call with equal arguments in the code
        (same pass: straight-line, first or second loop iteration, any loop iteration)."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        s = self.spec(spec_text, f, cls, inline, opaque)
        try:
            o = self.run(f, cls, inline, opaque)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("SPEYVER_DEBUG"):
                raise
            self.undec(rule, construct or f.qual, f"analysis error {type(e).__name__}: {e}")
            return

        self.match_calls(rule, construct or f.qual, f, o, s, callee, guards)

    def match_calls(self, rule, construct, f, o, s, callee, guards=False):
        """Every call of `callee` in the run `s` of the required text has its equal in the run `o` of the code."""
        def sel(out, kind):
            return [e for e in out.events if e.kind == kind and e.term.op == "call" and callee_is(e, callee)]

        n = 0
        for kind in ["call"] + [f"peel{i}-call" for i in range(1, engine.PEEL + 1)]:
            have = sel(o, kind)
            for k, w in enumerate(sel(s, kind)):
                n += 1
                c = f"{construct}[{callee.split('.')[-1]} {kind} {k}]"
                best = None
                for h in have:
                    r = self.callmatch(h, w, guards)
                    if best is None or r[0] < best[0]:
                        best = r + (h,)
                if best is None:
                    known = {(e.kind, e.fn) for e in s.events}
                    other = [e for e in o.events if e.kind.split("-")[-1] in ("call", "mutate", "mutref", "yield", "with", "while") and (e.kind, e.fn) not in known]
                    if not other and kind == "call":
                        self.fail(rule, c, f.loc(), f"the required call {short(w.term, 200)} is missing and nothing else is done in its place")
                    else:
                        self.undec(rule, c, f"no call of {callee} recognised here")
                elif best[0] == 0:
                    self.ok(rule, c)
                elif best[0] == 1:
                    self.undec(rule, c, best[1])
                else:
                    self.fail(rule, c, best[2].loc(), best[1])
        if not n:
            raise AnalysisBroken(f"required text of {rule} has no call of {callee}")

    @needs_spec
    def options(self, rule, dotted, spec_text, callees, keys, cls=None, inline=(), opaque=(), bind=None, construct=None):
        """Every call of one of `callees` in the code carries, under `keys`, what some call of the same callee in the required text carries."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        name = construct or f.qual
        try:
            s = self.spec(spec_text, f, cls, inline, opaque, bind)
            o = self.run(f, cls, inline, opaque, bind)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get("SPEYVER_DEBUG"):
                raise
            return self.undec(rule, name, f"analysis error {type(e).__name__}: {e}")
        n = 0
        for callee in callees:
            want = [e for e in s.events if e.kind == "call" and e.term.op == "call" and callee_is(e, callee)]
            have = [e for e in o.events if e.kind == "call" and e.term.op == "call" and callee_is(e, callee)]
            n += len(want)
            if want and not have:
                self.undec(rule, f"{name}[{callee}]", "no such call recognised")
            for k, h in enumerate(have):
                c = f"{name}[{callee} {k}]"
                rs = [self.callmatch(h, w, False, keys) for w in want]
                if not rs:
                    continue
                best = min(rs, key=lambda r: r[0])
                if best[0] == 0:
                    self.ok(rule, c, h.loc())
                elif best[0] == 1:
                    self.undec(rule, c, best[1])
                else:
                    self.fail(rule, c, h.loc(), f"call of {callee}: {best[1]}")
        if not n:
            raise AnalysisBroken(f"required text of {rule} calls none of {callees}")

    @needs_spec
    def stores(self, rule, dotted, spec_text, cls=None, inline=(), opaque=(), before=()):
        """Every attribute assignment of the required-behaviour text occurs in the code, before the named calls."""
        f = self.func(dotted) if isinstance(dotted, str) else dotted
        s = self.spec(spec_text, f, cls, inline, opaque)
        try:
            o = self.run(f, cls, inline, opaque)
        except AnalysisBroken:
            raise
        except Exception as e:
            self.undec(rule, f.qual, f"analysis error {type(e).__name__}: {e}")
            return
        first = min([i for i, e in enumerate(o.events) if e.kind == "call" and any(callee_is(e, b) for b in before)], default=len(o.events))
        for w in [e for e in s.events if e.kind == "store"]:
            c = f"{f.qual}[{w.fn}]"
            have = [(i, e) for i, e in enumerate(o.events) if e.kind == "store" and e.fn == w.fn]
            if not have:
                if any(e.kind == "call" and e.fn in ("setattr", "builtins.setattr") for e in o.events):
                    self.undec(rule, c, "assignment not recognised")
                else:
                    self.fail(rule, c, f.loc(), f"{w.fn} is never set (required {short(w.term, 200)})")
                continue
            res = []
            for i, h in have:
                d = decide(T.ite(h.guard, h.term, T.NONE), T.ite(w.guard, w.term, T.NONE), False)
                res.append((d.status, i, d, h))
            good = [r for r in res if r[0] == "same"]
            if good and min(r[1] for r in good) < first:
                self.ok(rule, c)
            elif good:
                self.fail(rule, c, good[0][3].loc(), f"{w.fn} is set only after {' / '.join(before)}")
            elif any(r[0] == "undecided" for r in res):
                self.undec(rule, c, "value not comparable")
            else:
                self.fail(rule, c, res[-1][3].loc(), describe(res[-1][2]))

    def callmatch(self, h, w, guards, keys=None):
        def parts(t):
            d = {str(i): a for i, a in enumerate(t.args[1])}
            stars = [v for k, v in t.args[2] if k == "**"]
            d.update({k: v for k, v in t.args[2] if k != "**"})
            d.update({f"**{j}": v for j, v in enumerate(stars)})
            return d if keys is None else {k: v for k, v in d.items() if k in keys or (k.startswith("**") and "**" in keys)}

        a, b = parts(h.term), parts(w.term)
        if guards:
            a["(condition)"], b["(condition)"] = h.guard, w.guard
        hi, wi = indices(h), indices(w)
        if len(hi) == len(wi):
            b = {k: T.subst(v, dict(zip(wi, hi))) for k, v in b.items()}
        worst, msg = 0, ""
        # the same ** parts on both sides: what is missing beside them is missing
        sa, sb = [z for z in a if z.startswith("**")], [z for z in b if z.startswith("**")]
        for z in list(sb):
            m = next((y for y in sa if equiv(a[y], b[z], False).status == "same"), None)
            if m is not None:
                sa.remove(m)
                sb.remove(z)
                a.pop(m), b.pop(z)
        if sa:
            # an unpacked dictionary the specification does not know may hold whatever else it asks for
            for z in sa + sb:
                a.pop(z, None), b.pop(z, None)
            worst, msg = 1, "argument ** not comparable"
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                other = y if x is None else x
                if sa if x is None else sb and not k.startswith("**"):
                    worst, msg = max((worst, msg), (1, f"argument {k} possibly passed through **"), key=lambda z: z[0])
                    continue
                worst, msg = 2, f"argument {k} is {'missing' if x is None else 'not allowed'} (expected {short(other, 160, 4) if x is None else 'none'})"
                continue
            if T.has_unk(y) and T.has_unk(x):
                continue
            g = h.guard if not T.has_unk(h.guard) else T.TRUE
            d = decide(T.ite(g, x, T.NONE), T.ite(g, y, T.NONE), False) if g is not T.TRUE and k != "(condition)" else decide(x, y, False)
            if d.status == "undecided":
                if worst == 0:
                    worst, msg = 1, f"argument {k} not comparable"
            elif d.status != "same":
                worst, msg = 2, f"argument {k}: " + describe(d)
        return worst, msg

    def guard(self, rule, construct, fn):
        """Run one obligation; an analysis failure leaves it undecided, not the whole property."""
        try:
            fn()
        except AnalysisBroken:
            raise
        except Exception as e:  # noqa: BLE001
            self.undec(rule, construct, f"analysis error {type(e).__name__}: {e}")


def indices(e):
    """loop indices an event depends on, outermost first"""
    return sorted((x for x in T.syms(e.term) | T.syms(e.guard) if x.args[0].startswith("%j")), key=lambda x: int(x.args[0][2:]))


def callee_is(e, callee):
    f = e.term.args[0]
    if f.op == "fn":
        return f.args[0] == callee or f.args[0].endswith("." + callee)
    if f.op == "m":
        return f.args[0] == callee
    if f.op == "attr":
        return f.args[1] == callee
    return f.op == "sym" and f.args[0] == callee


def stored(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.FunctionDef):
            out.add(n.name)
    return out


def describe(d):
    path = " and ".join(("" if v else "not ") + short(x, 160, 4) for x, v in d.path) or "always"
    return f"when {path}: the code computes {short(d.a, 420, 6)} but the property requires {short(d.b, 420, 6)}"


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """[(rule, construct, text)] recorded defects that were not repaired."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            body = line[len("known: "):]
            kv, _, text = body.partition(" :: ")
            d = dict(x.split("=", 1) for x in kv.split() if "=" in x)
            if d.get("property") == prop:
                out.append((d.get("rule"), d.get("construct"), text))
    return out


def main(argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    from . import rules

    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    if tier == "thorough":
        engine.PEEL = 5
        paths.EXTRA = 1
    t0 = time.time()
    engine.DEADLINE = time.monotonic() + 480
    try:
        ctx = Ctx(prop, tier)
        rules.run(prop, ctx)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={prop}")
        return 4
    info = rules.INFO[prop]
    known = known_findings(prop)
    new = []
    for f in ctx.findings:
        hit = None
        for r, c, text in known:
            if r == f["rule"] and c == f["construct"]:
                hit = (r, c, text)
        if hit:
            print(f"KNOWN-FINDING: property={prop} rule={hit[0]} construct={hit[1]} {hit[2]}")
        else:
            new.append(f)
    held = [o for o in ctx.obligations if o[2] == "held"]
    minimum = info.get("min", 1)
    if not new and len(ctx.obligations) < (minimum + 1) // 2:
        print(f"ANALYSIS-BROKEN property={prop} only {len(ctx.obligations)} obligations found, {minimum} confirmed by hand")
        return 3
    by_rule = {}
    for r, c, s, d in ctx.obligations:
        e = by_rule.setdefault(r, {"held": 0, "violated": 0, "undecided": 0, "constructs": []})
        e[s] += 1
        if c not in e["constructs"]:
            e["constructs"].append(c)
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": info["explain"],
            "obligations": len(ctx.obligations),
            "held": len(held),
            "undecided": len(ctx.undecided),
            "functions_analysed": sorted(ctx.functions),
            "function_count": len(ctx.functions),
            "rules": by_rule,
            "undecided_detail": ctx.undecided,
            "source_digest": ctx.project.digest(),
            "modules_parsed": len([m for m in ctx.project.modules if not m.startswith("spec") or m == "spey" or m.startswith("spey.")]),
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": info.get("assumptions", []) + BASE_ASSUMPTIONS,
        "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print(f"{prop}: {len(ctx.obligations)} obligations over {len(ctx.functions)} functions: {len(held)} held, {len(ctx.undecided)} undecided, {len(new)} violated, {len(ctx.findings) - len(new)} known ({ev['wall_s']}s)")
    for r, e in sorted(by_rule.items()):
        print(f"  rule {r}: held {e['held']} undecided {e['undecided']} violated {e['violated']}")
    if os.environ.get("SPEYVER_VERBOSE"):
        for u in ctx.undecided:
            print("  UNDECIDED", u)
    if new:
        path = os.path.join(EVID, f"{prop}.violation.json")
        with open(path, "w") as fh:
            json.dump(new, fh, indent=1)
        for f in new:
            print(f"  {f['where']}: [{f['rule']}] {f['construct']}: {f['message']}")
        print(f"VIOLATION property={prop} replay=evidence/{prop}.violation.json")
        return 1
    return 0


BASE_ASSUMPTIONS = [
    "numpy/scipy functions are taken at their documented meaning; NaN ordering and floating-point rounding are not modelled",
    "values of opaque calls depend only on their arguments within one function activation",
]
