"""Path enumeration with exceptional exits, for typestate and effect rules.

A function is executed abstractly: every branch, the zero/one/two-iteration unrollings of every loop and the
exceptional exit of every call the client says may fail are followed.  Values are symbolic tuples; nested functions,
helpers and methods of the project are inlined, so rules see the same events whether code is extracted or not.
No condition is handed to a solver: a branch is cut only where the abstract value of its test is a known constant.
"""
import ast

NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)


class Overflow(Exception):
    pass


class Ev:
    __slots__ = ("kind", "a", "b", "c", "node", "mod", "held")

    def __init__(self, kind, a=None, b=None, c=None, node=None, mod=None):
        self.kind, self.a, self.b, self.c, self.node, self.mod = kind, a, b, c, node, mod

    def __repr__(self):
        return f"{self.kind}({show(self.a)}, {show(self.b)}, {show(self.c)})@{getattr(self.node, 'lineno', '?')}"


def show(v, d=5):
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        if d == 0:
            return ".."
        return v[0] + "<" + ",".join(show(x, d - 1) for x in v[1:]) + ">"
    if isinstance(v, tuple):
        return "(" + ",".join(show(x, d - 1) for x in v) + ")" if d else ".."
    return getattr(v, "name", None) or str(v)


def walk(v):
    """sub-values of a value"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


class State:
    __slots__ = ("frames", "trace", "heap", "ver", "n", "exc")

    def __init__(self):
        self.frames, self.trace, self.heap, self.ver, self.n, self.exc = {}, None, {}, {}, 0, ()

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.trace, s.heap, s.ver, s.n, s.exc = self.trace, dict(self.heap), dict(self.ver), self.n, self.exc
        return s

    def emit(self, *a, **k):
        self.trace = (Ev(*a, **k), self.trace)

    def fresh(self):
        self.n += 1
        return self.n

    def bump(self, v):
        self.ver[v] = self.ver.get(v, 0) + 1

    @property
    def events(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]


class Closure:
    """function value: definition node, module, frames in scope"""

    def __init__(self, node, mod, scope, cls=None, name=None):
        self.node, self.mod, self.scope, self.cls = node, mod, scope, cls
        self.name = name or getattr(node, "name", "<lambda>")


NEG = {"==": "!=", "!=": "==", "is": "is not", "is not": "is", "<": ">=", ">=": "<", ">": "<=", "<=": ">", "in": "not in", "not in": "in"}
OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in"}


EXTRA = 0  # loop iterations beyond those of the quick tier


class Machine:
    """client attributes: raises(machine, st, callee, args, node) -> bool; inline(closure) -> bool"""

    def __init__(self, project, raises=None, inline=None, limit=60000, depth=8, pure=(), cls=None, unroll=2):
        self.project = project
        self.raises = raises or (lambda *a: False)
        self.inline = inline or (lambda c: True)
        self.limit = limit * 20**EXTRA
        self.depth = depth
        self.count = 0
        self.closures = {}
        self._parts = {}
        self.cls = cls
        self.stack = []
        self.unroll = unroll + EXTRA

    def released(self, s, lock):
        """hook: a lock was given up, other threads may have changed what it protects"""

    # ------------------------------------------------------------ helpers
    def tick(self, n=1):
        self.count += n
        if self.count > self.limit:
            raise Overflow("too many paths")

    def closure(self, node, mod, scope, cls=None):
        k = (id(node), scope)
        if k not in self.closures:
            self.closures[k] = ("func", Closure(node, mod, scope, cls))
        return self.closures[k]

    def lookup(self, st, scope, name, mod):
        for f in reversed(scope):
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                return fr[name]
        r = self.project.lookup(mod, name)
        if r is not None:
            return self.from_project(r)
        import builtins

        if hasattr(builtins, name):
            return ("glob", "builtins." + name)
        return ("glob", name)

    def from_project(self, r):
        if r[0] == "func":
            return self.closure(r[1].node, r[1].module, (), r[1].cls)
        if r[0] == "class":
            return ("class", r[1])
        if r[0] == "const":
            m, n = r[1], r[2]
            vals = m.assigns.get(n, [])
            if len(vals) == 1 and isinstance(vals[0], ast.Constant):
                return ("const", vals[0].value)
            return ("glob", f"{m.name}.{n}")
        if r[0] == "module":
            return ("glob", r[1].name)
        return ("glob", r[1])

    # ------------------------------------------------------------ expressions: list of (state, value, exc)
    def ev(self, e, st, scope, mod):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.generic(e, st, scope, mod)
        return m(e, st, scope, mod)

    def seq(self, exprs, st, scope, mod):
        """evaluate several expressions in order: list of (state, [values], exc)"""
        out = [(st, [], None)]
        for x in exprs:
            nxt = []
            for s, vs, ex in out:
                if ex is not None:
                    nxt.append((s, vs, ex))
                    continue
                for s2, v, ex2 in self.ev(x, s, scope, mod):
                    nxt.append((s2, vs + [v], ex2))
            out = nxt
        return out

    def generic(self, e, st, scope, mod):
        subs = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return [(s, ("op", type(e).__name__) + tuple(vs), ex) for s, vs, ex in self.seq(subs, st, scope, mod)]

    def e_Constant(self, e, st, scope, mod):
        return [(st, ("const", e.value), None)]

    def e_Name(self, e, st, scope, mod):
        return [(st, self.lookup(st, scope, e.id, mod), None)]

    def e_JoinedStr(self, e, st, scope, mod):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return [(s, ("op", "fstr") + tuple(vs), ex) for s, vs, ex in self.seq(parts, st, scope, mod)]

    def e_Tuple(self, e, st, scope, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.generic(e, st, scope, mod)
        return [(s, ("tuple", tuple(vs)), ex) for s, vs, ex in self.seq(e.elts, st, scope, mod)]

    def e_Starred(self, e, st, scope, mod):
        return [(s, ("star", v), ex) for s, v, ex in self.ev(e.value, st, scope, mod)]

    def alloc(self, st, what):
        return ("alloc", st.fresh(), what)

    def e_List(self, e, st, scope, mod):
        out = []
        for s, vs, ex in self.seq(e.elts, st, scope, mod):
            a = self.alloc(s, "list")
            s.heap[("init", a)] = tuple(vs)
            out.append((s, a, ex))
        return out

    def e_Set(self, e, st, scope, mod):
        return [(s, self.alloc(s, "set"), ex) for s, vs, ex in self.seq(e.elts, st, scope, mod)]

    def e_Dict(self, e, st, scope, mod):
        out = []
        for s, vs, ex in self.seq([k for k in e.keys if k is not None] + list(e.values), st, scope, mod):
            a = self.alloc(s, "dict")
            s.heap[("init", a)] = tuple(vs)
            n = len([k for k in e.keys if k is not None])
            if n == len(e.values) and ex is None:
                for k, v in zip(vs[:n], vs[n:]):
                    s.heap[("item", a, k)] = v
            out.append((s, a, ex))
        return out

    def e_Lambda(self, e, st, scope, mod):
        return [(st, self.closure(e, mod, scope), None)]

    def comp(self, e, elts, kind, st, scope, mod):
        fid = st.fresh()
        st = st.fork()
        st.frames[fid] = {}
        sc = scope + (fid,)
        outs = [(st, (), None)]
        for g in e.generators:
            nxt = []
            for s, its, ex in outs:
                if ex is not None:
                    nxt.append((s, its, ex))
                    continue
                for s2, it, ex2 in self.ev(g.iter, s, sc, mod):
                    if ex2 is None:
                        self.bind_target(g.target, ("elem", it), s2, sc, mod)
                    nxt.append((s2, its + (it,), ex2))
            outs = nxt
        res = []
        for s, its, ex in outs:
            if ex is not None:
                res.append((s, ("unk", s.fresh()), ex))
                continue
            conds = [c for g in e.generators for c in g.ifs]
            for s2, vs, ex2 in self.seq(conds + elts, s, sc, mod):
                n = len(conds)
                res.append((s2, ("comp", kind, tuple(vs[n:]) if ex2 is None else (), its, tuple(vs[:n])), ex2))
        return res

    def e_ListComp(self, e, st, scope, mod):
        return self.comp(e, [e.elt], "list", st, scope, mod)

    def e_GeneratorExp(self, e, st, scope, mod):
        return self.comp(e, [e.elt], "gen", st, scope, mod)

    def e_SetComp(self, e, st, scope, mod):
        return self.comp(e, [e.elt], "set", st, scope, mod)

    def e_DictComp(self, e, st, scope, mod):
        return self.comp(e, [e.key, e.value], "dict", st, scope, mod)

    def e_Attribute(self, e, st, scope, mod):
        out = []
        for s, v, ex in self.ev(e.value, st, scope, mod):
            out.append((s, self.getattr(s, v, e.attr, e, mod) if ex is None else v, ex))
        return out

    def getattr(self, s, v, name, node, mod):
        if v[0] == "glob":
            d = v[1] + "." + name
            r = self.project.resolve(d)
            if d.split(".")[0] in ("logging", "sys", "warnings"):
                s.emit("attr", v, name, 0, node=node, mod=mod)
            return self.from_project(r) if r[0] in ("func", "class", "const") else ("glob", d)
        if ("attr", v, name) in s.heap:
            return s.heap[("attr", v, name)]
        c = self.class_of(v)
        if c is not None:
            r = self.find_method(c, name)
            if r is not None and not r.is_property:
                if r.is_static:
                    return self.closure(r.node, r.module, (), r.cls)
                return ("bound", self.closure(r.node, r.module, (), r.cls), v)
        s.emit("attr", v, name, s.ver.get(v, 0), node=node, mod=mod)
        return ("attr", v, name, s.ver.get(v, 0))

    def class_of(self, v):
        if v[0] == "alloc" and not isinstance(v[2], str):
            return v[2]
        if v == ("param", "self") and self.cls is not None:
            return self.cls
        return None

    def find_method(self, c, name):
        mro = self.project.mro(c) if hasattr(self.project, "mro") else [c]
        for k in mro:
            if name in getattr(k, "methods", {}):
                return k.methods[name]
        return None

    def e_Subscript(self, e, st, scope, mod):
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            whole = len(parts) == 1
            return [(s, ("copy", vs[0]) if whole and ex is None else ("op", "slice") + tuple(vs), ex) for s, vs, ex in self.seq(parts, st, scope, mod)]
        out = []
        for s, vs, ex in self.seq([e.value, e.slice], st, scope, mod):
            if ex is not None:
                out.append((s, NONE, ex))
                continue
            b, k = vs
            s.emit("getitem", b, k, node=e, mod=mod)
            out.append((s, self.item(s, b, k), None))
        return out

    def item(self, s, b, k):
        if ("item", b, k) in s.heap:
            v = s.heap[("item", b, k)]
            if v is not None:
                return v
        if b[0] == "tuple" and k[0] == "const" and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        return ("item", b, k, s.ver.get(b, 0))

    def e_IfExp(self, e, st, scope, mod):
        out = []
        for s, t, ex in self.test(e.test, st, scope, mod):
            if ex is not None:
                out.append((s, NONE, ex))
            else:
                out.extend(self.ev(e.body if t else e.orelse, s, scope, mod))
        return out

    def e_BoolOp(self, e, st, scope, mod):
        # value semantics: and/or return one of the operands
        out = []
        cur = [(st, 0)]
        is_and = isinstance(e.op, ast.And)
        while cur:
            s, i = cur.pop()
            if i == len(e.values) - 1:
                out.extend(self.ev(e.values[i], s, scope, mod))
                continue
            for s2, v, ex in self.ev(e.values[i], s, scope, mod):
                if ex is not None:
                    out.append((s2, v, ex))
                    continue
                for s3, t in self.truth(v, s2, e.values[i], mod):
                    if t == is_and:
                        cur.append((s3, i + 1))
                    else:
                        out.append((s3, v, None))
        return out

    def e_UnaryOp(self, e, st, scope, mod):
        if isinstance(e.op, ast.Not):
            return [(s, ("const", not t), ex) if ex is None else (s, NONE, ex) for s, t, ex in self.test(e.operand, st, scope, mod)]
        return self.generic(e, st, scope, mod)

    def e_Compare(self, e, st, scope, mod):
        out = []
        for s, vs, ex in self.seq([e.left] + e.comparators, st, scope, mod):
            if ex is not None:
                out.append((s, NONE, ex))
                continue
            parts = []
            for i, o in enumerate(e.ops):
                parts.append(self.compare(s, OPS[type(o)], vs[i], vs[i + 1], e, mod))
            out.append((s, parts[0] if len(parts) == 1 else ("op", "all") + tuple(parts), None))
        return out

    def compare(self, s, op, a, b, node=None, mod=None):
        if op in ("in", "not in"):
            s.emit("contains", b, a, node=node, mod=mod)
            if b[0] == "alloc" and ("item", b, a) in s.heap:
                r = s.heap[("item", b, a)] is not None
                return ("const", r if op == "in" else not r)
        if op in ("is", "is not", "==", "!="):
            known = None
            if a == b and a[0] not in ("unk",):
                known = True
            elif a[0] == "const" and b[0] == "const":
                known = a[1] is b[1] if op.startswith("is") else a[1] == b[1]
            elif NONE in (a, b) and (b if a == NONE else a)[0] in ("alloc", "func", "tuple", "class", "bound", "comp"):
                known = False
            elif a[0] == "alloc" and b[0] in ("alloc", "glob") and a != b and op.startswith("is"):
                known = False
            elif b[0] == "alloc" and a[0] in ("alloc", "glob") and a != b and op.startswith("is"):
                known = False
            if known is not None:
                return ("const", known if op in ("is", "==") else not known)
        return ("cmp", op, a, b)

    def truth(self, v, st, node, mod):
        """[(state, bool)] with the assumption recorded"""
        if v[0] == "const":
            return [(st, bool(v[1]))]
        if v[0] in ("func", "class", "bound"):
            return [(st, True)]
        if v[0] == "op" and v[1] == "all":
            out, cur = [], [st]
            for p in v[2:]:
                nxt = []
                for s in cur:
                    for s2, t in self.truth(p, s, node, mod):
                        (nxt.append(s2) if t else out.append((s2, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        key = ("cmp", NEG[v[1]], v[2], v[3]) if v[0] == "cmp" and v[1] in ("is not", "!=", "not in") else v
        flip = key is not v
        if ("fact", key) in st.heap:
            return [(st, st.heap[("fact", key)] != flip)]
        out = []
        for t in (True, False):
            s = st.fork()
            s.heap[("fact", key)] = t != flip
            s.emit("assume", key, t != flip, node=node, mod=mod)
            out.append((s, t))
        self.tick(4)
        return out

    def test(self, e, st, scope, mod):
        """[(state, bool, exc)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, (not t) if ex is None else t, ex) for s, t, ex in self.test(e.operand, st, scope, mod)]
        if isinstance(e, ast.BoolOp):
            out, cur = [], [(st, 0)]
            is_and = isinstance(e.op, ast.And)
            while cur:
                s, i = cur.pop()
                for s2, t, ex in self.test(e.values[i], s, scope, mod):
                    if ex is not None:
                        out.append((s2, t, ex))
                    elif t == is_and and i + 1 < len(e.values):
                        cur.append((s2, i + 1))
                    else:
                        out.append((s2, t, None))
            return out
        out = []
        for s, v, ex in self.ev(e, st, scope, mod):
            if ex is not None:
                out.append((s, False, ex))
            else:
                out.extend((s2, t, None) for s2, t in self.truth(v, s, e, mod))
        return out

    def e_NamedExpr(self, e, st, scope, mod):
        out = []
        for s, v, ex in self.ev(e.value, st, scope, mod):
            if ex is None:
                self.bind_target(e.target, v, s, scope, mod)
            out.append((s, v, ex))
        return out

    def e_Yield(self, e, st, scope, mod):
        out = []
        outs = self.ev(e.value, st, scope, mod) if e.value is not None else [(st, NONE, None)]
        for s, v, ex in outs:
            if ex is not None:
                out.append((s, v, ex))
                continue
            s.emit("yield", v, node=e, mod=mod)
            s2 = s.fork()
            s2.emit("thrown", ("glob", "BaseException"), node=e, mod=mod)
            out.append((s, ("sent", s.fresh()), None))
            out.append((s2, NONE, ("exc", "any", e.lineno)))
        return out

    def e_Await(self, e, st, scope, mod):
        return self.generic(e, st, scope, mod)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, scope, mod):
        out = []
        args = [a for a in e.args]
        kws = e.keywords
        for s, vs, ex in self.seq([e.func] + args + [k.value for k in kws], st, scope, mod):
            if ex is not None:
                out.append((s, NONE, ex))
                continue
            f, pos, kv = vs[0], vs[1:1 + len(args)], vs[1 + len(args):]
            out.extend(self.call(s, f, tuple(pos), tuple((k.arg, v) for k, v in zip(kws, kv)), e, scope, mod))
        return out

    CTORS = {
        "threading.Lock": "lock", "threading.RLock": "rlock", "threading.Event": "event", "threading.Condition": "condition",
        "collections.deque": "deque", "collections.OrderedDict": "dict", "builtins.dict": "dict", "builtins.list": "list", "builtins.set": "set",
        "collections.defaultdict": "dict", "weakref.WeakKeyDictionary": "weakdict", "weakref.WeakValueDictionary": "weakdict", "builtins.object": "object",
    }

    def call(self, s, f, pos, kw, node, scope, mod):
        self.tick()
        if f[0] == "glob" and f[1] in self.CTORS and not (pos and self.CTORS[f[1]] in ("dict", "list", "set", "deque")):
            return [(s, self.alloc(s, self.CTORS[f[1]]), None)]
        if f[0] == "glob" and f[1] in ("functools.wraps",):
            return [(s, ("identity",), None)]
        if f[0] == "identity" and pos:
            return [(s, pos[0], None)]
        if f[0] == "glob" and f[1] == "builtins.getattr" and len(pos) >= 2 and pos[1][0] == "const" and isinstance(pos[1][1], str):
            if ("attr", pos[0], pos[1][1]) in s.heap:
                return [(s, s.heap[("attr", pos[0], pos[1][1])], None)]
            s.emit("attr", pos[0], pos[1][1], s.ver.get(pos[0], 0), node=node, mod=mod)
            return [(s, ("attr", pos[0], pos[1][1], s.ver.get(pos[0], 0)), None)]
        if f[0] == "glob" and f[1] in ("copy.copy", "builtins.list", "builtins.tuple", "builtins.dict") and len(pos) == 1:
            return [(s, ("copy", pos[0]), None)]
        b, name = self.method(f)
        if b is not None and b[0] == "alloc" and isinstance(b[2], str):
            r = self.builtin_method(s, b, name, pos, kw, node, mod)
            if r is not None:
                return r
        c = f[1] if f[0] == "func" else f[1][1] if f[0] == "bound" else None
        if c is not None:
            bpos = ((f[2],) + pos) if f[0] == "bound" else pos
            if self.inline(c) and len(self.stack) < self.depth and c.node not in self.stack and not is_generator(c.node):
                return self.enter(s, c, bpos, kw, node)
        if f[0] == "class":
            k = f[1]
            init = self.find_method(k, "__init__")
            a = ("alloc", s.fresh(), k)
            if init is not None and len(self.stack) < self.depth and init.node not in self.stack:
                res = []
                for s2, v, ex in self.enter(s, self.closure(init.node, init.module, (), init.cls)[1], (a,) + pos, kw, node):
                    res.append((s2, a, ex))
                return res
            s.emit("call", f, pos, kw, node=node, mod=mod)
            return [(s, a, None)]
        s.emit("call", f, pos, kw, node=node, mod=mod)
        if c is not None and is_pure(c.node):
            return [(s, ("pcall", f, pos, kw), None)]
        if b is not None:
            s.bump(b)
        v = ("call", s.fresh(), f, pos, kw)
        out = [(s, v, None)]
        r = self.raises(self, s, f, pos, node)
        for x in (("any",) if r is True else r or ()):
            s2 = s.fork()
            s2.emit("thrown", f, pos, kw, node=node, mod=mod)
            out.append((s2, NONE, ("exc", x, getattr(node, "lineno", 0))))
        return out

    def method(self, f):
        if f[0] == "attr":
            return f[1], f[2]
        return None, None

    def builtin_method(self, s, b, name, pos, kw, node, mod):
        """methods of locally created dictionaries, queues, locks and events"""
        kind = b[2]
        ev = lambda k, *a: s.emit(k, b, *a, node=node, mod=mod)
        if kind in ("lock", "rlock", "condition"):
            if name in ("acquire", "release", "__enter__", "__exit__"):
                ev("acquire" if name in ("acquire", "__enter__") else "release")
                if name in ("release", "__exit__"):
                    self.released(s, b)
                return [(s, TRUE, None)]
        if kind == "event" and name in ("set", "wait", "clear", "is_set"):
            ev("event-" + name)
            return [(s, TRUE if name == "wait" and not pos and not kw else ("unk", s.fresh()), None)]
        if kind in ("dict", "weakdict"):
            if name in ("get", "pop", "setdefault", "__getitem__", "__setitem__", "__delitem__") and pos:
                k = pos[0]
                ev({"get": "get", "pop": "popitem", "setdefault": "setdefault"}.get(name, name), k, pos[1] if len(pos) > 1 else None)
                known = s.heap.get(("item", b, k), "?")
                dflt = pos[1] if len(pos) > 1 else NONE
                if name == "pop":
                    s.heap[("item", b, k)] = None
                    s.bump(b)
                    return [(s, known if known not in ("?", None) else dflt if known is None else ("item", b, k, s.ver.get(b, 0)), None)]
                if name == "__setitem__":
                    self.setitem(s, b, k, pos[1], node, mod)
                    return [(s, NONE, None)]
                return [(s, known if known not in ("?", None) else dflt if known is None else ("get", b, k, s.ver.get(b, 0)), None)]
            if name == "clear":
                ev("clear")
                for kk in [x for x in s.heap if x[0] == "item" and x[1] == b]:
                    s.heap[kk] = None
                s.bump(b)
                return [(s, NONE, None)]
            ev("dict-" + str(name), pos)
            return [(s, ("view", b, name, s.ver.get(b, 0)), None)]
        if kind in ("deque", "list", "set"):
            if name in ("append", "appendleft", "add", "insert", "extend"):
                ev("append", pos[-1] if pos else NONE, name)
                s.bump(b)
                self.forget(s, b)
                return [(s, NONE, None)]
            if name in ("popleft", "pop", "remove", "discard", "clear"):
                ev("take", name, pos)
                s.bump(b)
                self.forget(s, b)
                return [(s, ("taken", b, s.fresh()), None)]
        return None

    def forget(self, s, b):
        for k in [x for x in s.heap if x[0] == "fact" and (b in self.parts(x) if b[0] == "alloc" else any(y == b for y in walk(x[1])))]:
            del s.heap[k]

    def parts(self, fact):
        """allocated objects a recorded fact mentions (facts are shared between states, so cached by identity)"""
        r = self._parts.get(id(fact))
        if r is None or r[0] is not fact:
            r = (fact, {y for y in walk(fact[1]) if y[0] == "alloc"})
            self._parts[id(fact)] = r
        return r[1]

    def enter(self, s, c, pos, kw, node):
        s = s.fork()
        fid = s.fresh()
        fr = {}
        a = c.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        rest = list(pos)
        i = 0
        while rest and i < len(names) and rest[0][0] != "star":
            fr[names[i]] = rest.pop(0)
            i += 1
        if a.vararg is not None:
            fr[a.vararg.arg] = rest[0][1] if len(rest) == 1 and rest[0][0] == "star" else ("tuple", tuple(rest))
        extra = []
        for k, v in kw:
            if k is not None and (k in names or k in [x.arg for x in a.kwonlyargs]):
                fr[k] = v
            else:
                extra.append((k, v))
        if a.kwarg is not None:
            fr[a.kwarg.arg] = extra[0][1] if len(extra) == 1 and extra[0][0] is None else ("kw", tuple(extra))
        dpos = names[len(names) - len(a.defaults):] if a.defaults else []
        unknown = any(p[0] == "star" for p in rest) or any(k is None for k, _ in extra)
        s.frames[fid] = fr
        scope = c.scope + (fid,)
        for n, d in list(zip(dpos, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in fr:
                if unknown:
                    fr[n] = ("unk", s.fresh())
                else:
                    r = self.ev(d, s, c.scope, c.mod)
                    fr[n] = r[0][1]
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in fr:
                fr[n] = ("unk", s.fresh())
        self.stack.append(c.node)
        try:
            if isinstance(c.node, ast.Lambda):
                return self.ev(c.node.body, s, scope, c.mod)
            out = []
            for s2, o in self.block(c.node.body, [s], scope, c.mod):
                if o is None:
                    out.append((s2, NONE, None))
                elif o[0] == "return":
                    out.append((s2, o[1], None))
                elif o[0] == "raise":
                    out.append((s2, NONE, o[1]))
                else:
                    out.append((s2, NONE, None))
            return out
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ statements
    def bind_target(self, t, v, s, scope, mod, node=None):
        if isinstance(t, ast.Name):
            fid = scope[-1]
            if t.id in s.frames[fid].get("%nonlocal", ()):
                for f in reversed(scope[:-1]):
                    if t.id in s.frames.get(f, {}):
                        fid = f
                        break
            s.frames[fid][t.id] = v
            if t.id in s.frames[fid].get("%global", ()):
                s.emit("setglobal", ("glob", f"{mod.name}.{t.id}"), v, node=node or t, mod=mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind_target(x.value, ("unk", s.fresh()), s, scope, mod)
                else:
                    self.bind_target(x, v[1][i] if v[0] == "tuple" and i < len(v[1]) else ("item", v, ("const", i), 0), s, scope, mod)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, s, scope, mod)
            b = r[0][1]
            s.emit("setattr", b, t.attr, v, node=node or t, mod=mod)
            s.bump(b)
            s.heap[("attr", b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                r = self.ev(t.value, s, scope, mod)
                s.emit("setslice", r[0][1], v, node=node or t, mod=mod)
                s.bump(r[0][1])
                return
            b = self.ev(t.value, s, scope, mod)[0][1]
            k = self.ev(t.slice, s, scope, mod)[0][1]
            self.setitem(s, b, k, v, node or t, mod)
        elif isinstance(t, ast.Starred):
            self.bind_target(t.value, v, s, scope, mod)

    def setitem(self, s, b, k, v, node, mod):
        s.emit("setitem", b, k, v, node=node, mod=mod)
        s.bump(b)
        s.heap[("item", b, k)] = v
        self.forget(s, b)

    def block(self, stmts, states, scope, mod):
        """list of (state, outcome)"""
        done = []
        cur = list(states)
        for st in stmts:
            nxt = []
            for s in cur:
                for s2, o in self.stmt(st, s, scope, mod):
                    (nxt.append(s2) if o is None else done.append((s2, o)))
            cur = self.merge(nxt)
            if not cur:
                break
        return done + [(s, None) for s in cur]

    def merge(self, states):
        self.tick(len(states))
        return states

    def stmt(self, n, s, scope, mod):
        self.tick()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(s, None)]
        return m(n, s, scope, mod)

    def s_Expr(self, n, s, scope, mod):
        return [(s2, None if ex is None else ("raise", ex)) for s2, v, ex in self.ev(n.value, s, scope, mod)]

    def s_Assign(self, n, s, scope, mod):
        out = []
        for s2, v, ex in self.ev(n.value, s, scope, mod):
            if ex is not None:
                out.append((s2, ("raise", ex)))
                continue
            s2 = s2.fork()
            for t in n.targets:
                self.bind_target(t, v, s2, scope, mod, n)
            out.append((s2, None))
        return out

    def s_AnnAssign(self, n, s, scope, mod):
        if n.value is None:
            return [(s, None)]
        out = []
        for s2, v, ex in self.ev(n.value, s, scope, mod):
            if ex is not None:
                out.append((s2, ("raise", ex)))
                continue
            s2 = s2.fork()
            self.bind_target(n.target, v, s2, scope, mod, n)
            out.append((s2, None))
        return out

    def s_AugAssign(self, n, s, scope, mod):
        out = []
        import copy as _c

        load = _c.copy(n.target)
        load.ctx = ast.Load()
        for s2, vs, ex in self.seq([load, n.value], s, scope, mod):
            if ex is not None:
                out.append((s2, ("raise", ex)))
                continue
            s2 = s2.fork()
            s2.emit("augassign", vs[0], vs[1], type(n.op).__name__, node=n, mod=mod)
            self.bind_target(n.target, ("op", "aug" + type(n.op).__name__) + tuple(vs), s2, scope, mod, n)
            out.append((s2, None))
        return out

    def s_Return(self, n, s, scope, mod):
        if n.value is None:
            return [(s, ("return", NONE))]
        return [(s2, ("return", v) if ex is None else ("raise", ex)) for s2, v, ex in self.ev(n.value, s, scope, mod)]

    def s_Raise(self, n, s, scope, mod):
        if n.exc is None:
            return [(s, ("raise", s.exc[-1] if s.exc else ("exc", "any", n.lineno)))]
        out = []
        for s2, v, ex in self.ev(n.exc, s, scope, mod):
            cur = s2.exc[-1] if s2.exc else None
            out.append((s2, ("raise", ex if ex is not None else cur if v[0] == "caught" else ("exc", v, n.lineno))))
        return out

    def s_If(self, n, s, scope, mod):
        out = []
        for s2, t, ex in self.test(n.test, s, scope, mod):
            if ex is not None:
                out.append((s2, ("raise", ex)))
            else:
                out.extend(self.block(n.body if t else n.orelse, [s2], scope, mod))
        return out

    def s_While(self, n, s, scope, mod):
        out = []
        cur = [s]
        for i in range(self.unroll + 1):
            nxt = []
            for st in cur:
                for s2, t, ex in self.test(n.test, st, scope, mod):
                    if ex is not None:
                        out.append((s2, ("raise", ex)))
                    elif not t:
                        out.extend(self.block(n.orelse, [s2], scope, mod))
                    elif i < self.unroll:
                        for s3, o in self.block(n.body, [s2], scope, mod):
                            if o is None or o[0] == "continue":
                                nxt.append(s3)
                            elif o[0] == "break":
                                out.append((s3, None))
                            else:
                                out.append((s3, o))
            cur = nxt
        return out

    def s_For(self, n, s, scope, mod):
        out = []
        for s1, it, ex in self.ev(n.iter, s, scope, mod):
            if ex is not None:
                out.append((s1, ("raise", ex)))
                continue
            cur = [s1]
            for i in range(self.unroll + 1):
                nxt = []
                for st in cur:
                    e = st.fork()
                    e.emit("loop-end", it, i, node=n, mod=mod)
                    out.extend(self.block(n.orelse, [e], scope, mod))
                    if i == self.unroll:
                        continue
                    b = st.fork()
                    b.emit("loop-iter", it, i, node=n, mod=mod)
                    self.bind_target(n.target, ("elem", it), b, scope, mod)
                    for s3, o in self.block(n.body, [b], scope, mod):
                        if o is None or o[0] == "continue":
                            nxt.append(s3)
                        elif o[0] == "break":
                            out.append((s3, None))
                        else:
                            out.append((s3, o))
                cur = nxt
        return out

    def s_Break(self, n, s, scope, mod):
        return [(s, ("break",))]

    def s_Continue(self, n, s, scope, mod):
        return [(s, ("continue",))]

    def s_Delete(self, n, s, scope, mod):
        s = s.fork()
        for t in n.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                b = self.ev(t.value, s, scope, mod)[0][1]
                k = self.ev(t.slice, s, scope, mod)[0][1]
                s.emit("delitem", b, k, node=n, mod=mod)
                s.heap[("item", b, k)] = None
                s.bump(b)
                self.forget(s, b)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, s, scope, mod)[0][1]
                s.emit("delslice", b, node=n, mod=mod)
                s.bump(b)
            elif isinstance(t, ast.Name):
                s.frames[scope[-1]].pop(t.id, None)
        return [(s, None)]

    def s_Nonlocal(self, n, s, scope, mod):
        s = s.fork()
        fr = s.frames[scope[-1]]
        fr["%nonlocal"] = tuple(fr.get("%nonlocal", ())) + tuple(n.names)
        return [(s, None)]

    def s_Global(self, n, s, scope, mod):
        s = s.fork()
        fr = s.frames[scope[-1]]
        fr["%global"] = tuple(fr.get("%global", ())) + tuple(n.names)
        return [(s, None)]

    def s_FunctionDef(self, n, s, scope, mod):
        s = s.fork()
        s.frames[scope[-1]][n.name] = self.closure(n, mod, scope)
        return [(s, None)]

    def s_ClassDef(self, n, s, scope, mod):
        s = s.fork()
        s.frames[scope[-1]][n.name] = ("glob", "local class " + n.name)
        return [(s, None)]

    def s_Import(self, n, s, scope, mod):
        return [(s, None)]

    def s_Assert(self, n, s, scope, mod):
        out = []
        for s2, t, ex in self.test(n.test, s, scope, mod):
            out.append((s2, ("raise", ex) if ex is not None else None if t else ("raise", ("exc", ("glob", "builtins.AssertionError"), n.lineno))))
        return out

    def handler_matches(self, h, exc, mod):
        """True, False or None (maybe)"""
        if h.type is None:
            return True
        names = [t for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        dn = [dotted(x) for x in names]
        if "BaseException" in dn:
            return True
        if exc[1] != "any":
            c = exc[1]
            cn = c[2][1] if c[0] == "call" and c[2][0] == "glob" else c[1] if c[0] == "glob" else None
            if c[0] == "alloc" and not isinstance(c[2], str):
                cn = c[2].name
            if cn is not None:
                last = cn.split(".")[-1]
                if any(d.split(".")[-1] == last for d in dn if d):
                    return True
                if "Exception" in dn:
                    return last not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit", "BaseException")
        return None

    def s_Try(self, n, s, scope, mod):
        res = []
        for s2, o in self.block(n.body, [s], scope, mod):
            if o is None:
                res.extend(self.block(n.orelse, [s2], scope, mod) if n.orelse else [(s2, None)])
            elif o[0] == "raise":
                pending = True
                for h in n.handlers:
                    m = self.handler_matches(h, o[1], mod)
                    if m is False:
                        continue
                    b = s2.fork()
                    b.emit("caught", h.type, o[1], node=h, mod=mod)
                    b.exc = b.exc + (o[1],)
                    if h.name:
                        b.frames[scope[-1]][h.name] = ("caught", o[1])
                    for s3, o3 in self.block(h.body, [b], scope, mod):
                        s3.exc = s3.exc[:-1]
                        res.append((s3, o3))
                    if m is True:
                        pending = False
                        break
                if pending:
                    res.append((s2, o))
            else:
                res.append((s2, o))
        if not n.finalbody:
            return res
        out = []
        for s2, o in res:
            for s3, o3 in self.block(n.finalbody, [s2], scope, mod):
                out.append((s3, o3 if o3 is not None else o))
        return out

    def s_With(self, n, s, scope, mod, i=0):
        if i == len(n.items):
            return self.block(n.body, [s], scope, mod)
        it = n.items[i]
        out = []
        for s1, v, ex in self.ev(it.context_expr, s, scope, mod):
            if ex is not None:
                out.append((s1, ("raise", ex)))
                continue
            s1 = s1.fork()
            lock = v[0] == "alloc" and v[2] in ("lock", "rlock", "condition")
            s1.emit("acquire" if lock else "enter", v, node=n, mod=mod)
            if it.optional_vars is not None:
                self.bind_target(it.optional_vars, ("entered", v), s1, scope, mod)
            for s2, o in self.s_With(n, s1, scope, mod, i + 1):
                s2 = s2.fork()
                s2.emit("release" if lock else "exit", v, o, node=n, mod=mod)
                if lock:
                    self.released(s2, v)
                swallow = o is not None and o[0] == "raise" and v[0] == "call" and v[2] == ("glob", "contextlib.suppress")
                if swallow:
                    out.append((s2.fork(), None))
                out.append((s2, o))
        return out

    def s_Match(self, n, s, scope, mod):
        raise Overflow("match statement")


EFFECTS = {"set", "wait", "append", "appendleft", "pop", "popleft", "clear", "acquire", "release", "add", "remove", "update", "setdefault", "extend", "insert", "discard", "popitem", "addHandler", "removeHandler", "setLevel"}
_pure = {}


def is_pure(node):
    """no stores outside locals, no mutating method calls, no context managers (syntactic)"""
    if node not in _pure:
        ok = True
        for x in ast.walk(node):
            if isinstance(x, (ast.Delete, ast.With, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                ok = False
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                ok = False
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in EFFECTS:
                ok = False
        _pure[node] = ok
    return _pure[node]


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def dotted(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        b = dotted(x.value)
        return (b + "." if b else "") + x.attr
    return ""
