"""Process-wide state: logging, warning filters and interpreter switches (S22)."""
import ast
import os

from . import prop
from ..paths import Machine, State, Overflow, walk, dotted, show, is_pure
from ..project import REPO

SETTERS = {
    "spey.set_optimiser": "documented setter of the default minimiser",
    "spey.set_log_level": "documented setter of the verbosity",
    "spey.system.logger.init": "documented logging set-up",
}
TRIGGER_CALLS = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter", "filterwarnings", "simplefilter", "resetwarnings", "seterr", "seterrcall", "set_printoptions", "chdir", "umask", "putenv", "unsetenv", "setrecursionlimit", "setlocale", "settrace", "setprofile", "basicConfig", "disable", "captureWarnings", "setswitchinterval", "setLoggerClass"}
TRIGGER_ATTRS = {"propagate", "level", "handlers", "disabled", "stdout", "stderr", "excepthook", "displayhook", "showwarning", "formatwarning", "filters", "stdin"}
CMS = {"warnings.catch_warnings", "numpy.errstate", "numpy.printoptions", "contextlib.redirect_stdout", "contextlib.redirect_stderr"}


def loc(mod, node):
    return f"{os.path.relpath(mod.path, REPO)}:{getattr(node, 'lineno', 0)}"


def own_nodes(node):
    """nodes of a function body without those of nested definitions"""
    st = list(ast.iter_child_nodes(node)) if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else list(node.body)
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(x))


def triggers(project, mod, node):
    out = []
    for x in own_nodes(node):
        if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
            if n in TRIGGER_CALLS:
                out.append(x)
            elif n in ("pop", "update", "setdefault", "clear") and isinstance(x.func, ast.Attribute) and dotted(x.func.value).endswith("environ"):
                out.append(x)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in TRIGGER_ATTRS and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
            out.append(x)
        if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
            d = dotted(x.value)
            if d.endswith("environ") or d.endswith(".handlers"):
                out.append(x)
    return out


class Functions:
    """all function definitions, nested ones included"""

    def __init__(self, project):
        self.all = []
        for m in project.modules.values():
            if not m.name.startswith("spey"):
                continue
            self.visit(m, m.tree, None, None, m.name)
        self.by_node = {f[1]: f for f in self.all}

    def visit(self, mod, node, cls, outer, qual):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.all.append((mod, x, cls, outer, qual + "." + x.name))
                self.visit(mod, x, None, x, qual + "." + x.name)
            elif isinstance(x, ast.ClassDef):
                self.visit(mod, x, x, outer, qual + "." + x.name)
            else:
                self.visit(mod, x, cls, outer, qual)


def is_cm(node):
    return any(dotted(d.func if isinstance(d, ast.Call) else d).split(".")[-1] in ("contextmanager", "asynccontextmanager") for d in getattr(node, "decorator_list", ()))


class StateMachine(Machine):
    pass


def process_object(m, v, depth=0):
    """canonical key of a process-wide object"""
    if v[0] == "call" and v[2][0] == "glob" and v[2][1].endswith("getLogger"):
        a = v[3][0] if v[3] else ("const", None)
        return ("logger", a[1] if a[0] == "const" else show(a, 4))
    if v[0] == "glob":
        if v[1] == "logging.root":
            return ("logger", None)
        if v[1] in ("sys", "warnings", "logging", "os") or v[1].startswith("logging."):
            return ("module", v[1])
        if depth < 3 and v[1].startswith("spey"):
            modn, _, name = v[1].rpartition(".")
            mod = m.project.modules.get(modn)
            vals = mod.assigns.get(name, []) if mod is not None else []
            if len(vals) == 1:
                st = State()
                r = m.ev(vals[0], st, (), mod)
                if r and r[0][1] != v:
                    return process_object(m, r[0][1], depth + 1)
    if v[0] == "attr" and v[2] in ("manager", "root", "parent"):
        return ("sub", process_object(m, v[1]), v[2]) if process_object(m, v[1]) else None
    return None


class Cells:
    """abstract process state along one path"""

    def __init__(self, m):
        self.m = m
        self.changed = {}   # cell -> event
        self.orig = {}      # cell -> set of values read while unchanged
        self.extra = {}     # logger -> set of added handlers
        self.removed = {}   # logger -> event
        self.inplace = set()
        self.guard = []     # open catch_warnings/errstate blocks
        self.unknown = None
        self.restores = []  # handlers put back

    def cell(self, base, name):
        k = process_object(self.m, base)
        if k is None:
            return None
        if name == "disable" and (k[0] == "sub" or (k[0] == "module" and k[1].endswith("manager")) or k == ("module", "logging")):
            return ("logging.disable",)
        return (k, name)

    def source(self, v, base_key):
        """('copy'|'live', value) when v is the list of handlers of the logger as read at the start"""
        kind = "live"
        while True:
            if v[0] == "copy":
                v, kind = v[1], "copy"
            elif v[0] == "call" and v[2][0] == "attr" and v[2][2] == "copy" and not v[3]:
                v, kind = v[2][1], "copy"
            elif v[0] == "call" and v[2] in (("glob", "builtins.list"), ("glob", "builtins.tuple"), ("glob", "copy.copy"), ("glob", "builtins.reversed")) and v[3]:
                v, kind = v[3][0], "copy"
            elif v[0] == "comp" and len(v[3]) == 1 and v[2][0] == ("elem", v[3][0]) and not v[4]:
                v, kind = v[3][0], "copy"
            else:
                break
        if v[0] == "attr" and v[2] == "handlers" and process_object(self.m, v[1]) == base_key:
            return kind, v
        return None, None

    def set(self, cell, value, e):
        if value is not None and value in self.orig.get(cell, ()):
            self.changed.pop(cell, None)
        else:
            self.changed[cell] = e

    def step(self, e):
        if e.kind == "attr":
            c = self.cell(e.a, e.b)
            if c is not None and c not in self.changed:
                v = ("attr", e.a, e.b, e.c) if e.a[0] != "glob" else ("glob", e.a[1] + "." + e.b)
                if e.b != "handlers" or (c[0] not in self.removed and not self.extra.get(c[0])):
                    self.orig.setdefault(c, set()).add(v)
        elif e.kind == "setattr":
            c = self.cell(e.a, e.b)
            if c is None:
                return
            if e.b == "handlers":
                kind, v = self.source(e.c, c[0])
                if kind == "copy" and v in self.orig.get(c, ()) or (kind == "live" and v in self.orig.get(c, ()) and c[0] not in self.inplace):
                    self.removed.pop(c[0], None)
                    self.extra.pop(c[0], None)
                    self.inplace.discard(c[0])
                else:
                    self.removed[c[0]] = e
            elif e.b in TRIGGER_ATTRS or c[0][0] == "module":
                self.set(c, e.c, e)
        elif e.kind == "setslice" and e.a[0] == "attr" and e.a[2] == "handlers":
            k = process_object(self.m, e.a[1])
            kind, v = self.source(e.b, k)
            if kind == "copy" and v in self.orig.get((k, "handlers"), ()):
                self.removed.pop(k, None)
                self.extra.pop(k, None)
            elif k is not None:
                self.removed[k] = e
        elif e.kind == "call":
            self.call(e)
        elif e.kind in ("setitem", "delitem") and e.a == ("glob", "os.environ"):
            c = ("environ", e.b)
            if e.kind == "setitem":
                if any(y[0] in ("call", "item") and any(z[0] == "glob" and z[1].startswith("os.environ") for z in walk(y)) for y in walk(e.c)):
                    self.changed.pop(c, None)
                else:
                    self.changed[c] = e
            else:
                self.changed.pop(c, None) if c in self.changed else self.changed.__setitem__(c, e)
        elif e.kind == "enter":
            if self.is_guard(e.a):
                self.guard.append(e.a)
            elif e.a[0] == "call" and any(y[0] == "glob" and "ExitStack" in str(y[1]) for y in walk(e.a)):
                self.unknown = "state is restored through an ExitStack"
        elif e.kind == "exit" and e.a in self.guard:
            self.guard.remove(e.a)

    def is_guard(self, v):
        return v[0] == "call" and v[2][0] == "glob" and v[2][1] in CMS

    def call(self, e):
        f = e.a
        pos = e.b
        if f[0] == "glob":
            n = f[1]
            last = n.split(".")[-1]
            if n == "logging.disable":
                if not pos and e.c:
                    pos = (e.c[0][1],)
                self.set(("logging.disable",), pos[0] if pos else None, e)
            elif n in ("logging.basicConfig", "logging.captureWarnings", "logging.setLoggerClass"):
                self.changed[(n,)] = e
            elif n in ("warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings"):
                if not any(g[2][1] == "warnings.catch_warnings" for g in self.guard):
                    self.changed[("warnings.filters",)] = e
            elif n in ("numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions"):
                if not any(g[2][1].startswith("numpy") for g in self.guard):
                    back = any(k is None and any(y == ("glob", n) or (y[0] == "glob" and y[1] == n.replace("set", "get")) for y in walk(v)) for k, v in e.c)
                    self.changed.pop((n,), None) if back else self.changed.__setitem__((n,), e)
            elif n in ("os.chdir", "os.umask", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "locale.setlocale"):
                back = any(y[0] == "call" and y[2][0] == "glob" and y[2][1] in ("os.getcwd", "os.umask", "sys.getrecursionlimit", "sys.gettrace", "sys.getprofile", "sys.getswitchinterval", "locale.setlocale", "locale.getlocale") for p in pos for y in walk(p))
                self.changed.pop((n,), None) if back else self.changed.__setitem__((n,), e)
            elif n in ("os.putenv", "os.unsetenv", "os.environ.update", "os.environ.clear"):
                self.changed[(n,)] = e
            elif n == "os.environ.setdefault" and pos:
                self.changed[("environ", pos[0])] = e
            elif n == "os.environ.pop" and pos:
                c = ("environ", pos[0])
                self.changed.pop(c, None) if c in self.changed else self.changed.__setitem__(c, e)
            return
        if f[0] != "attr":
            return
        base, name = f[1], f[2]
        k = process_object(self.m, base)
        if name in ("clear", "append", "remove", "pop", "insert", "extend") and base[0] == "attr" and base[2] == "handlers":
            k = process_object(self.m, base[1])
            if k is not None:
                self.removed[k] = e
                self.inplace.add(k)
            return
        if k is None or k[0] != "logger":
            return
        if name == "setLevel":
            self.set((k, "level"), pos[0] if pos else None, e)
        elif name in ("addHandler", "removeHandler") and pos:
            h = pos[0]
            kind, v = self.source(h[1], k) if h[0] == "elem" else (None, None)
            if v is None and h not in self.extra.get(k, ()) and h[0] not in ("param", "const"):
                for y in walk(h):
                    if y[0] == "copy" or (y[0] in ("call", "comp") and y != h):
                        kind, v = self.source(y, k)
                        if v is not None:
                            break
            saved = v is not None and v in self.orig.get((k, "handlers"), ())
            if name == "removeHandler":
                self.inplace.add(k)
                if h in self.extra.get(k, ()):
                    self.extra[k].discard(h)
                elif saved:
                    self.removed[k] = e
                    if kind == "live":
                        self.unknown = None
                        self.changed[(k, "handlers")] = e
                else:
                    self.removed[k] = e
            elif saved:
                self.restores.append(e)
                if kind == "copy" or k not in self.inplace:
                    self.removed.pop(k, None)
            else:
                self.extra.setdefault(k, set()).add(h)
                self.last = e
        elif name in ("addFilter", "removeFilter") and pos:
            c = (k, "filter", pos[0])
            self.changed.pop(c, None) if c in self.changed else self.changed.__setitem__(c, e)

    def open(self):
        """[(what, event)] not restored"""
        out = []
        for c, e in self.changed.items():
            out.append((describe(c), e))
        for k, e in self.removed.items():
            out.append((f"handlers of logger {k[1]!r}", e))
        for k, hs in self.extra.items():
            if hs:
                out.append((f"additional handler of logger {k[1]!r}", self.last))
        return out


def describe(c):
    if len(c) == 1:
        return c[0]
    if c[0] == "environ":
        return "environment variable " + (str(c[1][1]) if c[1][0] == "const" else "")
    if isinstance(c[0], tuple):
        return f"{c[1]} of {c[0][0]} {c[0][1]!r}"
    return str(c)


SAFE_METHODS = {"setLevel", "addHandler", "removeHandler", "setFormatter", "append", "add", "getEffectiveLevel", "addFilter", "removeFilter", "copy", "debug", "info", "warning", "error", "hasHandlers"}


def dirty(s):
    t = s.trace
    while t is not None:
        e = t[0]
        if e.kind == "call" and e.a[0] in ("glob", "attr") and (e.a[1] if e.a[0] == "glob" else e.a[2]).split(".")[-1] in TRIGGER_CALLS:
            return True
        if (e.kind == "setattr" and e.b in TRIGGER_ATTRS) or (e.kind in ("setitem", "delitem") and e.a == ("glob", "os.environ")) or (e.kind == "call" and e.a[0] == "glob" and e.a[1].startswith("os.environ.")):
            return True
        t = t[1]
    return False


def raising(m, s, f, pos, node):
    if not dirty(s):
        return False  # a failure before any change is harmless
    if f[0] == "glob":
        n = f[1]
        if n.startswith(("logging.", "warnings.")) or n.startswith("local class") or n in CMS or n in ("numpy.seterr", "numpy.geterr", "os.getcwd"):
            return False
        return n not in ("builtins.set", "builtins.list", "builtins.dict", "builtins.isinstance", "builtins.len", "builtins.reversed", "builtins.tuple", "builtins.getattr", "builtins.hasattr")
    if f[0] == "attr" and f[2] in SAFE_METHODS:
        return False
    return True


def consistent(events):
    """loops over one unchanged list run equally often"""
    n = {}
    for e in events:
        if e.kind == "loop-end" and e.a[0] in ("copy", "call", "comp", "attr"):
            n.setdefault(strip_copy(e.a), set()).add(e.b)
    return all(len(v) == 1 for v in n.values())


def strip_copy(v):
    while True:
        if v[0] == "copy":
            v = v[1]
        elif v[0] == "call" and len(v[3]) == 1 and v[2] == ("glob", "builtins.reversed"):
            v = v[3][0]
        else:
            return v


def analyse(ctx, F, mod, node, cls, qual):
    helpers = ctx._state_helpers
    m = StateMachine(ctx.project, raising, inline=lambda c: c.node in helpers or (len(list(ast.walk(c.node))) < 60 and is_pure(c.node)))
    st = State()
    a = node.args
    pos = tuple(("param", x.arg) for x in a.posonlyargs + a.args)
    kw = tuple((x.arg, ("param", x.arg)) for x in a.kwonlyargs)
    clo = m.closure(node, mod, ())[1]
    if a.vararg is not None:
        pos = pos + (("star", ("param", a.vararg.arg)),)
    if a.kwarg is not None:
        kw = kw + ((None, ("param", a.kwarg.arg)),)
    bad, bad2, n, und = None, None, 0, None
    paths, loops = [], set()
    for s, v, ex in m.enter(st, clo, pos, kw, node):
        ev = s.events
        if not consistent(ev):
            continue
        c = Cells(m)
        for e in ev:
            c.step(e)
        paths.append((ev, ex, c))
        for e in c.restores:
            loops |= enclosing_loops(e)
    for ev, ex, c in paths:
        n += 1
        if c.unknown:
            und = c.unknown
            continue
        # the loop that puts the handlers back is reached: it runs once per handler taken off
        for k, e in list(c.removed.items()):
            i = ev.index(e)
            if any(id(e2.node) in loops for e2 in ev[i + 1:]):
                c.removed.pop(k)
        op = c.open()
        if op and bad is None:
            what, e = op[0]
            bad = (loc(e.mod or mod, e.node), f"{what} is changed here and not restored when {qual.split('.')[-1]} ends {'with an exception' if ex is not None else 'normally'}")
        if is_cm(node):
            ys = [i for i, e in enumerate(ev) if e.kind == "yield"]
            if ys and any(e.kind == "thrown" and e.node in [ev[i].node for i in ys] for e in ev) and ex is None:
                bad2 = (loc(mod, ev[ys[0]].node), "an exception raised inside the block is swallowed by the context manager")
            if len(ys) != 1 and ex is None:
                bad2 = (loc(mod, node), f"the context manager yields {len(ys)} times")
    ctx.functions.add(qual)
    if bad and not und:
        ctx.fail("restored", qual, *bad)
    elif und:
        ctx.undec("restored", qual, und)
    else:
        ctx.ok("restored", qual, f"{n} paths")
    if is_cm(node):
        if bad2:
            ctx.fail("exceptions-pass", qual, *bad2)
        else:
            ctx.ok("exceptions-pass", qual)


def enclosing_loops(e):
    """ids of the nodes of the outermost loop around a statement"""
    for top in e.mod.tree.body if e.mod is not None else ():
        for x in ast.walk(top):
            if isinstance(x, (ast.For, ast.While)) and any(y is e.node for y in ast.walk(x)):
                return {id(y) for y in ast.walk(x)}
    return set()


def references(F, name):
    """functions that mention the name, with the node"""
    out = []
    for f in F.all:
        for x in own_nodes(f[1]):
            if (isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)) or (isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load)):
                out.append((f, x))
    return out


@prop("S22", min=2, assumptions=["setting a logger level that a handler accepted just before does not fail", "logging and warnings objects are reached by their public names"])
def s22(ctx):
    """Typestate analysis over all paths (normal and exceptional continuation of every yield and of every call that may fail, finally blocks included) of every function that changes logging levels, handlers, propagation, the logging threshold, warning filters, floating-point error state, standard streams or environment variables: at each end of the function every changed cell holds the value read before the change, handlers are saved by copy, and an exception inside the block is not swallowed. Functions outside the documented setters may not change such state for good; context managers that change state are entered by `with` only; warning filters change only inside `catch_warnings`."""
    F = Functions(ctx.project)
    trig = {}
    for f in F.all:
        t = triggers(ctx.project, f[0], f[1])
        if t:
            trig[f[1]] = f
    # private helpers are judged through their callers
    helpers = {}
    changed = True
    todo = dict(trig)
    while changed:
        changed = False
        for node, f in list(todo.items()):
            if node in helpers or is_cm(node) or f[4] in SETTERS:
                continue
            private = node.name.startswith("_") and not node.name.startswith("__")
            refs = references(F, node.name)
            if (private or f[3] is not None) and refs and all(r[0][1] is not node for r in refs):
                helpers[node] = f
                changed = True
                for r, _ in refs:
                    todo.setdefault(r[1], r)
    # nested generators used as context managers inline badly: they are analysed on their own
    ctx._state_helpers = set(helpers)
    setters = {f[1]: f for f in F.all if f[4] in SETTERS}
    inits = {n for n, f in todo.items() if f[2] is not None and f[1].name in ("__enter__", "__exit__")}
    for node, f in todo.items():
        if node in helpers:
            continue
        if f[4] in SETTERS:
            ctx.ok("documented-setter", f[4], SETTERS[f[4]])
            ctx.functions.add(f[4])
            continue
        if node in inits or (f[2] is not None and any(n.name in ("__exit__",) for n in f[2].body if isinstance(n, ast.FunctionDef))):
            ctx.undec("restored", f[4], "class-based context manager")
            continue
        if only_filters(node):
            ctx.functions.add(f[4])
            ctx.ok("restored", f[4], "warning filters change inside catch_warnings blocks only")
            continue
        try:
            analyse(ctx, F, f[0], node, f[2], f[4])
        except Overflow as e:
            ctx.undec("restored", f[4], str(e))
    users(ctx, F, trig)


def only_filters(fn):
    """every trigger is a warning filter lexically inside `with warnings.catch_warnings()`"""
    inside = set()
    for w in own_nodes(fn):
        if isinstance(w, ast.With) and any(isinstance(i.context_expr, ast.Call) and dotted(i.context_expr.func).split(".")[-1] == "catch_warnings" for i in w.items):
            inside |= {id(x) for b in w.body for x in ast.walk(b)}
    t = triggers(None, None, fn)
    return bool(t) and all(isinstance(x, ast.Call) and dotted(x.func).split(".")[-1] in ("filterwarnings", "simplefilter", "resetwarnings") and id(x) in inside for x in t)


def users(ctx, F, trig):
    """context managers that change process state are entered with `with` only"""
    cms = {f[4]: f for f in F.all if is_cm(f[1]) and f[1] in trig}
    names = {f[1].name for f in cms.values()}
    for f in F.all:
        mod = f[0]
        for x in own_nodes(f[1]):
            if not isinstance(x, ast.Call):
                continue
            d = dotted(x.func)
            r = ctx.project.lookup(mod, d.split(".")[0]) if d else None
            full = d
            if r is not None and r[0] == "ext":
                full = r[1] + d[len(d.split(".")[0]):]
            is_c = d.split(".")[-1] in names or full in CMS or d in ("warnings.catch_warnings", "np.errstate", "numpy.errstate")
            if not is_c:
                continue
            c = f"{f[4]}:{d}"
            use = usage(f[1], x)
            if use == "with":
                ctx.ok("with-only", c)
            elif use == "manual":
                ctx.fail("with-only", c, loc(mod, x), f"{d} is entered by hand and is not left when an exception passes")
            elif use == "unused":
                ctx.fail("with-only", c, loc(mod, x), f"{d}(...) is created but never entered")
            else:
                ctx.undec("with-only", c, "use not recognised")


def usage(fn, call):
    parents = {}
    for p in ast.walk(fn):
        for c in ast.iter_child_nodes(p):
            parents[c] = p
    p = parents.get(call)
    if isinstance(p, ast.withitem):
        return "with"
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push"):
        return "with"
    if isinstance(p, ast.Return):
        return "other"
    if isinstance(p, ast.Expr):
        return "unused"
    name = None
    if isinstance(p, ast.Attribute) and p.attr == "__enter__":
        return "manual"
    if isinstance(p, ast.IfExp):
        return "other"
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name = p.targets[0].id
    if name is None:
        return "other"
    withs = [x for x in ast.walk(fn) if isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and x.context_expr.id == name]
    if withs:
        return "with"
    enters = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and x.attr == "__enter__" and isinstance(x.value, ast.Name) and x.value.id == name]
    if enters:
        for t in ast.walk(fn):
            if isinstance(t, ast.Try) and any(isinstance(y, ast.Attribute) and y.attr == "__exit__" for z in t.finalbody for y in ast.walk(z)):
                return "other"
        return "manual"
    return "other"
