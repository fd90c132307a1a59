"""In-place changes of caller-supplied objects and stored configuration (S04)."""
import ast

from . import prop
from .state import loc
from ..paths import dotted
from ..project import Func, Class

NOTHING = frozenset()
CONTAINER = {"append", "extend", "insert", "remove", "pop", "popleft", "appendleft", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "fill", "resize", "put", "itemset", "setflags", "partition", "setfield", "byteswap", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__"}
STORES = {"append", "extend", "insert", "update", "setdefault", "add", "appendleft", "__setitem__"}
# external functions that change their first argument
EXT_MUT = {"numpy.put", "numpy.place", "numpy.copyto", "numpy.fill_diagonal", "numpy.putmask", "numpy.random.shuffle", "random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "numpy.add.at", "numpy.subtract.at", "numpy.multiply.at", "operator.setitem", "operator.delitem", "operator.iadd", "bisect.insort"}
# external functions whose result may be (a view of) their first argument
EXT_ALIAS = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.broadcast_to", "numpy.expand_dims", "numpy.swapaxes", "numpy.diagonal", "numpy.asfarray", "numpy.nan_to_num_", "builtins.iter", "typing.cast", "numpy.split", "numpy.array_split", "numpy.moveaxis"}
VIEW_METHODS = {"ravel", "reshape", "squeeze", "transpose", "view", "swapaxes", "diagonal", "__iter__"}
VIEW_ATTRS = {"T", "real", "imag", "flat"}
ELEMENTS = {"get", "pop", "popleft", "items", "values", "setdefault", "popitem", "keys", "__getitem__"}
SHALLOW = {"builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.sorted", "builtins.reversed", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter", "copy.copy", "collections.OrderedDict", "collections.deque", "itertools.chain", "itertools.product", "itertools.combinations", "tqdm.tqdm", "functools.partial", "builtins.frozenset", "itertools.chain.from_iterable"}
PICK = {"builtins.min", "builtins.max", "builtins.next"}
SCALAR = {"int", "float", "str", "bool", "bytes", "None", "Callable", "complex", "ExpectationType", "Text", "type", "Type"}
# documented ways of changing an object
SETTERS = {
    "UnCorrStatisticsCombiner.append": "documented: adds a model", "UnCorrStatisticsCombiner.remove": "documented: removes a model",
    "ModelConfig.change_parameter_names": "documented: renames parameters", "ComputerWrapper.__call__": "own record of evaluations",
    "ValidateOpts.__call__": "filters the keyword dictionary made for this call", "ValidateOpts.__post_init__": "initialisation",
}
CONTAINERS = {"list", "dict", "set", "np.array", "np.asarray", "numpy.array", "np.zeros", "np.ones", "np.copy", "np.atleast_1d", "np.diag", "np.sqrt", "defaultdict", "OrderedDict"}
IN_INIT = {"__init__", "__post_init__", "__new__", "__init_subclass__", "__setstate__", "__enter__", "__exit__"}
# caching and logging hold their own state by design (S20, S21, S22); the others are not part of the library's interface
SKIP = ("spey.system", "spey.about", "spey._version", "spey.multiparameter.multiparam")


class Val:
    """A: what the object itself may be; E: what may be reached inside it; F: local functions it may be; arr: it is an array"""
    __slots__ = ("A", "E", "F", "arr")

    def __init__(self, A=NOTHING, E=NOTHING, F=NOTHING, arr=False):
        self.A, self.E, self.F, self.arr = frozenset(A), frozenset(E), frozenset(F), arr

    def __or__(self, o):
        return self if o is FRESH else o if self is FRESH else Val(self.A | o.A, self.E | o.E, self.F | o.F, self.arr or o.arr)

    def inside(self):
        return Val(self.E, self.E)

    def shallow(self):
        return Val(NOTHING, self.E)

    def all(self):
        return self.A | self.E

    def key(self):
        return (self.A, self.E, self.F, self.arr)


FRESH = Val()


def immutable(ann):
    """annotation admits only immutable values"""
    if ann is None:
        return False
    if isinstance(ann, ast.Constant):
        if ann.value is None:
            return True
        if isinstance(ann.value, str):
            try:
                return immutable(ast.parse(ann.value, mode="eval").body)
            except SyntaxError:
                return False
        return False
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        return immutable(ann.left) and immutable(ann.right)
    if isinstance(ann, ast.Subscript):
        d = dotted(ann.value).split(".")[-1]
        xs = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if d in ("Optional", "Union", "Tuple", "tuple"):
            return all(immutable(x) or (isinstance(x, ast.Constant) and x.value is Ellipsis) for x in xs)
        return d in ("Callable", "Literal", "Type", "type")
    return dotted(ann).split(".")[-1] in SCALAR


def nested_mutable(ann):
    """the annotation names a container of containers"""
    for x in ast.walk(ann):
        if isinstance(x, ast.Subscript) and dotted(x.value).split(".")[-1] in ("List", "list", "Dict", "dict", "Sequence", "Iterable"):
            if any(isinstance(y, (ast.Name, ast.Attribute)) and dotted(y).split(".")[-1] in ("List", "list", "Dict", "dict", "ndarray") for y in ast.walk(x.slice)):
                return True
    return False


class Analysis:
    def __init__(self, project, modules, debug=False):
        self.P = project
        self.funcs = {}      # id(node) -> dict(node, mod, cls, outer, qual)
        self.order = []
        for m in modules:
            self.collect(m, m.tree, None, None, m.name)
        self.methods = {}
        for f in self.order:
            if f["cls"] is not None and f["outer"] is None:
                self.methods.setdefault(f["node"].name, []).append(f)
        self.muts = {id(f["node"]): {} for f in self.order}    # origin -> (mod, node, text)
        self.rets = {id(f["node"]): FRESH for f in self.order}
        self.vars = {id(f["node"]): {} for f in self.order}     # joined variables, for closures
        self.kept = {id(f["node"]): {} for f in self.order}     # (what, origin) -> (mod, node)
        self.nested = set()     # parameters whose annotation admits mutable values inside a container
        self.escaped = set()
        self.outlives = set()   # local functions that may be called after the function defining them has returned
        self.annotated = {}     # parameters whose annotation admits mutable values
        for f in self.order:
            a = f["node"].args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None and not immutable(x.annotation):
                    self.annotated[(id(f["node"]), x.arg)] = True
                    if nested_mutable(x.annotation):
                        self.nested.add((id(f["node"]), x.arg))
        self.mutable = set()    # attributes that hold containers or arrays
        for m in modules:
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Attribute) and any(isinstance(y, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (isinstance(y, ast.Call) and dotted(y.func) in CONTAINERS) for y in [x.value]):
                            self.mutable.add(t.attr)
                elif isinstance(x, ast.ClassDef):
                    for y in x.body:
                        if isinstance(y, ast.AnnAssign) and isinstance(y.target, ast.Name) and not immutable(y.annotation):
                            self.mutable.add(y.target.id)
        self.changed = True
        self.rounds = 0

    def collect(self, mod, node, cls, outer, qual):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                name = getattr(x, "name", "<lambda>")
                f = {"node": x, "mod": mod, "cls": cls if outer is None else (outer["cls"]), "outer": outer, "qual": f"{qual}.{name}", "short": f"{cls.name}.{name}" if cls is not None and outer is None else name}
                self.funcs[id(x)] = f
                self.order.append(f)
                self.collect(mod, x, None, f, f"{qual}.{name}")
            elif isinstance(x, ast.ClassDef):
                self.collect(mod, x, x, outer, qual + "." + x.name)
            else:
                self.collect(mod, x, cls, outer, qual)

    def run(self):
        while self.changed and self.rounds < 12:
            self.changed = False
            self.rounds += 1
            for f in self.order:
                Body(self, f).go()
        return self


class Body:
    def __init__(self, an, f):
        self.an, self.f, self.node, self.mod = an, f, f["node"], f["mod"]
        self.id = id(self.node)
        self.P = an.P
        self.ret = FRESH
        self._conds = None
        self._scopes = None

    # ------------------------------------------------------------ driver
    def go(self):
        env = {}
        a = self.node.args
        ps = a.posonlyargs + a.args
        static = any(dotted(d).split(".")[-1] == "staticmethod" for d in getattr(self.node, "decorator_list", ()))
        for i, p in enumerate(ps + a.kwonlyargs):
            if i == 0 and p is (ps[0] if ps else None) and self.f["cls"] is not None and self.f["outer"] is None and not static:
                env[p.arg] = Val({("self",)}, {("s", "*", 1)})
            elif immutable(p.annotation):
                env[p.arg] = FRESH
            else:
                env[p.arg] = Val({("p", self.id, p.arg, 0)}, {("p", self.id, p.arg, 1)})
        if a.vararg is not None:
            env[a.vararg.arg] = Val(NOTHING, {("p", self.id, a.vararg.arg, 1)})
        if a.kwarg is not None:
            env[a.kwarg.arg] = Val(NOTHING, {("p", self.id, a.kwarg.arg, 1)})
        self.note(env)
        if isinstance(self.node, ast.Lambda):
            self.ret = self.ev(self.node.body, env)
            self.an.outlives |= self.ret.F
        else:
            self.exits = None
            env = self.join(self.block(self.node.body, env), self.exits)
            self.closures(env)
        old = self.an.rets[self.id]
        new = old | self.ret
        if new.key() != old.key():
            self.an.rets[self.id] = new
            self.an.changed = True

    def note(self, env):
        vs = self.an.vars[self.id]
        for k, v in env.items():
            o = vs.get(k)
            n = v if o is None else o | v
            if o is None or n.key() != o.key():
                vs[k] = n
                self.an.changed = True

    def assign(self, env, name, v):
        env[name] = v
        self.note({name: v})

    def mutate(self, origins, node, text, mod=None):
        m = self.an.muts[self.id]
        for o in origins:
            if o not in m:
                m[o] = (mod or self.mod, node, text)
                self.an.changed = True
            if o[0] == "p" and o[1] != self.id:
                pass

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            out[k] = a[k] | b[k] if k in a and k in b else a.get(k, b.get(k))
        return out

    # ------------------------------------------------------------ statements; returns env or None when control leaves
    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                break
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.assign(env, s.name, Val(F={id(s)}))
            return env
        if isinstance(s, (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value, env)
                self.ret = self.ret | v
                self.an.escaped |= v.F
                self.an.outlives |= v.F
            self.exits = self.join(self.exits, dict(env))
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loopenv = self.join(getattr(self, "loopenv", None), dict(env))
            return None
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env, s)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env, s)
            return env
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                o = self.lookup(t.id, env)
                self.mutate({x for x in o.A if o.arr or self.in_place(x)}, s, ast.unparse(s))
                self.rebinds(t.id, s)
                self.assign(env, t.id, o | v.shallow())
            else:
                self.bind(t, v, env, s, aug=True)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env).A, s, ast.unparse(s))
                elif isinstance(t, ast.Attribute):
                    self.store_attr(t, FRESH, env, s)
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.narrow(s.test, a, True)
            self.narrow(s.test, b, False)
            return self.join(self.block(s.body, a), self.block(s.orelse, b))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            old = getattr(self, "loopenv", None)
            self.loopenv = None
            cur = dict(env)
            for _ in range(3):
                e = dict(cur)
                if isinstance(s, ast.While):
                    self.ev(s.test, e)
                else:
                    self.bind(s.target, self.ev(s.iter, e).inside(), e, s, fresh=True)
                e = self.block(s.body, e)
                cur = self.join(self.join(cur, e), self.loopenv)
            self.loopenv = old
            if s.orelse:
                cur = self.join(cur, self.block(s.orelse, dict(cur)))
            return cur
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            start = dict(env)
            body = self.block(s.body, env)
            if s.orelse and body is not None:
                body = self.block(s.orelse, body)
            out = body
            for h in s.handlers:
                e = self.join(dict(start), {k: self.an.vars[self.id].get(k, v) for k, v in start.items()})
                if h.name:
                    e[h.name] = FRESH
                out = self.join(out, self.block(h.body, e))
            if s.finalbody:
                out2 = self.block(s.finalbody, dict(out if out is not None else start))
                out = None if out is None else out2
            return out
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
            return env
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return env

    def conds(self):
        """conditions given a name once"""
        if self._conds is None:
            stores, val = {}, {}
            for x in ast.walk(self.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores[x.id] = stores.get(x.id, 0) + 1
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
                    val[x.targets[0].id] = x.value
            self._conds = {k: v for k, v in val.items() if stores.get(k) == 1 and not any(isinstance(y, ast.Name) and y.id == k for y in ast.walk(v))}
        return self._conds

    def in_place(self, o):
        """`x += …` on this object changes it rather than rebinding the name"""
        if o[0] == "p":
            return o[3] == 0 and self.an.annotated.get((o[1], o[2]), False)
        if o[0] == "s":
            return o[2] == 0 and o[1] in self.an.mutable
        return False

    def narrow(self, test, env, truth):
        """`x is None`: the variable holds nothing the caller could see changed; isinstance of an immutable type too"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not truth)
        if isinstance(test, ast.Name) and test.id in self.conds():
            return self.narrow(self.conds()[test.id], env, truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == truth:
            for t in test.values:
                self.narrow(t, env, truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is) == truth and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and test.left.id in env:
                env[test.left.id] = FRESH
        if isinstance(test, ast.Call) and dotted(test.func) == "isinstance" and truth and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            if all(dotted(t).split(".")[-1] in ("int", "float", "str", "bool", "complex", "tuple", "bytes") for t in ts) and test.args[0].id in env:
                env[test.args[0].id] = env[test.args[0].id].shallow() if any(dotted(t) == "tuple" for t in ts) else FRESH
        if isinstance(test, ast.Call) and dotted(test.func) == "callable" and truth and len(test.args) == 1 and isinstance(test.args[0], ast.Name) and test.args[0].id in env:
            env[test.args[0].id] = Val(F=env[test.args[0].id].F)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) != truth:
            # some operand decides: join over which one
            envs, cur = [], dict(env)
            for t in test.values:
                e = dict(cur)
                self.narrow(t, e, truth)
                envs.append(e)
                self.narrow(t, cur, not truth)
            for k in env:
                vs = [e[k] for e in envs]
                v = vs[0]
                for w in vs[1:]:
                    v = v | w
                env[k] = v

    def bind(self, t, v, env, stmt, aug=False, fresh=False):
        if isinstance(t, ast.Name):
            self.rebinds(t.id, stmt)
            self.assign(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, v.inside() if not isinstance(x, ast.Starred) else v.shallow(), env, stmt)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(b.A, stmt, ast.unparse(t)[:60])
            self.grow(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            self.store_attr(t, v, env, stmt)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v.shallow(), env, stmt)

    def rebinds(self, name, stmt):
        """assignment to a variable of an enclosing function or of the module"""
        if self._scopes is None:
            self._scopes = {}
            for x in ast.walk(self.node):
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    for n in x.names:
                        self._scopes[n] = isinstance(x, ast.Global)
        if name in self._scopes:
            if self._scopes[name]:
                self.mutate({("g", self.mod.name, name, 0)}, stmt, ast.unparse(stmt)[:80])
            else:
                f = self.f["outer"]
                while f is not None:
                    if name in self.an.vars[id(f["node"])]:
                        self.mutate({("l", id(f["node"]), name, 0)}, stmt, ast.unparse(stmt)[:80])
                        break
                    f = f["outer"]

    def grow(self, target, v, env):
        """a local container now also holds v"""
        while isinstance(target, (ast.Subscript, ast.Attribute)):
            target = target.value
        if isinstance(target, ast.Name) and target.id in env:
            o = env[target.id]
            self.assign(env, target.id, Val(o.A, o.E | v.all(), o.F))
        self.an.escaped |= v.F
        self.an.outlives |= v.F

    def keep(self, what, v, node, mod=None):
        """the object built or changed here goes on holding these parameters"""
        m = self.an.kept[self.id]
        for o in {o for o in v.A if o[0] == "p"} | {o for o in v.E if o[0] == "p" and (o[3] == 0 or (o[1], o[2]) in self.an.nested)}:
            if (what, o) not in m:
                m[(what, o)] = (mod or self.mod, node)
                self.an.changed = True

    def closures(self, env):
        """functions defined here read these variables later, with the values they have at the end"""
        if env is None:
            return
        keys = {id(a) for x in ast.walk(self.node) if isinstance(x, ast.Call) for a in list(x.args) + [k.value for k in x.keywords]}
        for g in self.an.order:
            if g["outer"] is self.f and not (isinstance(g["node"], ast.Lambda) and id(g["node"]) in keys):
                for x in ast.walk(g["node"]):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in env and x.id not in self.an.vars[id(g["node"])]:
                        self.keep(f"the function '{getattr(g['node'], 'name', 'lambda')}'", env[x.id], x)

    def store_attr(self, t, v, env, stmt):
        b = self.ev(t.value, env)
        c = self.class_object(t.value, env)
        if c is not None:
            self.mutate({("g", self.mod.name, c, 0)}, stmt, ast.unparse(t))
        if ("self",) in b.A:
            self.keep(f"attribute '{t.attr}'", v, stmt)
            self.mutate({("s", t.attr, 0)}, stmt, ast.unparse(t))
        self.mutate({o for o in b.A if o != ("self",)}, stmt, ast.unparse(t))
        self.an.escaped |= v.F
        self.an.outlives |= v.F

    def class_object(self, e, env):
        """name of the class an expression denotes, else None"""
        if isinstance(e, ast.Call) and dotted(e.func) == "type" and len(e.args) == 1:
            return "type(" + ast.unparse(e.args[0]) + ")"
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return ast.unparse(e)
        d = dotted(e)
        if d and d.split(".")[0] not in env and not self.is_local(d.split(".")[0]):
            r = self.P.resolve_in(self.mod, d)
            if r is not None and r[0] == "class":
                return d
        return None

    # ------------------------------------------------------------ expressions
    def lookup(self, name, env):
        if name in env:
            return env[name]
        f = self.f["outer"]
        while f is not None:
            vs = self.an.vars[id(f["node"])]
            if name in vs:
                # what the enclosing function's variable holds, shared by every call of this function
                v = vs[name]
                return v if ("self",) in v.A else v | Val({("l", id(f["node"]), name, 0)}, {("l", id(f["node"]), name, 1)})
            f = f["outer"]
        r = self.P.lookup(self.mod, name)
        if r is not None and r[0] == "func" and id(r[1].node) in self.an.funcs:
            return Val(F={id(r[1].node)})
        if r is not None and r[0] == "const":
            return Val({("g", r[1].name, name, 0)}, {("g", r[1].name, name, 1)})
        return FRESH

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return FRESH

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Starred(self, e, env):
        return self.ev(e.value, env).inside()

    def e_Lambda(self, e, env):
        return Val(F={id(e)})

    def holds(self, vals):
        out = NOTHING
        for v in vals:
            out |= v.all()
            self.an.escaped |= v.F
            self.an.outlives |= v.F
        return Val(NOTHING, out)

    def e_Tuple(self, e, env):
        return self.holds([self.ev(x, env) for x in e.elts])

    e_List = e_Set = e_Tuple

    def e_Dict(self, e, env):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                out.append(self.ev(k, env))
                out.append(self.ev(v, env))
            else:
                out.append(self.ev(v, env).inside())
        return self.holds(out)

    def comp(self, e, elts, env):
        env = dict(env)
        for g in e.generators:
            self.bindlocal(g.target, self.ev(g.iter, env).inside(), env)
            for c in g.ifs:
                self.ev(c, env)
        return self.holds([self.ev(x, env) for x in elts])

    def bindlocal(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
            self.note({t.id: v})
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bindlocal(x.value if isinstance(x, ast.Starred) else x, v.inside(), env)

    def e_ListComp(self, e, env):
        return self.comp(e, [e.elt], env)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, [e.key, e.value], env)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        a, b = dict(env), dict(env)
        self.narrow(e.test, a, True)
        self.narrow(e.test, b, False)
        return self.ev(e.body, a) | self.ev(e.orelse, b)

    def e_BoolOp(self, e, env):
        out = FRESH
        cur = dict(env)
        for i, x in enumerate(e.values):
            out = out | self.ev(x, cur)
            self.narrow(x, cur, isinstance(e.op, ast.And))
        return out

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env, e)
        return v

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            return Val(b.E, b.E)
        return b.inside()

    def e_Attribute(self, e, env):
        d = self.external(e, env)
        if d is not None:
            return FRESH
        b = self.ev(e.value, env)
        if ("self",) in b.A:
            # a property computes its value
            cs = self.own_methods(e.attr)
            if cs and all(c["node"].decorator_list and any(dotted(d).split(".")[-1] in ("property", "cached_property") for d in c["node"].decorator_list) for c in cs):
                return self.apply(cs, b, [], [], e, env)
            if cs:
                return Val(F={id(c["node"]) for c in cs})
            return Val({("s", e.attr, 0)}, {("s", e.attr, 1)}) | Val(b.A - {("self",)}).inside()
        if e.attr in VIEW_ATTRS:
            return Val(b.A, b.E)
        cs = [c for c in self.an.methods.get(e.attr, ()) if any(dotted(d).split(".")[-1] in ("property", "cached_property") for d in c["node"].decorator_list)]
        out = Val(b.E, b.E)
        if cs and len(cs) == len(self.an.methods.get(e.attr, ())):
            # every class computes it: what it returns is what its summary says
            return self.apply(cs, b, [], [], e, env)
        return out

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        # lists: a new list of the same elements
        return (a | b).shallow() if isinstance(e.op, (ast.Add, ast.Mult)) else FRESH

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env)
            self.ret = self.ret | Val(NOTHING, v.all())
        return FRESH

    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        self.ret = self.ret | v.shallow()
        return FRESH

    # ------------------------------------------------------------ calls
    def external(self, e, env):
        """dotted name of a module-level object outside the project, else None"""
        d = dotted(e)
        if not d:
            return None
        root = d.split(".")[0]
        if root in env or self.is_local(root):
            return None
        r = self.P.resolve_in(self.mod, d)
        if r is not None and r[0] == "ext":
            return canon(r[1])
        if r is None or r[0] in ("func", "class", "const", "module"):
            import builtins

            if r is None and "." not in d and hasattr(builtins, d):
                return "builtins." + d
            return None
        return None

    def is_local(self, name):
        f = self.f["outer"]
        if name in self.an.vars[self.id]:
            return True
        while f is not None:
            if name in self.an.vars[id(f["node"])]:
                return True
            f = f["outer"]
        return False

    def own_methods(self, name):
        """methods `self.name` may be: the class, its bases and its subclasses"""
        c = self.P.modules[self.mod.name].classes.get(self.f["cls"].name) if self.f["cls"] is not None else None
        if c is None:
            return []
        out = []
        for k in [c] + list(self.P.subclasses(c)):
            for b in self.P.mro(k):
                if isinstance(b, Class) and name in b.methods:
                    f = self.an.funcs.get(id(b.methods[name].node))
                    if f is not None and f not in out:
                        out.append(f)
                    break
        return out

    def e_Call(self, e, env):
        pos, kws = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                pos.append(("*", self.ev(a.value, env).inside()))
            else:
                pos.append((None, self.ev(a, env)))
        for k in e.keywords:
            v = self.ev(k.value, env)
            kws.append((k.arg, v if k.arg is not None else v.inside()))
            if k.arg in ("out", "overwrite_a", "overwrite_b") and not (isinstance(k.value, ast.Constant)):
                self.mutate(v.A, e, ast.unparse(e)[:80])
            if k.arg in ("overwrite_a", "overwrite_b") and isinstance(k.value, ast.Constant) and k.value.value is True and pos:
                self.mutate(pos[0][1].A, e, ast.unparse(e)[:80])
            if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False and pos and dotted(e.func).split(".")[-1] == "nan_to_num":
                self.mutate(pos[0][1].A, e, ast.unparse(e)[:80])
        vals = [v for _, v in pos] + [v for _, v in kws]
        d = self.external(e.func, env) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if d is not None:
            return self.ext_call(d, pos, kws, e, env)
        if isinstance(e.func, ast.Name):
            r = None
            if e.func.id not in env and not self.is_local(e.func.id):
                r = self.P.lookup(self.mod, e.func.id)
            if r is not None and r[0] == "func":
                f = self.an.funcs.get(id(r[1].node))
                return self.apply([f], FRESH, pos, kws, e, env) if f is not None else FRESH
            if r is not None and r[0] == "class":
                return self.construct(r[1], pos, kws, e, env)
            v = self.lookup(e.func.id, env)
            return self.call_value(v, pos, kws, e, env)
        if isinstance(e.func, ast.Attribute):
            dn = dotted(e.func)
            if dn and dn.split(".")[0] not in env and not self.is_local(dn.split(".")[0]):
                r = self.P.resolve_in(self.mod, dn)
                if r is not None and r[0] == "func":
                    f = self.an.funcs.get(id(r[1].node))
                    if f is not None:
                        return self.apply([f], FRESH, pos, kws, e, env)
                if r is not None and r[0] == "class":
                    return self.construct(r[1], pos, kws, e, env)
            if isinstance(e.func.value, ast.Call) and dotted(e.func.value.func) == "super":
                c = self.P.modules[self.mod.name].classes.get(self.f["cls"].name) if self.f["cls"] is not None else None
                fs = []
                for b in (self.P.mro(c)[1:] if c is not None else ()):
                    if isinstance(b, Class) and e.func.attr in b.methods:
                        fs = [self.an.funcs.get(id(b.methods[e.func.attr].node))]
                        break
                fs = [f for f in fs if f is not None]
                return self.apply(fs, Val({("self",)}, {("s", "*", 1)}), pos, kws, e, env) if fs else FRESH
            return self.method(e, pos, kws, env)
        v = self.ev(e.func, env)
        return self.call_value(v, pos, kws, e, env)

    def call_value(self, v, pos, kws, e, env):
        fs = [self.an.funcs[i] for i in v.F if i in self.an.funcs]
        for _, a in pos + kws:
            if not fs:
                self.an.escaped |= a.F
        recv = Val({("self",)}, {("s", "*", 1)}) if self.f["cls"] is not None else FRESH
        out = self.apply(fs, recv, pos, kws, e, env) if fs else FRESH
        if v.A or v.E:
            # calling an unknown object: what it returns may be part of it
            out = out | Val(NOTHING, NOTHING)
        return out

    def ext_call(self, d, pos, kws, e, env):
        vs = [v for _, v in pos] + [v for _, v in kws]
        first = pos[0][1] if pos else kws[0][1] if kws else FRESH
        for v in vs:
            self.an.escaped |= v.F
        if d in EXT_MUT:
            self.mutate(first.A, e, ast.unparse(e)[:80])
            return FRESH
        if d == "builtins.setattr" and len(pos) > 1:
            if ("self",) in first.A:
                n = e.args[1].value if isinstance(e.args[1], ast.Constant) else "*"
                self.mutate({("s", n, 0)}, e, ast.unparse(e)[:80])
            self.mutate({o for o in first.A if o != ("self",)}, e, ast.unparse(e)[:80])
            return FRESH
        if d == "builtins.getattr" and pos:
            if ("self",) in first.A:
                n = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "*"
                return Val({("s", n, 0)}, {("s", n, 1)})
            out = first.inside()
            for v in vs[2:]:
                out = out | v
            return out
        if d == "builtins.vars" and pos:
            return Val({("s", "*", 0)} if ("self",) in first.A else first.E, first.E)
        if d in EXT_ALIAS or (d == "numpy.array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords)) or (d == "numpy.nan_to_num" and any(k.arg == "copy" for k in e.keywords)):
            return Val(first.A - {("self",)}, first.E, arr=d.startswith("numpy."))
        if d in SHALLOW:
            out = NOTHING
            for v in vs:
                out |= v.E
            if d == "functools.partial":
                for v in vs:
                    out |= v.A
                return Val(NOTHING, out, first.F)
            return Val(NOTHING, out)
        if d in PICK:
            if len(pos) == 1:
                return first.inside()
            out = FRESH
            for _, v in pos:
                out = out | v
            return out
        return FRESH

    def construct(self, c, pos, kws, e, env):
        init = self.P.method(c, "__init__")
        f = self.an.funcs.get(id(init.node)) if init is not None else None
        if f is not None:
            self.apply([f], FRESH, pos, kws, e, env)
        return self.holds([v for _, v in pos] + [v for _, v in kws])

    def method(self, e, pos, kws, env):
        name = e.func.attr
        b = self.ev(e.func.value, env)
        vs = [v for _, v in pos] + [v for _, v in kws]
        if ("self",) in b.A:
            fs = self.own_methods(name)
            if fs:
                return self.apply(fs, b, pos, kws, e, env)
            if isinstance(e.func.value, ast.Name):
                # an attribute holding a callable
                for v in vs:
                    self.an.escaped |= v.F
                return FRESH
        fs = self.an.methods.get(name, [])
        if name in CONTAINER:
            known = [f for f in fs if f["short"] in SETTERS or name not in ("append", "remove", "pop", "update", "clear", "add")]
            held = {o for o in b.A if o != ("self",)}
            self.mutate(held, e, ast.unparse(e)[:80])
            if name in STORES:
                new = FRESH
                for v in vs:
                    new = new | (v.shallow() if name in ("extend", "update") else Val(NOTHING, v.all()))
                if isinstance(e.func.value, ast.Name) and new.E:
                    o = self.lookup(e.func.value.id, env)
                    if e.func.value.id in env:
                        self.assign(env, e.func.value.id, Val(o.A, o.E | new.E, o.F))
            for v in vs:
                self.an.escaped |= v.F
                self.an.outlives |= v.F
            if name in ELEMENTS:
                out = b.inside()
                for v in vs[1:]:
                    out = out | v
                return out
            return FRESH
        if name in ELEMENTS:
            out = b.inside()
            for v in vs[1:]:
                out = out | v
            return out
        if name == "copy":
            return b.shallow()
        if name in VIEW_METHODS:
            return Val(b.A - {("self",)}, b.E, arr=name != "__iter__")
        if name == "astype" and any(k.arg == "copy" for k in e.keywords):
            return Val(b.A, b.E)
        if fs:
            return self.apply(fs, b, pos, kws, e, env)
        for v in vs:
            self.an.escaped |= v.F
        return FRESH

    def apply(self, fs, recv, pos, kws, e, env):
        """effects and result of calling one of the functions fs"""
        out = FRESH
        for f in fs:
            n = f["node"]
            fid = id(n)
            a = n.args
            names = [p.arg for p in a.posonlyargs + a.args]
            args = {}
            static = any(dotted(d).split(".")[-1] == "staticmethod" for d in getattr(n, "decorator_list", ()))
            bound = f["cls"] is not None and f["outer"] is None and not static
            if bound and names:
                names = names[1:]
            i = 0
            rest = FRESH
            for star, v in pos:
                if star:
                    rest = rest | v
                    for m in names[i:]:
                        args[m] = args.get(m, FRESH) | v
                elif i < len(names):
                    args[names[i]] = v
                    i += 1
                elif a.vararg is not None:
                    args[a.vararg.arg] = args.get(a.vararg.arg, FRESH) | Val(NOTHING, v.all())
            allnames = names + [p.arg for p in a.kwonlyargs]
            for k, v in kws:
                if k is None:
                    for m in allnames:
                        if m not in args:
                            args[m] = v
                    if a.kwarg is not None:
                        args[a.kwarg.arg] = args.get(a.kwarg.arg, FRESH) | Val(NOTHING, v.all())
                elif k in allnames:
                    args[k] = v
                elif a.kwarg is not None:
                    args[a.kwarg.arg] = args.get(a.kwarg.arg, FRESH) | Val(NOTHING, v.all())

            def image(origins):
                A = set()
                for o in origins:
                    if o[0] == "p" and o[1] == fid:
                        v = args.get(o[2], FRESH)
                        A |= (v.A if o[3] == 0 else v.E) - {("self",)}
                        if o[3] == 0 and ("self",) in v.A:
                            A.add(("s", "*", 0))
                    elif o[0] in ("p", "l", "g"):
                        A.add(o)       # belongs to an enclosing function or the module
                    elif o[0] == "s":
                        if ("self",) in recv.A or f["outer"] is not None:
                            A.add(o)
                        A |= {x for x in recv.A if x != ("self",)} if o[2] == 0 and o[1] == "*" else recv.E if recv.A - {("self",)} or recv.E else set()
                    elif o == ("self",):
                        A |= recv.A
                return A

            allowed = f["short"] in SETTERS
            for o, (m, nd, tx) in list(self.an.muts[fid].items()):
                if o[0] == "s" and (self.lazy(f, o) or f["node"].name in IN_INIT):
                    if f["node"].name not in IN_INIT or ("self",) not in recv.A:
                        continue
                if o[0] == "s" and allowed and ("self",) not in recv.A:
                    # documented setter on another object: the caller changes that object
                    A = image({o})
                    self.mutate({x for x in A if x != ("self",)}, e, ast.unparse(e)[:80])
                    continue
                self.mutate({x for x in image({o}) if x != ("self",)}, nd, tx, m)
            if recv is FRESH and f["outer"] is None or ("self",) in recv.A:
                for (what, o), (m, nd) in list(self.an.kept[fid].items()):
                    for x in image({o}):
                        if x[0] == "p":
                            self.keep(what, Val({x}), nd, m)
            r = self.an.rets[fid]
            out = out | Val(image(r.A), image(r.E) | NOTHING, r.F)
            # functions handed to a callee that calls them are analysed on their own
            for _, v in list(pos) + list(kws):
                self.an.escaped |= v.F
        return out

    def lazy(self, f, o):
        return lazy_attrs(f["node"]) and True


_lazy = {}


def analysis(project, mods):
    """one analysis serves S04, S39 and S40 when they are asked of the same source"""
    if getattr(project, "alias_analysis", None) is None:
        project.alias_analysis = Analysis(project, mods).run()
    return project.alias_analysis


def lazy_attrs(node):
    """attributes of self that a function fills in only while they are empty"""
    if id(node) not in _lazy:
        tested, stored = set(), set()
        for x in ast.walk(node):
            if isinstance(x, ast.Compare) and isinstance(x.left, ast.Attribute) and dotted(x.left.value) == "self" and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
                tested.add(x.left.attr)
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and isinstance(x.operand, ast.Attribute) and dotted(x.operand.value) == "self":
                tested.add(x.operand.attr)
            elif isinstance(x, ast.Call) and dotted(x.func) == "hasattr" and len(x.args) == 2 and dotted(x.args[0]) == "self" and isinstance(x.args[1], ast.Constant):
                tested.add(x.args[1].value)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and dotted(x.value) == "self":
                stored.add(x.attr)
        _lazy[id(node)] = (node, tested & stored)
    return _lazy[id(node)][1]


def canon(d):
    return d.replace("autograd.numpy.", "numpy.").replace("jax.numpy.", "numpy.")


def private(name):
    return name.startswith("_") and not (name.startswith("__") and name.endswith("__"))


@prop("S04", min=60, assumptions=["a method called on an object of unknown class is one of the project's methods of that name; methods of numpy arrays, lists and dictionaries act as documented", "functions outside the project change their arguments only where the table of mutating functions says so", "a minimiser or statistic called back by scipy, iminuit or autograd receives arrays that belong to that library and must leave them alone too"])
def s04(ctx):
    """Flow-sensitive may-alias and effect analysis over every function of the project with interprocedural summaries (what the result may be part of, which arguments and which stored attributes are changed in place): no function reachable from outside may change an object it was given, and no method other than initialisers, documented setters and fill-once helpers may change what the object stores."""
    mods = [m for m in ctx.project.modules.values() if m.name.startswith("spey") and not any(m.name == x or m.name.startswith(x + ".") for x in SKIP)]
    an = analysis(ctx.project, mods)
    if an.changed:
        ctx.undec("effects", "spey", "the summaries did not stabilise")
    helpers = init_helpers(an)
    found = {}

    def report(rule, f, node, construct, where, msg):
        """one report per changing statement: the function that contains it, else the first caller it affects"""
        own = any(x is node for x in ast.walk(f["node"]))
        k = (rule, id(node))
        if k not in found or (own and not found[k][0]):
            found[k] = (own, rule, construct, where, msg)

    for f in an.order:
        n = f["node"]
        name = getattr(n, "name", "<lambda>")
        outer = f["outer"] is not None
        entry = (not private(name) and not outer) or id(n) in an.escaped or (outer and isinstance(n, ast.Lambda))
        label = f["qual"][5:] if f["qual"].startswith("spey.") else f["qual"]
        bad = False
        muts = an.muts[id(n)]
        if entry:
            for o, (m, nd, tx) in muts.items():
                if o[0] == "p" and o[1] == id(n) and f["short"] not in SETTERS:
                    bad = True
                    report("arguments", f, nd, f"{label}: argument {o[2]}", loc(m, nd), f"{label} may change in place {'the object' if o[3] == 0 else 'an object reachable from the object'} passed as '{o[2]}': {tx}")
        if f["cls"] is not None and not outer and f["short"] not in SETTERS and name not in IN_INIT and name not in helpers and not is_setter(n):
            lazy = lazy_attrs(n)
            for o, (m, nd, tx) in muts.items():
                if o[0] == "s" and o[1] not in lazy and id(nd) not in m.kept_nodes and not own_store(f, nd, an, helpers):
                    bad = True
                    report("stored state", f, nd, f"{label}: attribute {o[1]}", loc(m, nd), f"{label} may change in place what the object stores in '{o[1]}': {tx}")
        if not bad:
            ctx.ok("arguments" if entry else "helper", label, loc(f["mod"], n))
    for _, rule, construct, where, msg in found.values():
        ctx.fail(rule, construct, where, msg)


def is_setter(n):
    return any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in n.decorator_list)


def init_helpers(an):
    """private methods called only from initialisers (or from fill-once methods)"""
    callers = {}
    for f in an.order:
        for x in ast.walk(f["node"]):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                callers.setdefault(x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id, []).append(f)
    out = set()
    while True:
        old = len(out)
        for f in an.order:
            n = f["node"]
            if f["outer"] is not None or isinstance(n, ast.Lambda) or not private(n.name):
                continue
            cs = [c for c in callers.get(n.name, []) if c is not f]
            if cs and all(getattr(c["node"], "name", "") in IN_INIT | out or lazy_attrs(c["node"]) for c in cs):
                out.add(n.name)
        if len(out) == old:
            break
    return out


def own_store(f, nd, an, helpers):
    """the change is made inside an initialiser, a fill-once method or one of their helpers"""
    for g in an.order:
        if g["outer"] is None and not isinstance(g["node"], ast.Lambda):
            n = g["node"]
            if n.lineno <= nd.lineno <= n.end_lineno and any(x is nd for x in ast.walk(n)):
                if n.name in helpers or (g["cls"] is not None and n.name in IN_INIT) or g["short"] in SETTERS or is_setter(n) or (n is not f["node"] and lazy_attrs(n)):
                    return True
    return False


COPIERS = ("array", "copy", "deepcopy", "list", "dict", "tuple")


def replaced(init, nd, arg):
    """the stored argument is replaced by a copy before the constructor ends, unless it is a function"""

    def stores(body, attr):
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and is_attr(s.targets[0], attr):
                v = s.value
                f = v.func if isinstance(v, ast.Call) else None
                name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                return name in COPIERS
        return False

    def is_attr(t, attr):
        return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.args.args[0].arg and (attr is None or t.attr == attr)

    for i, s in enumerate(init.body):
        if not (isinstance(s, ast.Assign) and any(x is nd for x in ast.walk(s)) and len(s.targets) == 1 and is_attr(s.targets[0], None)):
            continue
        attr = s.targets[0].attr
        for t in init.body[i + 1:]:
            if stores([t], attr):
                return True
            if isinstance(t, ast.If):
                test, body, other = t.test, t.body, t.orelse
                if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                    test, body, other = test.operand, other, body
                if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "callable" and len(test.args) == 1 and isinstance(test.args[0], ast.Name) and test.args[0].id == arg and stores(other, attr):
                    return True
    return False


@prop("S39", min=15, assumptions=["numpy.array, list.copy and the like copy; numpy.asarray may return its argument", "only arguments whose annotation admits arrays, lists or dictionaries count; functions and objects handed to a model are shared by design"])
def s39(ctx):
    """May-alias analysis of the constructors of the bundled likelihoods: neither a stored attribute nor a function built in the constructor may still refer to a list, array or dictionary the caller passed in."""
    mods = [m for m in ctx.project.modules.values() if m.name.startswith("spey") and not any(m.name == x or m.name.startswith(x + ".") for x in SKIP)]
    an = analysis(ctx.project, mods)
    found = {}
    for f in an.order:
        n = f["node"]
        if f["cls"] is None or f["outer"] is not None or n.name != "__init__" or not f["mod"].name.startswith("spey.backends.default_pdf"):
            continue
        label = f["qual"][5:]
        kept = {}
        for (what, o), (m, nd) in an.kept[id(n)].items():
            if o[1] == id(n):
                kept.setdefault(o[2], (what, m, nd))
        for a in n.args.args[1:] + n.args.kwonlyargs:
            if immutable(a.annotation):
                continue
            if a.arg in kept and not replaced(n, kept[a.arg][2], a.arg):
                what, m, nd = kept[a.arg]
                own = any(x is nd for x in ast.walk(n))
                if id(nd) not in found or own and not found[id(nd)][0]:
                    found[id(nd)] = (own, f"{label}: argument {a.arg}", loc(m, nd), f"{what} of a {f['cls'].name} may still refer to the object passed as '{a.arg}'; changing that object afterwards changes the model")
            else:
                ctx.ok("own copy", f"{label}: argument {a.arg}", loc(f["mod"], n))
    for _, construct, where, msg in found.values():
        ctx.fail("own copy", construct, where, msg)


# state of the package that functions of its own module change by design
REGISTRIES = {("spey", "_backend_entries"): "the registry of back ends (S19)"}


def memo_store(f, nd):
    """`if key not in table: table[key] = …`, `if x is None: x = …`: filled once"""
    if id(nd) in f["mod"].kept_nodes:
        return True
    for x in ast.walk(f["node"]):
        if isinstance(x, ast.If) and any(y is nd for s in x.body + x.orelse for y in ast.walk(s)):
            for t in ast.walk(x.test):
                if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.NotIn, ast.In, ast.Is, ast.IsNot)):
                    return True
        if isinstance(x, ast.Try) and any(y is nd for h in x.handlers for y in ast.walk(h)):
            if any(h.type is not None and "KeyError" in ast.unparse(h.type) for h in x.handlers):
                return True
    # early return of the stored value
    for x in ast.walk(f["node"]):
        if isinstance(x, ast.If) and x.lineno < nd.lineno and any(isinstance(y, ast.Return) for y in x.body):
            for t in ast.walk(x.test):
                if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.IsNot)):
                    return True
    return False


def remembered(ctx, mods):
    """whatever a function keeps for its later calls is found again only by calls with the same inputs"""
    for m in mods:
        for fn, stmt, place, missing, key in m.remembered:
            c = f"{m.name}.{fn.name}: {place}"
            if missing:
                ctx.fail("remembered value", c, loc(m, stmt), f"{fn.name} keeps {place} for later calls, but what is kept depends on {', '.join(missing)}, which {'its key ' + ast.unparse(key)[:80] if key is not None else 'nothing'} tells apart; a later call with another value gets the earlier result")
            else:
                ctx.ok("remembered value", c, loc(m, stmt))


@prop("S40", min=60, assumptions=["a function that is returned, stored or put into a container may be called after, and several times at once with, the function that defines it", "caching and logging keep their own state by design (S20 to S22)"])
def s40(ctx):
    """Escape and effect analysis of every function of the project: a local function that outlives the function defining it may not rebind, or change in place, a variable the two share; no function changes an object held by a module or class, except the documented registration functions; and no parameter default that is a list, dictionary or set is changed in place."""
    mods = [m for m in ctx.project.modules.values() if m.name.startswith("spey") and not any(m.name == x or m.name.startswith(x + ".") for x in SKIP)]
    an = analysis(ctx.project, mods)
    if an.changed:
        ctx.undec("effects", "spey", "the summaries did not stabilise")
    found = {}

    def report(rule, f, nd, construct, where, msg, once=False):
        own = any(x is nd for x in ast.walk(f["node"]))
        k = (rule, id(nd))
        if k not in found or (own and not found[k][0]):
            found[k] = (own, rule, construct, where, msg, once)

    for f in an.order:
        n = f["node"]
        label = f["qual"][5:] if f["qual"].startswith("spey.") else f["qual"]
        bad = False
        chain, g = [], f
        while g is not None:
            chain.append(g)
            g = g["outer"]
        for o, (m, nd, tx) in an.muts[id(n)].items():
            if o[0] == "l":
                i = next((i for i, g in enumerate(chain) if id(g["node"]) == o[1]), None)
                if i and any(id(g["node"]) in an.outlives for g in chain[:i]):
                    bad = True
                    report("shared variable", f, nd, f"{label}: variable {o[2]}", loc(m, nd), f"{label} outlives {chain[i]['qual'][5:]} and changes the variable '{o[2]}' that all its calls share: {tx}", memo_store(f, nd))
            elif o[0] == "g":
                if (o[1], o[2]) in REGISTRIES and m.name == o[1]:
                    continue
                bad = True
                report("module state", f, nd, f"{label}: {o[2]}", loc(m, nd), f"{label} changes '{o[2]}', which belongs to a module or class and is shared by every model: {tx}", memo_store(f, nd))
            elif o[0] == "p" and o[1] == id(n) and o[3] == 0:
                a = n.args
                ps = a.posonlyargs + a.args
                ds = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
                ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                d = ds.get(o[2])
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (isinstance(d, ast.Call) and dotted(d.func) in CONTAINERS):
                    bad = True
                    report("shared default", f, nd, f"{label}: default of {o[2]}", loc(m, nd), f"{label} changes the default value of '{o[2]}' in place, which all its calls share: {tx}")
        if not bad:
            ctx.ok("shared variable" if id(n) in an.outlives and f["outer"] is not None else "module state", label, loc(f["mod"], n))
    remembered(ctx, mods)
    for _, rule, construct, where, msg, once in found.values():
        if once:
            ctx.undec(rule, construct, f"{where}: filled in while empty: {msg}")
        else:
            ctx.fail(rule, construct, where, msg)
