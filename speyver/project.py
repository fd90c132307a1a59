"""Source model of /repo: modules, symbols, classes, signatures (no import, no execution)."""
import ast
import hashlib
import os

from . import memo

REPO = os.environ.get("SPEYVER_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OVERLAY = {}  # path -> text, used only by the self-tests in tools/


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: neither 'held' nor 'violated' can be said."""


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        prefix = (cls.qual + ".") if cls else (module.name + ".")
        self.qual = prefix + self.name
        self.decorators = list(getattr(node, "decorator_list", []))

    @property
    def is_abstract(self):
        return any(_last(d) == "abstractmethod" for d in self.decorators)

    @property
    def is_property(self):
        return any(_last(d) in ("property", "cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return any(_last(d) == "staticmethod" for d in self.decorators)

    @property
    def is_classmethod(self):
        return any(_last(d) == "classmethod" for d in self.decorators)

    def loc(self):
        return f"{os.path.relpath(self.module.path, REPO)}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def __repr__(self):
        return self.qual


def _last(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ""


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.attrs = {}  # class level assignments: name -> expr
        self.ann = {}  # name -> annotation expr (class level and self.x: T in methods)
        self.fields = []  # dataclass fields in order
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(n, module, self)
                if n.name in self.methods and any(_last(d) in ("setter", "deleter") for d in n.decorator_list):
                    continue
                self.methods[n.name] = f
                for s in ast.walk(n):
                    if (
                        isinstance(s, ast.AnnAssign)
                        and isinstance(s.target, ast.Attribute)
                        and isinstance(s.target.value, ast.Name)
                        and s.target.value.id == "self"
                    ):
                        self.ann.setdefault(s.target.attr, s.annotation)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.ann[n.target.id] = n.annotation
                if n.value is not None:
                    self.attrs[n.target.id] = n.value
                self.fields.append((n.target.id, n.value))
        self.is_dataclass = any(_last(d) == "dataclass" for d in node.decorator_list)

    def __repr__(self):
        return self.qual


class Module:
    def __init__(self, name, path, text, project, package=False):
        self.name = name
        self.path = path
        self.text = text
        self.package = package
        self.tree = ast.parse(text, path)
        self.remembered, self.kept_nodes = [], set()
        if name.split(".")[0] == "spey" and not name.startswith("spey.system"):
            self.remembered, self.kept_nodes = memo.fold(self.tree)
        self.project = project
        self.functions = {}
        self.classes = {}
        self.assigns = {}  # name -> list of value exprs (top level)
        self.imports = {}  # local name -> dotted
        self._scan(self.tree.body)
        for n in ast.walk(self.tree):
            # function-local imports resolve like module-level ones
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._import(n, setdefault=True)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[n.name] = Func(n, self)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(n, self)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self._import(n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.assigns.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                self._scan(getattr(n, "orelse", []))
                for h in getattr(n, "handlers", []):
                    self._scan(h.body)

    def _import(self, n, setdefault=False):
        put = self.imports.setdefault if setdefault else self.imports.__setitem__
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    put(a.asname, a.name)
                else:
                    put(a.name.split(".")[0], a.name.split(".")[0])
        else:
            base = n.module or ""
            if n.level:
                parts = self.name.split(".")
                if not self.package:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                put(a.asname or a.name, f"{base}.{a.name}")


CANON = {"autograd.numpy": "numpy", "autograd.scipy": "scipy", "np": "numpy"}


def canon_ext(d):
    for k, v in CANON.items():
        if d == k or d.startswith(k + "."):
            d = v + d[len(k):]
    return d


class Project:
    def __init__(self, src=SRC, package="spey"):
        self.modules = {}
        root = os.path.join(src, package)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} not found")
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
                pkg = False
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                    pkg = True
                if p in OVERLAY:
                    text = OVERLAY[p]
                else:
                    with open(p, encoding="utf-8") as fh:
                        text = fh.read()
                try:
                    self.modules[rel] = Module(rel, p, text, self, pkg)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {p}: {e}")

        from . import terms

        for m in self.modules.values():
            for c in m.classes.values():
                terms.INSTANCES.add(c.qual)

    def add_spec(self, name, text, package=False):
        m = Module(name, f"<spec {name}>", text, self, package)
        self.modules[name] = m
        return m

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]

    # ---- resolution
    def resolve(self, dotted, depth=0):
        """dotted -> ('func',Func) | ('class',Class) | ('module',Module) | ('const',Module,name) | ('ext',name)"""
        if depth > 10:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                r = self.lookup(m, parts[i], depth + 1)
                if r is None:
                    return ("ext", dotted)
                rest = parts[i + 1:]
                for x in rest:
                    if r[0] == "class" and x in r[1].methods:
                        r = ("func", r[1].methods[x])
                    elif r[0] == "module":
                        r = self.lookup(r[1], x, depth + 1) or ("ext", dotted)
                    elif r[0] == "class":
                        return ("classattr", r[1], x)
                    elif r[0] == "ext":
                        r = ("ext", r[1] + "." + x)
                    else:
                        return ("ext", dotted)
                return r
        return ("ext", canon_ext(dotted))

    def lookup(self, m, name, depth=0):
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.assigns:
            return ("const", m, name)
        if name in m.imports:
            d = m.imports[name]
            if d == f"{m.name}.{name}":  # from . import submodule
                return ("module", self.modules[d]) if d in self.modules else ("ext", canon_ext(d))
            return self.resolve(d, depth + 1)
        full = m.name + "." + name
        if full in self.modules:
            return ("module", self.modules[full])
        return None

    def cls(self, name):
        """Find class by bare or dotted name."""
        if "." in name:
            r = self.resolve(name)
            if r[0] == "class":
                return r[1]
        hits = [m.classes[name] for m in self.modules.values() if name in m.classes and not m.name.startswith("spec")]
        if len(hits) == 1:
            return hits[0]
        if not hits:
            raise AnalysisBroken(f"class {name} not found")
        raise AnalysisBroken(f"class {name} ambiguous: {hits}")

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            d = dotted_name(b)
            if d is None:
                continue
            r = self.lookup(cls.module, d.split(".")[0]) if "." not in d else self.resolve_in(cls.module, d)
            if r and r[0] == "class":
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
        return out

    def resolve_in(self, m, dotted):
        parts = dotted.split(".")
        r = self.lookup(m, parts[0])
        for x in parts[1:]:
            if r is None:
                return None
            if r[0] == "module":
                r = self.lookup(r[1], x)
            elif r[0] == "class":
                r = ("func", r[1].methods[x]) if x in r[1].methods else ("classattr", r[1], x)
            elif r[0] == "ext":
                r = ("ext", canon_ext(r[1] + "." + x))
            else:
                return None
        return r

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def only_methods(self):
        if hasattr(self, "_meth"):
            return self._meth
        meth, other = set(), set()
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    (other if f.is_property else meth).add(n)
                other |= set(c.attrs) | set(c.ann)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    other.add(x.attr)
        self._meth = meth - other
        return self._meth

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not cls and cls in self.mro(c):
                    out.append(c)
        return out

    def func(self, dotted):
        """'spey.math.value_and_grad' or 'StatisticalModel.likelihood' -> Func (AnalysisBroken if gone)."""
        r = self.resolve(dotted) if dotted.startswith("spey") else None
        if r and r[0] == "func":
            return r[1]
        if "." in dotted:
            c, f = dotted.rsplit(".", 1)
            try:
                cl = self.cls(c)
            except AnalysisBroken:
                cl = None
            if cl is not None:
                m = self.method(cl, f)
                if m is not None:
                    return m
        raise AnalysisBroken(f"anchor function {dotted} not found")

    def all_functions(self):
        for m in self.modules.values():
            if m.name.startswith("spec"):
                continue
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f


def dotted_name(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted_name(n.value)
        return None if b is None else b + "." + n.attr
    return None
