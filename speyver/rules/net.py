"""Network and file access (S23)."""
import ast

from . import prop
from ..paths import Machine, State, Overflow, walk, dotted, show, NONE, is_pure
from .state import Functions, own_nodes, loc

WEB = "spey.system.webutils"
NET = ("requests", "urllib.request", "urllib3", "http.client", "socket", "ftplib", "smtplib", "httpx", "aiohttp", "xmlrpc")
NET_SAFE = ("requests.ConnectionError", "requests.ConnectTimeout", "requests.exceptions", "requests.Timeout", "requests.RequestException", "requests.ReadTimeout", "requests.HTTPError", "socket.timeout", "requests.Response", "requests.TooManyRedirects", "requests.JSONDecodeError")
REQ = {"get", "post", "put", "head", "request", "delete", "patch", "options", "urlopen", "create_connection"}
FILE_GLOB = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.rmdir", "os.removedirs", "os.system", "os.popen", "numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "json.dump", "pickle.dump", "joblib.dump", "logging.FileHandler", "os.symlink", "os.link", "os.truncate", "os.chmod", "os.chown"}
FILE_MOD = ("shutil.", "tempfile.", "subprocess.")
FILE_METH = {"write_text", "write_bytes", "mkdir", "unlink", "touch", "rmdir", "tofile", "to_csv", "savefig", "symlink_to", "hardlink_to", "to_json", "to_pickle"}

PARENTS = {
    "ConnectTimeout": {"ConnectionError", "Timeout", "RequestException", "OSError", "IOError", "Exception"},
    "ReadTimeout": {"Timeout", "RequestException", "OSError", "IOError", "Exception"},
    "ConnectionError": {"RequestException", "OSError", "IOError", "Exception"},
    "JSONDecodeError": {"ValueError", "RequestException", "Exception"},
    "KeyError": {"LookupError", "Exception"},
    "Error": {"Exception"},
}


def full_name(project, mod, expr):
    d = dotted(expr)
    if not d:
        return ""
    head = d.split(".")[0]
    r = project.lookup(mod, head)
    if r is None:
        return d
    rest = d[len(head):]
    if r[0] == "ext":
        return r[1] + rest
    if r[0] in ("func", "class"):
        return r[1].qual + rest
    if r[0] == "module":
        return r[1].name + rest
    if r[0] == "const":
        return f"{r[1].name}.{r[2]}" + rest
    return d


class NetMachine(Machine):
    def handler_matches(self, h, exc, mod):
        if h.type is None:
            return True
        names = [full_name(self.project, mod, t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        x = exc[1]
        if x == "any":
            x = ("glob", "some.Error")
        if x[0] == "alloc" and not isinstance(x[2], str):
            n = x[2].qual
            anc = {c.qual for c in self.project.mro(x[2])} | {"Exception", "BaseException"}
            if n == WEB + ".ConnectionError" or x[2].node.bases:
                return any(y in anc for y in names) or (None if any(y not in anc and y.startswith("spey") and False for y in names) else False)
        elif x[0] == "call" and x[2][0] == "glob":
            n = x[2][1]
            n = n[9:] if n.startswith("builtins.") else n
            last = n.split(".")[-1]
            anc = {last} | PARENTS.get(last, {"Exception"}) | {"BaseException"}
            return any(y.split(".")[-1] in anc for y in names)
        elif x[0] == "glob":
            last = x[1].split(".")[-1]
            anc = {last} | PARENTS.get(last, {"Exception"})
            for y in names:
                yl = y.split(".")[-1]
                if yl == "BaseException" or yl == "Exception":
                    return True
                if yl in anc:
                    # builtins.ConnectionError and spey's own class are not requests' class
                    if yl == "ConnectionError" and not y.startswith("requests"):
                        continue
                    if yl in ("ValueError", "LookupError") and y not in ("ValueError", "LookupError"):
                        continue
                    return True
            if last == "Error":
                return None
            return False
        return super().handler_matches(h, exc, mod)


def network_functions(ctx, F):
    """functions (and module levels) containing a network primitive"""
    out = []
    for mod in ctx.project.modules.values():
        if not mod.name.startswith("spey"):
            continue
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call):
                n = full_name(ctx.project, mod, x.func)
                if n and any(n == p or n.startswith(p + ".") for p in NET) and not n.startswith(NET_SAFE):
                    out.append((mod, x, n))
    return out


def owner(F, mod, node):
    best = None
    for f in F.all:
        if f[0] is mod and any(y is node for y in ast.walk(f[1])):
            if best is None or any(y is f[1] for y in ast.walk(best[1])):
                best = f
    return best


def check_timeout(ctx, mod, fn, call):
    kw = {k.arg: k.value for k in call.keywords}
    if None in kw and "timeout" not in kw:
        return None, "keyword arguments not known"
    if "timeout" not in kw:
        return False, "no timeout: the call can block for ever"
    v = kw["timeout"]
    return bounded(ctx, mod, fn, v)


def bounded(ctx, mod, fn, v):
    if isinstance(v, ast.Constant):
        return (True, "") if isinstance(v.value, (int, float)) and not isinstance(v.value, bool) and v.value > 0 else (False, f"timeout {v.value!r} does not bound the call")
    if isinstance(v, ast.Tuple):
        r = [bounded(ctx, mod, fn, x) for x in v.elts]
        bad = [x for x in r if x[0] is False]
        return bad[0] if bad else (True, "")
    if isinstance(v, ast.Name):
        if fn is not None:
            a = fn[1].args
            ps = a.posonlyargs + a.args
            d = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
            d.update({p.arg: x for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None})
            if v.id in [p.arg for p in ps + a.kwonlyargs]:
                if v.id in d:
                    return bounded(ctx, mod, None, d[v.id])
                return None, "timeout given by the caller"
            loc_ = [x.value for x in own_nodes(fn[1]) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
            if len(loc_) == 1:
                return bounded(ctx, mod, fn, loc_[0])
        vals = mod.assigns.get(v.id, [])
        if len(vals) == 1:
            return bounded(ctx, mod, None, vals[0])
    return None, "timeout not recognised"


def run_paths(ctx, f, raises, inline=lambda c: False, limit=60000, unroll=1):
    m = NetMachine(ctx.project, raises, inline=inline, limit=limit, unroll=unroll)
    a = f[1].args
    pos = tuple(("param", x.arg) for x in a.posonlyargs + a.args)
    kw = tuple((x.arg, ("param", x.arg)) for x in a.kwonlyargs)
    clo = m.closure(f[1], f[0], ())[1]
    return m, [(s.events, v, ex) for s, v, ex in m.enter(State(), clo, pos, kw, f[1])]


def own_error(ex):
    x = ex[1]
    return x != "any" and x[0] == "alloc" and not isinstance(x[2], str) and x[2].qual == WEB + ".ConnectionError"


GEN = (("glob", "some.Error"),)
NETEXC = (("glob", "requests.exceptions.ConnectionError"), ("glob", "requests.exceptions.ConnectTimeout"), ("glob", "requests.exceptions.ReadTimeout"), ("glob", "some.Error"))


def gname(f):
    if f[0] == "glob":
        return f[1]
    if f[0] == "func":
        return f[1].mod.name + "." + f[1].name
    return None


@prop("S23", min=5, assumptions=["requests honours its timeout argument", "third-party packages are not analysed"])
def s23(ctx):
    """Call-site and path analysis: every call into a network library is located (allowed in spey.system.webutils only) and must carry a finite timeout; all paths of the functions that make such a call, with a connection error, a timeout or any other failure raised at each call, must end in an empty answer or spey's own ConnectionError, which every caller must handle; the version check must not raise whatever fails in it, and runs at import only if not switched off; every call that writes, creates or removes a file is located and must act on the version cache in the home directory, removal only on files named like those written; no other function of the package refers to the network helpers."""
    F = Functions(ctx.project)
    nets = network_functions(ctx, F)
    nf = {}
    for mod, call, n in nets:
        f = owner(F, mod, call)
        where = f[4] if f else mod.name
        ctx.functions.add(where)
        c = f"{where}:{n}"
        if mod.name != WEB:
            ctx.fail("network-place", c, loc(mod, call), f"network access ({n}) outside the citation and version-check helpers")
            continue
        if f is None:
            ctx.fail("network-place", c, loc(mod, call), f"network access ({n}) while the package is imported")
            continue
        ctx.ok("network-place", c)
        nf[f[1]] = f
        if n.split(".")[-1] in REQ:
            r, msg = check_timeout(ctx, mod, f, call)
            if r is False:
                ctx.fail("network-timeout", c, loc(mod, call), msg)
            elif r is None:
                ctx.undec("network-timeout", c, msg)
            else:
                ctx.ok("network-timeout", c)
        # sessions
        if n.split(".")[-1] in ("Session", "session"):
            for x in own_nodes(f[1]):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in REQ and isinstance(x.func.value, ast.Name) and x.func.value.id != "requests" and any(k.arg in ("headers", "params", "timeout", "stream") for k in x.keywords):
                    r, msg = check_timeout(ctx, mod, f, x)
                    if r is False:
                        ctx.fail("network-timeout", c, loc(mod, x), msg)
    web = {f[4].split(".")[-1]: f for f in F.all if f[0].name == WEB and f[2] is None and f[3] is None}
    # ---- failures
    reach = reaching(ctx, F, nf)
    for name in ("get_bibtex", "check_updates"):
        if name not in web:
            ctx.undec("network-failure", WEB + "." + name, "function not found")
    if "get_bibtex" in web:
        f = web["get_bibtex"]
        ctx.guard("network-failure", f[4], lambda: bibtex(ctx, F, f, reach))
    if "check_updates" in web:
        f = web["check_updates"]
        ctx.guard("network-failure", f[4], lambda: updates(ctx, F, f, reach))
    for f in reach.values():
        if f[0].name == "spey" and f[2] is None and f[3] is None and (not f[1].name.startswith("_") or not callers(ctx, F, f)):
            ctx.guard("network-failure", f[4], lambda f=f: citation(ctx, f, reach))
    ctx.guard("version-cache", WEB, lambda: cached_first(ctx, F, nf))
    places(ctx, F, web, reach)
    files(ctx, F, web)


def reaching(ctx, F, nf):
    """functions from which a network primitive is reachable (within the package, by name)"""
    reach = dict(nf)
    changed = True
    while changed:
        changed = False
        quals = {f[4] for f in reach.values()}
        for f in F.all:
            if f[1] in reach:
                continue
            for x in own_nodes(f[1]):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(getattr(x, "ctx", None), ast.Load) and full_name(ctx.project, f[0], x) in quals:
                    reach[f[1]] = f
                    changed = True
                    break
    return reach


def harmless(c):
    n = c[2] if c[0] == "attr" else gname(c) or ""
    return n.split(".")[-1] in ("debug", "info", "warning", "error", "exception") or n in ("builtins.str", "builtins.repr", "builtins.isinstance", "builtins.type") or c[0] == "class"


def bibtex(ctx, F, f, reach):
    helpers = {g[1] for g in reach.values() if g[1] is not f[1] and g[0].name == WEB}

    def raises(m, s, c, pos, node):
        n = gname(c)
        if n and any(n.startswith(p) for p in NET):
            return NETEXC
        return () if harmless(c) else GEN

    m, paths = run_paths(ctx, f, raises, inline=lambda c: c.node in helpers)
    ctx.functions.add(f[4])
    bad = None
    for ev, v, ex in paths:
        if ex is not None and not own_error(ex):
            th = [e for e in ev if e.kind == "thrown"]
            bad = bad or (loc(f[0], th[-1].node if th else f[1]), f"a failure ({show(ex[1], 3) if ex[1] != 'any' else 'any exception'}) of this call escapes to the caller")
        if ex is None:
            text = [y for y in walk(v) if y[0] == "attr" and y[2] in ("text", "content")]
            if text:
                resp = text[0][1]
                ok = any(e.kind == "assume" and any(y[0] == "attr" and y[2] in ("status_code", "ok") for y in walk(e.a)) for e in ev) or any(e.kind == "call" and e.a[0] == "attr" and e.a[2] == "raise_for_status" for e in ev)
                if not ok:
                    bad = bad or (loc(f[0], f[1]), "the body of an error response is returned as a citation")
                for e in ev:
                    if e.kind == "assume" and e.a[0] == "cmp" and any(y[0] == "attr" and y[2] == "status_code" for y in walk(e.a)):
                        r = status_ok(e)
                        if r is False:
                            bad = bad or (loc(f[0], e.node), "an error response is taken for a citation")
            elif v == NONE or (v[0] == "const" and not isinstance(v[1], str)):
                bad = bad or (loc(f[0], f[1]), f"{v[1]!r} is returned instead of a text")
    if bad:
        ctx.fail("network-failure", f[4], *bad)
    else:
        ctx.ok("network-failure", f[4], f"{len(paths)} paths")


def status_ok(e):
    """does this assumption exclude error codes? None when it says nothing definite"""
    op, x, y = e.a[1:4]
    for a, b, o in ((x, y, op), (y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
        if a[0] == "attr" and a[2] == "status_code" and b[0] == "const" and isinstance(b[1], int):
            allowed = [c for c in (404, 500, 503, 403) if {"<": c < b[1], "<=": c <= b[1], ">": c > b[1], ">=": c >= b[1], "==": c == b[1], "!=": c != b[1]}.get(o, True) == e.b]
            if b[1] in range(100, 300) and o in ("<", "<=") or (b[1] >= 200 and o in (">", ">=")) or o in ("==", "!="):
                ok200 = [c for c in (200,) if {"<": c < b[1], "<=": c <= b[1], ">": c > b[1], ">=": c >= b[1], "==": c == b[1], "!=": c != b[1]}.get(o, True) == e.b]
                if not ok200:
                    return False
    return None


def updates(ctx, F, f, reach):
    def raises(m, s, c, pos, node):
        return () if harmless(c) else GEN

    m, paths = run_paths(ctx, f, raises, inline=lambda c: False, limit=400000)
    ctx.functions.add(f[4])
    bad = None
    for ev, v, ex in paths:
        if ex is not None:
            th = [e for e in ev if e.kind == "thrown"]
            bad = bad or (loc(f[0], th[-1].node if th else f[1]), "a failure of this call escapes from the version check, importing the package fails with it")
    if bad:
        ctx.fail("network-failure", f[4], *bad)
    else:
        ctx.ok("network-failure", f[4], f"{len(paths)} paths")


def small(c):
    return is_pure(c.node) and len(list(ast.walk(c.node))) < 80


def cached_first(ctx, F, nf):
    """the version check asks the package index only when it has no recent answer"""
    for f in nf.values():
        if f[1].name == "get_bibtex" or f[1].name not in reach_from(ctx, F, "check_updates"):
            continue
        m, paths = run_paths(ctx, f, lambda *a: (), inline=lambda c: False)
        bad = None
        loaders = set()
        for ev, v, ex in paths:
            neti = [i for i, e in enumerate(ev) if e.kind == "call" and (gname(e.a) or "").startswith(tuple(NET))]
            for i, e in enumerate(ev):
                if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] in ("is", "==") and NONE in e.a[2:4]:
                    src = e.a[2] if e.a[3] == NONE else e.a[3]
                    if src[0] in ("call", "pcall"):
                        g = src[2] if src[0] == "call" else src[1]
                        if g[0] == "func" and "cache" in g[1].name:
                            loaders.add(g[1].name)
                            if e.b is False and neti and neti[0] > i:
                                bad = (loc(f[0], ev[neti[0]].node), "the package index is asked although a recent answer is in the cache")
        if bad:
            ctx.fail("version-cache", f[4], *bad)
        elif loaders:
            ctx.ok("version-cache", f[4])
        elif not any(isinstance(x, ast.Attribute) and x.attr in ("read_text", "open", "read_bytes", "load") for n in reach_from(ctx, F, "check_updates") for g in F.all if g[0].name == WEB and g[1].name == n for x in own_nodes(g[1])):
            ctx.fail("version-cache", f[4], f[0].path and loc(f[0], f[1]), "the package index is asked at every import, the cached answer is never read")
        else:
            ctx.undec("version-cache", f[4], "cache look-up not recognised")


def reach_from(ctx, F, name):
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for f in F.all:
            if f[0].name == WEB and f[1].name == n:
                todo += [x.id for x in own_nodes(f[1]) if isinstance(x, ast.Name)]
    return seen


def citation(ctx, f, reach):
    helpers = {g[1] for g in reach.values() if g[0].name == "spey"}

    def raises(m, s, c, pos, node):
        if gname(c) == WEB + ".get_bibtex":
            k = ctx.project.cls(WEB + ".ConnectionError")
            return (("alloc", 0, k),)
        return ()

    m, paths = run_paths(ctx, f, raises, inline=lambda c: c.node in helpers)
    ctx.functions.add(f[4])
    bad = None
    for ev, v, ex in paths:
        th = [e for e in ev if e.kind == "thrown"]
        if ex is not None and th:
            bad = bad or (loc(f[0], th[-1].node), "a lost connection escapes to the caller")
        elif th and ex is None and (v == NONE or v[0] == "const" and v[1] not in ("",)):
            bad = bad or (loc(f[0], th[-1].node), f"a lost connection gives {v[1]!r} instead of an empty or partial answer")
    if bad:
        ctx.fail("network-failure", f[4], *bad)
    elif not any(e.kind == "thrown" for ev, _, _ in paths for e in ev):
        ctx.undec("network-failure", f[4], "no call of get_bibtex on its paths")
    else:
        ctx.ok("network-failure", f[4], f"{len(paths)} paths")


def places(ctx, F, web, reach):
    """who may reach the network"""
    allowed = {"spey.cite", "spey.get_backend_bibtex"}
    for f in reach.values():
        c = f[4]
        if f[0].name == WEB:
            continue
        if f[0].name == "spey" and (c in allowed or all(g[4] in allowed for g in callers(ctx, F, f)) and callers(ctx, F, f)):
            ctx.ok("network-reach", c)
        else:
            ctx.fail("network-reach", c, loc(f[0], f[1]), "this function reaches the network")
    # import time
    quals = {f[4] for f in reach.values()}
    n = 0
    for mod in ctx.project.modules.values():
        if not mod.name.startswith("spey"):
            continue
        for st in mod.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for x in module_level(st):
                if isinstance(x, ast.Call):
                    name = full_name(ctx.project, mod, x.func)
                    if name in quals:
                        n += 1
                        c = f"{mod.name}:{name}"
                        if name != WEB + ".check_updates":
                            ctx.fail("import-time", c, loc(mod, x), "the network is used while the package is imported")
                            continue
                        g = [y for y in ast.walk(st) if isinstance(y, ast.If) and any(z is x for b in y.body for z in ast.walk(b))]
                        r = gate(ctx, mod, g)
                        if r is None:
                            ctx.undec("import-time", c, "opt-out condition not recognised")
                        elif r:
                            ctx.fail("import-time", c, loc(mod, x), r)
                        else:
                            ctx.ok("import-time", c)
                    elif name in ("pathlib.Path.home", "os.getlogin", "getpass.getuser", "os.getcwd", "pathlib.Path.cwd"):
                        ctx.fail("import-time", f"{mod.name}:{name}", loc(mod, x), f"{name}() fails in environments without a home directory or user entry, and with it the import")
                    elif is_file_write(ctx, mod, x):
                        ctx.fail("import-time", f"{mod.name}:{name or x.func.attr}", loc(mod, x), "a file is written while the package is imported")
    if not n:
        ctx.undec("import-time", "spey", "no version check at import")


def module_level(st):
    stack = [st]
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(x))


def gate(ctx, mod, ifs):
    """'' fine, message when wrong, None unknown"""
    if not ifs:
        return "the version check at import cannot be switched off"
    for env, want in ({}, True), ({"SPEY_CHECKUPDATE": "OFF"}, False), ({"SPEY_CHECKUPDATE": "off"}, False), ({"SPEY_CHECKUPDATE": "ON"}, True):
        try:
            r = all(bool(const_eval(ctx, mod, i.test, env)) for i in ifs)
        except ValueError:
            return None
        if r != want:
            return f"with SPEY_CHECKUPDATE={env.get('SPEY_CHECKUPDATE', '(unset)')} the version check at import " + ("runs" if r else "does not run")
    return ""


def const_eval(ctx, mod, e, env):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = const_eval(ctx, mod, e.left, env), const_eval(ctx, mod, e.comparators[0], env)
        op = e.ops[0]
        if isinstance(op, (ast.Eq,)):
            return a == b
        if isinstance(op, (ast.NotEq,)):
            return a != b
        if isinstance(op, ast.In):
            return a in b
        if isinstance(op, ast.NotIn):
            return a not in b
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return [const_eval(ctx, mod, x, env) for x in e.elts]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not const_eval(ctx, mod, e.operand, env)
    if isinstance(e, ast.BoolOp):
        v = [const_eval(ctx, mod, x, env) for x in e.values]
        r = v[0]
        for x in v[1:]:
            r = (r and x) if isinstance(e.op, ast.And) else (r or x)
        return r
    if isinstance(e, ast.Call):
        n = full_name(ctx.project, mod, e.func)
        if n in ("os.environ.get", "os.getenv") and e.args:
            k = const_eval(ctx, mod, e.args[0], env)
            d = const_eval(ctx, mod, e.args[1], env) if len(e.args) > 1 else None
            return env.get(k, d)
        if n == "str" and len(e.args) == 1:
            return str(const_eval(ctx, mod, e.args[0], env))
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("upper", "lower", "strip", "casefold") and not e.args:
            return getattr(const_eval(ctx, mod, e.func.value, env), e.func.attr)()
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith",) and len(e.args) == 1:
            return const_eval(ctx, mod, e.func.value, env).startswith(const_eval(ctx, mod, e.args[0], env))
        f = ctx.project.lookup(mod, n.split(".")[-1]) if n else None
        if f is not None and f[0] == "func" and not e.args and len(f[1].node.body) >= 1:
            body = [b for b in f[1].node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return):
                return const_eval(ctx, f[1].module, body[0].value, env)
    if isinstance(e, ast.Name):
        vals = mod.assigns.get(e.id, [])
        if len(vals) == 1:
            return const_eval(ctx, mod, vals[0], env)
    raise ValueError


def callers(ctx, F, f):
    out = []
    for g in F.all:
        for x in own_nodes(g[1]):
            if isinstance(x, (ast.Name, ast.Attribute)) and full_name(ctx.project, g[0], x) == f[4]:
                out.append(g)
                break
    return out


def is_file_write(ctx, mod, x):
    n = full_name(ctx.project, mod, x.func)
    if n == "open" or n == "builtins.open" or (isinstance(x.func, ast.Attribute) and x.func.attr == "open" and n not in ("webbrowser.open",)):
        args = list(x.args)
        mode = None
        if n in ("open", "builtins.open", "io.open"):
            mode = args[1] if len(args) > 1 else None
        else:
            mode = args[0] if args else None
        for k in x.keywords:
            if k.arg == "mode":
                mode = k.value
        if mode is None:
            return False
        return not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) <= set("rbt"))
    if n in FILE_GLOB or any(n.startswith(p) for p in FILE_MOD):
        return True
    return isinstance(x.func, ast.Attribute) and x.func.attr in FILE_METH


def files(ctx, F, web):
    n = 0
    prefix = None
    for mod in ctx.project.modules.values():
        if not mod.name.startswith("spey"):
            continue
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and is_file_write(ctx, mod, x):
                f = owner(F, mod, x)
                c = f"{f[4] if f else mod.name}:{dotted(x.func) or '?'}"
                n += 1
                if mod.name != WEB:
                    ctx.fail("file-access", c, loc(mod, x), "a file or process is written or created outside the version cache")
                elif f is not None:
                    ctx.guard("file-access", c, lambda f=f, x=x, c=c: cache_file(ctx, f, x, c, F))
    if not n:
        ctx.ok("file-access", "spey", "no file access")


def written_prefixes(ctx, F):
    """literal name prefixes of the files written in the cache directory"""
    out = set()
    for f in F.all:
        if f[0].name != WEB:
            continue
        for x in own_nodes(f[1]):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div) and isinstance(x.right, ast.JoinedStr) and x.right.values and isinstance(x.right.values[0], ast.Constant):
                out.add(x.right.values[0].value)
    return out


def cache_file(ctx, f, call, c, F):
    meth = call.func.attr if isinstance(call.func, ast.Attribute) else ""
    m, paths = run_paths(ctx, f, lambda *a: (), inline=small)
    ctx.functions.add(f[4])
    evs = [e for ev, _, _ in paths for e in ev if e.kind == "call" and e.node is call]
    if not evs:
        ctx.undec("file-access", c, "call not reached by the path analysis")
        return
    base = evs[0].a[1] if evs[0].a[0] == "attr" else evs[0].b[0] if evs[0].b else evs[0].a
    root = ("glob", WEB + "._SPEY_DIR")
    if evs[0].a == ("glob", WEB + "._SPEY_DIR." + meth):
        base = root
    rooted = any(y == root or (y[0] == "glob" and y[1].startswith(root[1])) for y in walk(base))
    if not rooted and any(y[0] == "param" for y in walk(base)):
        ctx.undec("file-access", c, "path given by a caller")
        return
    if not rooted and not any(y[0] in ("glob", "call", "attr") for y in walk(base)):
        ctx.undec("file-access", c, "path not recognised")
        return
    if not rooted:
        ctx.fail("file-access", c, loc(f[0], call), "a file outside the version cache directory is written or removed")
        return
    if meth in ("unlink", "rmdir", "rename"):
        globs = [y for y in walk(base) if y[0] == "call" and ((y[2][0] == "attr" and y[2][2] in ("glob", "rglob", "iterdir")) or (y[2][0] == "glob" and y[2][1].split(".")[-1] in ("glob", "rglob", "iterdir")))]
        if not globs:
            ctx.undec("file-access", c, "removed files not recognised")
            return
        pat = globs[0][3][0][1] if globs[0][3] and globs[0][3][0][0] == "const" else None
        pre = written_prefixes(ctx, F)
        if pat is None and globs[0][2][-1].split(".")[-1] != "iterdir":
            ctx.undec("file-access", c, "pattern not recognised")
            return
        lit = (pat or "").split("*")[0].split("?")[0].split("[")[0]
        if pre and not any(lit.startswith(p) or lit == p for p in pre):
            if pat is None and any(e.kind == "assume" for ev, _, _ in paths for e in ev if any(y[0] == "attr" and y[2] in ("name", "startswith", "match") for y in walk(e.a))):
                ctx.undec("file-access", c, "files selected by name")
                return
            ctx.fail("file-access", c, loc(f[0], call), f"files matching {pat!r} are removed, not only those written by the version check")
            return
    ctx.ok("file-access", c)
