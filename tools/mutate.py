#!/usr/bin/env python3
"""Self-test: mutates functions of the analysed source (in memory only) and reports which mutants the checks miss.

usage: mutate.py [--refactor] FILE[:qualname] PROP[,PROP...]
The mutated module text is handed to the analyser in place of the file; nothing is written or run.
--refactor applies behaviour-preserving rewrites instead and reports every alarm (there must be none).
"""
import ast, copy, os, sys, io, contextlib, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from concurrent.futures import ProcessPoolExecutor
REPO = os.environ.get("SPEYVER_REPO", "/repo")
os.environ.setdefault("SPEYVER_EVID", "/tmp/speyver_mut")

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: [], ast.Mod: []}


def is_log(n):
    s = ast.dump(n)
    return "id='log'" in s or "'warnings'" in s or "id='warning'" in s or "attr='debug'" in s


def find(tree, qual):
    """functions matching qual (Class.method, function or all)"""
    out = []

    def walk(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + c.name
                if isinstance(c, ast.FunctionDef) and (not qual or q == qual):
                    out.append((q, c))
                elif not isinstance(c, ast.FunctionDef):
                    walk(c, q + ".")
    walk(tree, "")
    return out


def sites(fn):
    """(description, mutator(node copy root)->None) enumerated on walk index"""
    res = []
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or is_log(n)):
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, (ast.Raise,)):
            for k in ast.walk(n):
                if k is not n:
                    skip.add(id(k))
        if isinstance(n, ast.Assert) and n.msg:
            for k in ast.walk(n.msg):
                skip.add(id(k))
        if isinstance(n, (ast.AnnAssign,)):
            for k in ast.walk(n.annotation):
                skip.add(id(k))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    for k in ast.walk(a.annotation):
                        skip.add(id(k))
            if n.returns:
                for k in ast.walk(n.returns):
                    skip.add(id(k))
            for d in n.decorator_list:
                for k in ast.walk(d):
                    skip.add(id(k))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in CMP.get(type(n.ops[0]), []):
                res.append((i, f"L{ln} cmp {type(n.ops[0]).__name__}->{alt.__name__}: {ast.unparse(n)[:60]}", lambda m, alt=alt: m.ops.__setitem__(0, alt())))
        elif isinstance(n, ast.BinOp):
            for alt in BIN.get(type(n.op), []):
                res.append((i, f"L{ln} op {type(n.op).__name__}->{alt.__name__}: {ast.unparse(n)[:60]}", lambda m, alt=alt: setattr(m, "op", alt())))
        elif isinstance(n, ast.BoolOp):
            res.append((i, f"L{ln} and<->or: {ast.unparse(n)[:60]}", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            res.append((i, f"L{ln} drop first: {ast.unparse(n)[:60]}", lambda m: m.values.pop(0)))
            res.append((i, f"L{ln} drop last: {ast.unparse(n)[:60]}", lambda m: m.values.pop()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            res.append((i, f"L{ln} drop minus: {ast.unparse(n)[:60]}", lambda m: setattr(m, "op", ast.UAdd())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            res.append((i, f"L{ln} drop not: {ast.unparse(n)[:60]}", "REPLACE_OPERAND"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            res.append((i, f"L{ln} const {n.value}->+1", lambda m: setattr(m, "value", m.value + 1)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            res.append((i, f"L{ln} const {n.value} flip", lambda m: setattr(m, "value", not m.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) < 25:
            res.append((i, f"L{ln} str {n.value!r}+x", lambda m: setattr(m, "value", m.value + "x")))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            res.append((i, f"L{ln} negate: {ast.unparse(n.test)[:60]}", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
            if not isinstance(n, ast.While):
                res.append((i, f"L{ln} true: {ast.unparse(n.test)[:60]}", lambda m: setattr(m, "test", ast.Constant(True))))
            res.append((i, f"L{ln} false: {ast.unparse(n.test)[:60]}", lambda m: setattr(m, "test", ast.Constant(False))))
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if id(kw.value) in skip:
                    continue
                res.append((i, f"L{ln} drop kw {kw.arg or '**'}: {ast.unparse(n)[:70]}", lambda m, k=k: m.keywords.pop(k)))
            for k in range(len(n.args) - 1):
                res.append((i, f"L{ln} swap args {k}: {ast.unparse(n)[:70]}", lambda m, k=k: m.args.__setitem__(slice(k, k + 2), [m.args[k + 1], m.args[k]])))
            if n.args:
                res.append((i, f"L{ln} drop last arg: {ast.unparse(n)[:70]}", lambda m: m.args.pop()))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            ps = [a.arg for a in fn.args.args if a.arg not in ("self", n.id)]
            if n.id in [a.arg for a in fn.args.args] and n.id != "self" and ps:
                res.append((i, f"L{ln} name {n.id}->{ps[0]}", lambda m, p=ps[0]: setattr(m, "id", p)))
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or is_log(s)):
                        continue
                    if isinstance(s, (ast.FunctionDef, ast.Pass, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Continue, ast.Break, ast.Delete, ast.If, ast.For, ast.Return)):
                        res.append((i, f"L{s.lineno} del stmt: {ast.unparse(s)[:70]!r}", lambda m, k=k, field=field: getattr(m, field).__setitem__(k, ast.Pass())))
    return res


def mutants(text, qual):
    tree = ast.parse(text)
    for q, fn in find(tree, qual):
        for idx, desc, mut in sites(fn):
            t2 = copy.deepcopy(tree)
            f2 = [f for n, f in find(t2, qual) if n == q][0]
            # duplicates (property getters/setters) share a name: match line
            for n, f in find(t2, qual):
                if n == q and f.lineno == fn.lineno:
                    f2 = f
            target = list(ast.walk(f2))[idx]
            try:
                if mut == "REPLACE_OPERAND":
                    class R(ast.NodeTransformer):
                        def visit_UnaryOp(self, node):
                            if node is target:
                                return node.operand
                            return self.generic_visit(node)
                    R().visit(f2)
                else:
                    mut(target)
                ast.fix_missing_locations(t2)
                s = ast.unparse(t2)
                compile(s, "m", "exec")
            except Exception:
                continue
            yield f"{q} {desc}", s


# ------------------------------------------------------------ behaviour-preserving rewrites
def refactors(text, qual, seed=0):
    from refactor import rewrites
    yield from (r for r in rewrites(text, qual) if r)


def job(a):
    path, s, props, desc, ref = a
    import speyver.project as PJ
    PJ.OVERLAY = {path: s}
    from speyver import framework, rules
    framework.SHARED = None
    try:
        framework.SHARED = PJ.Project()
    except Exception:
        pass
    framework.EVID = "/tmp/speyver_mut"
    res = {}
    for p in props:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                rc = framework.main([p])
            except BaseException as e:
                rc = repr(e)
        res[p] = (rc, [l for l in buf.getvalue().splitlines() if ": [" in l or "BROKEN" in l or "Error" in l][:2] if rc else "")
        if rc == 1 and not ref:
            break
    return desc, res


def main():
    args = sys.argv[1:]
    ref = "--refactor" in args
    args = [a for a in args if not a.startswith("--")]
    path, _, qual = args[0].partition(":")
    path = os.path.join(REPO, "src", "spey", path)
    from speyver import rules
    props = sorted(rules.INFO) if args[1] == "all" else args[1].split(",")
    text = open(path).read()
    sys.path.insert(0, HERE)
    gen = refactors(text, qual) if ref else mutants(text, qual)
    jobs = [(path, s, props, d, ref) for d, s in gen]
    caught = missed = odd = 0
    with ProcessPoolExecutor(8) as ex:
        for d, r in ex.map(job, jobs, chunksize=2):
            rcs = {p: v[0] for p, v in r.items()}
            if ref:
                bad = {p: v for p, v in r.items() if v[0] != 0}
                if bad:
                    print("ALARM", d, bad)
                    missed += 1
                else:
                    caught += 1
                continue
            if any(v == 1 for v in rcs.values()):
                caught += 1
            else:
                missed += 1
                print("MISSED", d, {p: v for p, v in rcs.items() if v != 0} or "")
            if any(v not in (0, 1) for v in rcs.values()):
                odd += 1
    print(f"{'quiet' if ref else 'caught'} {caught} {'alarms' if ref else 'missed'} {missed} odd {odd}")


if __name__ == "__main__":
    main()
