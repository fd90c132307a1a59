"""Random interpretation of value terms (Gulwani & Necula): the second opinion on two values that value numbering could not make equal.

Two terms that differ after normalisation need not differ in meaning: a sum over a list can be a loop, a comprehension or a whole-array operation.  The terms
are interpreted over randomly drawn values of their symbols; functions that neither side interprets stay uninterpreted (equal arguments, equal results).  Only a
drawn assignment under which the two values come apart makes the difference a definite one.  Nothing of the analysed program is executed: what is interpreted is
the pair of closed value terms the analysis extracted from the source.
"""
import hashlib
import math
import os
import sys
import time
import warnings
from fractions import Fraction

from . import terms as T

np = None
special = None


def libraries():
    global np, special
    if np is not None:
        return True
    try:
        import numpy
    except ImportError:
        d = f"/opt/veriftools/pyvenv/lib/python{sys.version_info[0]}.{sys.version_info[1]}/site-packages"
        if not os.path.isdir(d):
            return False
        sys.path.append(d)
        try:
            import numpy
        except ImportError:
            return False
    np = numpy
    return True


class Unsupported(Exception):
    pass


class Restart(Exception):
    pass


class Skip(Exception):
    """The drawn assignment makes no sense for the terms (wrong index, empty sequence): it says nothing."""


class Raised(Exception):
    def __init__(self, name):
        self.name = name


def dig(*parts):
    return hashlib.blake2b("\x1f".join(map(str, parts)).encode(), digest_size=9).hexdigest()


class V:
    """An uninterpreted value: `key` is its identity, `shape` groups the values that play the same part."""

    __slots__ = ("key", "shape", "name")

    def __init__(self, key, shape, name):
        self.key, self.shape, self.name = key, shape, name

    def __repr__(self):
        return self.name


class Closure:
    __slots__ = ("params", "body", "env")

    def __init__(self, params, body, env):
        self.params, self.body, self.env = params, body, env


class Partial:
    __slots__ = ("f", "args", "kws")

    def __init__(self, f, args, kws):
        self.f, self.args, self.kws = f, args, kws


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Meth:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SetV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Obj:
    """a drawn value of a type nothing interprets (slice, class instance)"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NUMERIC = {"float", "int", "numpy.float64", "numpy.floating", "numpy.number", "numbers.Number", "numbers.Real", "numpy.integer", "complex", "numpy.int64"}
SEQ = {"list", "tuple", "numpy.ndarray", "ndarray", "Sequence", "collections.abc.Sequence", "Iterable", "set"}
DICTS = {"dict", "Mapping", "collections.abc.Mapping"}
NAMES = ("n0", "n1", "n2")


def leaves(t, n=0):
    if t.op == "ite" and n < 6:
        return leaves(t.args[1], n + 1) + leaves(t.args[2], n + 1)
    return [t]


class World:
    """One family of assignments; `demands` (how each kind of symbol is used) is learned and shared between draws."""

    def __init__(self, a, b):
        self.demands = {}
        self.cov = set()
        self.pools = {}
        self.consts = [Fraction(0), Fraction(1)]
        self.keys = set()
        self.strings = set()
        for t in (a, b):
            for x in T.walk(t):
                if x.op == "n":
                    if abs(x.args[0]) < 100 and len(self.consts) < 14 and x.args[0] not in self.consts:
                        self.consts.append(x.args[0])
                elif x.op == "poly":
                    for m, c in x.args[0]:
                        if m == () and abs(c) < 100 and len(self.consts) < 14:
                            self.consts.append(-c)
                elif x.op == "kv" and x.args[0].op == "c" and x.args[0].args[0] == "str":
                    self.keys.add(x.args[0].args[1])
                elif x.op in ("dget", "sub", "in") and len(x.args) > 1:
                    k = x.args[0] if x.op == "in" else x.args[1]
                    if isinstance(k, T.Term) and k.op == "c" and k.args[0] == "str":
                        self.keys.add(k.args[1])
                elif x.op == "dminus":
                    for k in x.args[1]:
                        if k.op == "c":
                            self.keys.add(k.args[1])
                elif x.op == "ite" and x.args[0].op == "truth" and x.args[0].args[0].op == "sym":
                    # a default for a value that is not given tells what kind of value it is
                    s = x.args[0].args[0]
                    lv = leaves(x.args[1]) + leaves(x.args[2])
                    ks = {"num" if o.op in ("n", "poly") else "dict" if o.op == "dict" else "seq" if o.op in ("list", "tuple") else None for o in lv} - {None}
                    if s in lv and len(ks) == 1:
                        self.demands.setdefault(dig("sym", s.args[0]), set()).update(ks)
                elif x.op == "c" and x.args[0] == "str":
                    self.strings.add(x.args[1])
        self.keys = sorted(map(str, self.keys)) + ["zz_other"]
        self.floats = [float(c) for c in self.consts]


class Draw:
    """One assignment."""

    def __init__(self, world, seed, limit):
        self.w, self.seed = world, seed
        self.nonce = {}
        self.trace = None
        self.limit = limit
        self.memo = {}
        self.cov = set()
        self.steps = 0
        self.depth = 0
        self.L = (3, 2, 3, 2, 1, 3, 2, 0)[self.bits("L", "") % 8]

    # ------------------------------------------------------------ drawing
    def bits(self, key, prop):
        n = (key, prop)
        if self.trace is not None:
            self.trace.add(n)
        h = hashlib.blake2b(f"{self.seed}|{key}|{prop}|{self.nonce.get(n, 0)}".encode(), digest_size=8)
        return int.from_bytes(h.digest(), "big")

    def unit(self, key, prop):
        return (self.bits(key, prop) >> 11) / float(1 << 53)

    def pick(self, key, prop, xs):
        return xs[self.bits(key, prop) % len(xs)]

    def demand(self, v, d):
        s = self.w.demands.setdefault(v.shape, set())
        if d not in s:
            s.add(d)
            raise Restart()

    def has(self, v, d):
        return d in self.w.demands.get(v.shape, ())

    def item(self, v, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        kk = k if isinstance(k, (int, str)) else self.keyof(k)
        return V(dig(v.key, "item", kk), dig(v.shape, "item", kk if isinstance(k, str) or isinstance(k, int) and 0 <= k < 3 else "*"), f"{v.name}[{kk}]")

    def resolve(self, v):
        """The drawn value of an uninterpreted symbol: None, number, string, list, dict, array or the symbol itself."""
        if not isinstance(v, V):
            return v
        d = self.w.demands.get(v.shape)
        if not d:
            return v
        if "none" in d and self.unit(v.key, "none") < 0.3:
            return None
        types = sorted(x[5:] for x in d if x.startswith("type:"))
        cat = None
        if types:
            t = self.pick(v.key, "type", types + ["*"])
            cat = "num" if t in NUMERIC else "seq" if t in SEQ else "dict" if t in DICTS else t if t in ("str", "bool") else None
            if cat is None:
                rest = [c for c in ("mat", "seq", "num", "dict") if c in d]
                if t != "*" or not rest:
                    return v
                cat = rest[0]
            if cat == "seq" and "mat" in d:
                cat = "mat"
        else:
            pool = self.w.pools.get(v.shape, ())
            cats = [c for c in ("mat", "seq", "dict", "num") if c in d][:1]
            if "bool" in d and not cats:
                cats.append("bool")
            if "str" in d:
                cats.append("str")
            if not cats:
                return v
            cat = self.pick(v.key, "cat", cats) if len(cats) > 1 else cats[0]
        if cat == "num":
            if types and self.tag(v) == "int":
                return int(self.bits(v.key, "int") % 4)
            return self.number(v, d)
        if cat == "str":
            return self.pick(v.key, "str", sorted(self.w.pools.get(v.shape, ())) + list(NAMES))
        if cat == "bool":
            return self.unit(v.key, "bool") < 0.5
        if cat == "seq":
            return [self.item(v, i) for i in range(self.length(v))]
        if cat == "mat":
            return self.matrix(v)
        if cat == "dict":
            ks = [k for k in self.w.keys if self.unit(v.key, "has:" + k) < 0.4]
            if "names" in d:
                ks += [k for k in NAMES if self.unit(v.key, "has:" + k) < 0.6]
            ex = T._kw_excluded.get(T.sym(v.name), ()) if v.name.startswith("*") or T.sym(v.name) in T._kw_excluded else ()
            out = {k: self.item(v, k) for k in ks if k not in ex}
            if "intkeys" in d:
                out = {i: self.item(v, i) for i in range(self.length(v))}
            return out
        return v

    def tag(self, v):
        types = sorted(x[5:] for x in self.w.demands.get(v.shape, ()) if x.startswith("type:"))
        return self.pick(v.key, "type", types + ["*"]) if types else None

    def length(self, v):
        if self.unit(v.key, "odd") < 0.06:
            return self.bits(v.key, "len") % 4
        return self.L

    def number(self, v, d):
        if "index" in d:
            return int(self.bits(v.key, "int") % 3)
        if "count" in d:
            return int(self.bits(v.key, "int") % 4)
        u = self.unit(v.key, "how")
        if "nan" in d and u > 0.93:
            return float("nan")
        if "inf" in d and u > 0.97:
            return float("inf")
        if u < 0.12:
            return self.pick(v.key, "const", self.w.floats)
        x = self.unit(v.key, "num")
        if u < 0.3:
            return 6.0 * x - 3.0
        if u < 0.4:
            return self.pick(v.key, "const", self.w.floats) + x - 0.5
        if u < 0.8:
            return 0.05 + 3.0 * x
        if u > 0.94:
            return -0.5 - 20.0 * x
        return 0.5 + 20.0 * x

    def matrix(self, v):
        n = self.L or 2
        m = np.array([[self.unit(v.key, f"m{i},{j}") for j in range(n)] for i in range(n)])
        return m @ m.T + np.diag([0.3 + self.unit(v.key, f"d{i}") for i in range(n)])

    # ------------------------------------------------------------ views
    def seq(self, x):
        x = self.resolve(x)
        if isinstance(x, V):
            self.demand(x, "seq")
        if isinstance(x, (list, tuple)):
            return list(x)
        if isinstance(x, dict):
            return list(x)
        if isinstance(x, SetV):
            return list(x.items)
        if isinstance(x, str):
            return list(x)
        if np is not None and isinstance(x, np.ndarray) and x.ndim:
            return [y for y in x]
        raise Skip("not a sequence")

    def num(self, x):
        x = self.resolve(x)
        if isinstance(x, V):
            self.demand(x, "num")
        if isinstance(x, (bool, int, float)):
            return x
        if isinstance(x, (np.ndarray, np.generic)):
            return x
        if isinstance(x, (list, tuple)):
            ys = [self.num(y) for y in x]
            try:
                return np.array(ys, dtype=float)
            except (ValueError, TypeError):
                raise Skip("ragged")
        raise Skip(f"not a number: {type(x).__name__}")

    def mat(self, x):
        y = self.resolve(x)
        if isinstance(y, V):
            self.demand(y, "mat")
        if isinstance(x, V) and isinstance(y, list) and not self.has(x, "mat"):
            self.demand(x, "mat")
        return np.asarray(self.num(y), dtype=float)

    def dic(self, x, names=False):
        if isinstance(x, V) and names:
            if not self.has(x, "names"):
                self.w.demands.setdefault(x.shape, set()).add("names")
                raise Restart()
        y = self.resolve(x)
        if isinstance(y, V):
            self.demand(y, "dict")
        if not isinstance(y, dict):
            raise Skip("not a dictionary")
        return y

    def index(self, i):
        j = self.resolve(i)
        if isinstance(j, V):
            self.demand(j, "index")
        if isinstance(i, V) and isinstance(j, float):
            self.demand(i, "index")
        if isinstance(j, np.generic):
            j = j.item()
        if isinstance(j, (bool, int)):
            return int(j)
        if isinstance(j, float) and j == int(j):
            return int(j)
        raise Skip("index")

    def truthy(self, x):
        y = self.resolve(x)
        if isinstance(y, V):
            return self.unit(y.key, "truth") < 0.5
        if isinstance(y, np.ndarray):
            if y.ndim and y.size != 1:
                return y.astype(bool)
            return bool(y.all()) if y.ndim else bool(y)
        if isinstance(y, (Closure, Partial, Fn, Meth, Obj)):
            return True
        if isinstance(y, SetV):
            return bool(y.items)
        return bool(y)

    def text(self, x):
        y = self.resolve(x)
        if isinstance(y, V):
            self.demand(y, "str")
        if isinstance(y, str):
            return y
        if isinstance(y, float) and y == int(y) if isinstance(y, float) and math.isfinite(y) else False:
            return str(y)
        return str(self.keyof(y))

    # ------------------------------------------------------------ identity
    def keyof(self, x, depth=0):
        x = self.resolve(x)
        if isinstance(x, V):
            return "v" + x.key
        if x is None:
            return "None"
        if isinstance(x, bool) or isinstance(x, (np.bool_ if np is not None else bool,)):
            return "n1" if x else "n0"
        if isinstance(x, (int, float, np.generic)):
            return self.numkey(float(x))
        if isinstance(x, np.ndarray):
            return self.numkey(float(x)) if x.ndim == 0 else dig("seq", *[self.keyof(y) for y in x])
        if isinstance(x, str):
            return "s" + x
        if isinstance(x, (list, tuple)):
            return dig("seq", *[self.keyof(y, depth) for y in x])
        if isinstance(x, SetV):
            return dig("set", *sorted(self.keyof(y) for y in x.items))
        if isinstance(x, dict):
            return dig("dict", *sorted(self.dkey(k) + "=" + self.keyof(v, depth) for k, v in x.items()))
        if isinstance(x, Fn):
            return "f" + x.name
        if isinstance(x, Meth):
            return dig("meth", self.keyof(x.obj), x.name)
        if isinstance(x, slice):
            return dig("slice", self.keyof(x.start), self.keyof(x.stop), self.keyof(x.step))
        if isinstance(x, (Closure, Partial)):
            if depth > 3:
                raise Unsupported("closures nested too deeply")
            n = self.arity(x)
            args = [V(dig("arg", depth, i), dig("arg", depth, i), f"arg{i}") for i in range(n)]
            try:
                body = self.call(x, args, {})
            except Raised as e:
                return dig("lam", n, "raise", e.name)
            if isinstance(body, V) and body.key == dig("eta", depth, n):
                return "eta"
            return dig("lam", n, self.keyof(body, depth + 1))
        if isinstance(x, Obj):
            return "o" + x.v.key
        raise Unsupported(f"identity of {type(x).__name__}")

    @staticmethod
    def numkey(x):
        if x != x:
            return "nnan"
        if math.isinf(x):
            return "ninf" if x > 0 else "n-inf"
        if x == 0 or abs(x) < 1e-9:
            return "n0"
        return "n%.6g" % x if x != int(x) or abs(x) > 1e6 else "n%d" % int(x)

    def dkey(self, k):
        return "s" + k if isinstance(k, str) else self.keyof(k)

    def arity(self, f):
        if isinstance(f, Closure):
            return len(f.params)
        if isinstance(f, Partial):
            return 1
        return 1

    # ------------------------------------------------------------ calls
    def call(self, f, args, kws):
        f = self.resolve(f)
        if isinstance(f, Closure):
            if len(args) < len(f.params):
                raise Unsupported("closure arity")
            env = dict(f.env)
            env.update(zip(f.params, args))
            return self.ev(f.body, env)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kws, **kws})
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kws)
        if isinstance(f, Fn):
            return self.function(f.name, args, kws)
        return self.opaque("call", self.keyof(f), f.shape if isinstance(f, V) else "fn", getattr(f, "name", "f"), args, kws)

    def opaque(self, kind, key, shape, name, args, kws):
        ks = [self.keyof(a) for a in args] + [str(k) + "=" + self.keyof(v) for k, v in sorted(kws.items(), key=lambda kv: str(kv[0]))]
        k = dig(kind, key, *ks)
        return V(k, dig(kind, shape), f"{name}(…)")

    def method(self, o, name, args, kws):
        v = self.resolve(o)
        if isinstance(v, np.ndarray) or (isinstance(v, list) and name in ("sum", "mean", "max", "min", "tolist", "astype", "ravel", "flatten", "prod", "any", "all", "copy", "dot", "item")):
            if name in ("sum", "mean", "max", "min", "prod", "any", "all", "ravel", "flatten", "tolist") and not args and not kws:
                a = np.asarray(self.num(v))
                r = getattr(a, name)()
                return r.item() if isinstance(r, np.generic) else r
            if name in ("copy", "astype"):
                return v
            if name == "dot" and len(args) == 1:
                return np.dot(self.num(v), self.num(args[0]))
            if name == "item" and not args:
                return np.asarray(self.num(v)).item()
        if isinstance(v, (list, tuple)):
            if name == "__getitem__" and len(args) == 1:
                return self.getitem(v, args[0])
            if name == "index" and len(args) == 1:
                for i, y in enumerate(v):
                    if self.equal(y, args[0]):
                        return i
                raise Raised("ValueError")
            if name == "count" and len(args) == 1:
                return sum(1 for y in v if self.equal(y, args[0]))
            if name == "copy":
                return list(v)
        if isinstance(v, dict) or isinstance(v, V) and name in ("get", "items", "keys", "values") and self.has(v, "dict"):
            d = self.dic(v)
            if name == "get":
                return self.dget(d, args[0], args[1] if len(args) > 1 else None)
            if name == "items":
                return [[k, y] for k, y in d.items()]
            if name == "keys":
                return list(d)
            if name == "values":
                return list(d.values())
            if name == "copy":
                return dict(d)
            if name == "__getitem__":
                return self.getitem(d, args[0])
            if name == "pop" or name == "setdefault":
                raise Unsupported(name)
        if isinstance(v, str) and not kws:
            if name in ("lower", "upper", "strip", "title") and not args:
                return getattr(v, name)()
            if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], str):
                return getattr(v, name)(args[0])
            if name == "join" and len(args) == 1:
                return v.join(self.text(y) for y in self.seq(args[0]))
        if isinstance(v, SetV) and name in ("difference", "union", "intersection") and len(args) == 1:
            return self.setop(name, v, args[0])
        return self.opaque("meth:" + name, self.keyof(v), o.shape if isinstance(o, V) else "obj", name, args, kws)

    def setop(self, name, a, b):
        xa, xb = self.seq(a), [self.keyof(y) for y in self.seq(b)]
        if name in ("difference",):
            return SetV([y for y in xa if self.keyof(y) not in xb])
        if name == "intersection":
            return SetV([y for y in xa if self.keyof(y) in xb])
        return self.mkset(list(xa) + list(self.seq(b)))

    def mkset(self, xs):
        out = {}
        for y in xs:
            out.setdefault(self.keyof(y), y)
        return SetV([out[k] for k in sorted(out, key=lambda k: dig(self.seed, k))])

    def function(self, name, args, kws):
        if name.startswith("numpy."):
            r = self.numpy(name[6:], args, kws)
            if r is not NotImplemented:
                return r
        elif name.startswith("math.") and len(args) == 1 and not kws and name[5:] in ("exp", "log", "sqrt", "cos", "sin", "floor", "ceil", "fabs", "isnan", "isinf", "isfinite"):
            return self.numpy({"fabs": "abs"}.get(name[5:], name[5:]), args, kws)
        elif name in ("math.fsum",):
            return float(np.sum(self.num(self.seq(args[0]))))
        else:
            r = self.builtin(name, args, kws)
            if r is not NotImplemented:
                return r
        return self.opaque("fn:" + name, "", "", name, args, kws)

    def builtin(self, name, args, kws):
        n = len(args)
        name = name.split("builtins.")[-1]
        if name == "len" and n == 1:
            return self.len(args[0])
        if name in ("list", "tuple") and n <= 1 and not kws:
            return self.seq(args[0]) if n else []
        if name == "set" or name == "frozenset":
            return self.mkset(self.seq(args[0]) if n else [])
        if name == "dict" and n <= 1:
            d = {}
            if n:
                x = self.resolve(args[0])
                d = dict(x) if isinstance(x, dict) else dict(self.dic(x)) if isinstance(x, V) else {self.hashable(p[0]): p[1] for p in map(self.seq, self.seq(x))}
            d.update(kws)
            return d
        if name == "sorted" and n == 1:
            return self.sort(args[0], kws)
        if name == "reversed" and n == 1:
            return self.seq(args[0])[::-1]
        if name == "sum" and n in (1, 2) and not kws:
            r = self.num(args[1]) if n == 2 else 0
            for y in self.seq(args[0]):
                r = r + self.num(y)
            return r
        if name in ("min", "max"):
            xs = list(args) if n > 1 else self.seq(args[0])
            if not xs:
                if "default" in kws:
                    return kws["default"]
                raise Raised("ValueError")
            key = kws.get("key")
            ys = [self.scalar(self.call(key, [x], {})) if key is not None else self.scalar(x) for x in xs]
            best = 0
            for i, y in enumerate(ys):
                if (y < ys[best]) if name == "min" else (y > ys[best]):
                    best = i
            return xs[best]
        if name == "zip" and not kws:
            return [list(p) for p in zip(*[self.seq(a) for a in args])]
        if name == "enumerate":
            s = self.index(args[1]) if n > 1 else self.index(kws.get("start", 0))
            return [[i, y] for i, y in enumerate(self.seq(args[0]), s)]
        if name == "range":
            return list(range(*[self.index(a) for a in args]))
        if name == "map" and n >= 2:
            return [self.call(args[0], list(p), {}) for p in zip(*[self.seq(a) for a in args[1:]])]
        if name == "filter" and n == 2:
            return [y for y in self.seq(args[1]) if (self.truthy(y) if args[0] is None else self.truthy(self.call(args[0], [y], {})))]
        if name in ("any", "all") and n == 1:
            ts = [bool(np.all(self.truthy(y))) for y in self.seq(args[0])]
            return any(ts) if name == "any" else all(ts)
        if name in ("float", "int", "abs", "bool") and n == 1 and not kws:
            if name == "bool":
                return bool(np.all(self.truthy(args[0])))
            x = self.num(args[0])
            if name == "abs":
                return abs(x)
            x = np.asarray(x)
            if x.size != 1:
                raise Skip("conversion")
            x = x.reshape(-1)[0].item()
            return float(x) if name == "float" else int(x)
        if name == "str" and n == 1:
            return self.text(args[0])
        if name == "next" and n >= 1:
            xs = self.seq(args[0])
            if xs:
                return xs[0]
            if n > 1:
                return args[1]
            raise Raised("StopIteration")
        if name == "functools.reduce" and n >= 2:
            xs = self.seq(args[1])
            if n > 2:
                xs = [args[2]] + xs
            if not xs:
                raise Raised("TypeError")
            r = xs[0]
            for y in xs[1:]:
                r = self.call(args[0], [r, y], {})
            return r
        if name.startswith("operator.") and n == 2:
            op = name[9:]
            if op in ("add", "sub", "mul", "truediv", "pow"):
                x, y = self.num(args[0]), self.num(args[1])
                return x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else np.power(x, float(y)) if op == "pow" else np.true_divide(x, y)
            if op == "getitem":
                return self.getitem(args[0], args[1])
        if name == "itertools.product":
            import itertools

            rep = self.index(kws.get("repeat", 1))
            return [list(p) for p in itertools.product(*[self.seq(a) for a in args], repeat=rep)]
        if name in ("itertools.chain",):
            return [y for a in args for y in self.seq(a)]
        if name in ("itertools.chain.from_iterable",):
            return [y for a in self.seq(args[0]) for y in self.seq(a)]
        if name == "itertools.repeat" and n == 2:
            return [args[0]] * self.index(args[1])
        if name == "itertools.combinations" and n == 2:
            import itertools

            return [list(p) for p in itertools.combinations(self.seq(args[0]), self.index(args[1]))]
        if name == "callable" and n == 1:
            return self.callable(args[0])
        if name in ("copy.copy", "copy.deepcopy") and n == 1:
            return args[0]
        if name == "getattr" and n >= 2:
            return self.attr(args[0], self.text(args[1]))
        if name in ("round", "type", "slice", "issubclass", "vars", "id", "hash", "divmod", "iter", "isinstance", "hasattr"):
            if name == "slice":
                a = [None if x is None else x for x in args]
                return slice(*a) if len(a) > 1 else slice(None, *a)
            if name == "iter" and n == 1:
                return self.seq(args[0])
            if name == "isinstance" and n == 2:
                return self.isinstance(args[0], args[1])
        return NotImplemented

    def sort(self, x, kws):
        xs = self.seq(x)
        key = kws.get("key")
        rev = bool(self.truthy(kws.get("reverse", False)))
        ks = [self.call(key, [y], {}) if key is not None else y for y in xs]
        vs = [self.resolve(k) for k in ks]
        if all(isinstance(v, str) for v in vs):
            pass
        elif all(isinstance(v, (list, tuple)) for v in vs):
            vs = [tuple(self.scalar(y) for y in v) for v in vs]
        else:
            vs = [self.scalar(v) for v in vs]
        return [xs[i] for i in sorted(range(len(xs)), key=lambda i: vs[i], reverse=rev)]

    def scalar(self, x):
        y = self.num(x)
        y = np.asarray(y)
        if y.size != 1:
            raise Skip("scalar expected")
        return y.reshape(-1)[0].item()

    def len(self, x):
        y = self.resolve(x)
        if isinstance(y, V):
            self.demand(y, "seq")
        if isinstance(y, (list, tuple, dict, str)):
            return len(y)
        if isinstance(y, SetV):
            return len(y.items)
        if isinstance(y, np.ndarray) and y.ndim:
            return len(y)
        raise Skip("len")

    def hashable(self, k):
        k = self.resolve(k)
        if isinstance(k, V):
            self.demand(k, "str")
        if isinstance(k, np.generic):
            k = k.item()
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(k, (str, int, float, type(None))):
            return k
        return self.keyof(k)

    NPUN = {
        "exp": "exp", "log": "log", "sqrt": "sqrt", "cos": "cos", "sin": "sin", "arctan": "arctan", "sign": "sign", "abs": "abs", "fabs": "abs", "absolute": "abs",
        "square": "square", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "negative": "negative", "floor": "floor", "ceil": "ceil", "log1p": "log1p",
        "expm1": "expm1", "cumsum": "cumsum", "ravel": "ravel", "squeeze": "squeeze", "tan": "tan", "reciprocal": "reciprocal", "logical_not": "logical_not",
    }
    NPBIN = {"add", "subtract", "multiply", "true_divide", "divide", "power", "maximum", "minimum", "outer", "dot", "matmul", "inner", "arctan2", "fmax", "fmin", "greater",
             "greater_equal", "less", "less_equal", "logical_and", "logical_or", "hypot", "vdot", "mod", "float_power", "equal", "not_equal", "kron"}
    NPRED = {"sum", "mean", "prod", "max", "min", "amax", "amin", "any", "all", "argmin", "argmax", "trace", "nansum", "count_nonzero", "median", "std", "var", "nanmin", "nanmax", "average",
             "nanargmin", "nanargmax", "size", "ndim"}

    def numpy(self, name, args, kws):
        n = len(args)
        kws = {k: v for k, v in kws.items() if not (k == "dtype" and (not isinstance(v, Fn) or v.name in ("float", "numpy.float64")))}
        if name == "nan_to_num":
            return NotImplemented
        if name in self.NPUN and n == 1 and not kws:
            x = args[0]
            if name in ("isnan", "isinf", "isfinite") and isinstance(x, V):
                d = self.w.demands.setdefault(x.shape, set())
                want = {"nan"} if name == "isnan" else {"inf"} if name == "isinf" else {"nan", "inf"}
                if not want <= d:
                    d |= want
                    raise Restart()
            return self.plain(getattr(np, self.NPUN[name])(self.num(x)))
        if name in self.NPBIN and n == 2 and not kws:
            x, y = self.num(args[0]), self.num(args[1])
            if name in ("power", "float_power"):
                return self.plain(np.power(np.asarray(x, dtype=float), np.asarray(y, dtype=float)))
            return self.plain(getattr(np, name)(x, y))
        if name in self.NPRED and 1 <= n <= 2:
            x = np.asarray(self.num(args[0] if isinstance(self.resolve(args[0]), (list, tuple, np.ndarray, V, int, float, np.generic)) else self.seq(args[0])))
            ax = args[1] if n == 2 else kws.get("axis")
            if set(kws) - {"axis"} or name == "average" and n == 2:
                if name == "average" and set(kws) == {"weights"}:
                    return self.plain(np.average(x, weights=self.num(kws["weights"])))
                return NotImplemented
            if x.size == 0 and name in ("max", "min", "amax", "amin", "argmin", "argmax"):
                raise Raised("ValueError")
            return self.plain(getattr(np, name)(x) if ax is None else getattr(np, name)(x, axis=self.index(ax)))
        if name in ("zeros", "ones", "empty") and n >= 1:
            shp = self.shapearg(args[0])
            return np.ones(shp) if name == "ones" else np.zeros(shp)
        if name in ("zeros_like", "ones_like", "empty_like") and n == 1:
            x = np.asarray(self.num(args[0]))
            return np.ones(x.shape) if name == "ones_like" else np.zeros(x.shape)
        if name == "full" and n == 2:
            return np.full(self.shapearg(args[0]), self.num(args[1]), dtype=float)
        if name in ("eye", "identity") and n == 1:
            return np.eye(self.index(args[0]))
        if name in ("array", "asarray", "atleast_1d", "copy", "float64", "ascontiguousarray", "fromiter", "stack", "asfarray") and n >= 1:
            x = self.resolve(args[0])
            if isinstance(x, (list, tuple, V, SetV)) or isinstance(x, dict):
                x = self.seq(x) if not isinstance(x, V) else x
            if name == "atleast_1d":
                return np.atleast_1d(self.num(x))
            if name == "float64":
                return self.num(x)
            y = self.num(x)
            return y if isinstance(y, np.ndarray) else np.asarray(y, dtype=float)
        if name in ("hstack", "concatenate", "r_", "append") and n >= 1:
            xs = self.seq(args[0]) if name in ("hstack", "concatenate") else args
            return np.concatenate([np.atleast_1d(self.num(x)) for x in xs]) if xs else np.zeros(0)
        if name == "diag" and n == 1:
            x = self.resolve(args[0])
            if isinstance(args[0], V) and not self.has(args[0], "seq") and not self.has(args[0], "mat"):
                self.demand(args[0], "mat")
            return np.diag(np.asarray(self.num(x), dtype=float))
        if name == "where" and n == 3:
            c = self.truthy(args[0])
            if isinstance(c, np.ndarray):
                return np.where(c, self.num(args[1]), self.num(args[2]))
            return args[1] if c else args[2]
        if name == "clip" and n == 3:
            lo, hi = (None if self.resolve(x) is None else self.num(x) for x in args[1:])
            return self.plain(np.clip(self.num(args[0]), lo, hi))
        if name == "isclose" and n == 2 and not kws:
            return self.plain(np.isclose(self.num(args[0]), self.num(args[1])))
        if name == "arange" and 1 <= n <= 3:
            return np.arange(*[self.index(a) for a in args])
        if name == "linspace" and n == 3:
            return np.linspace(self.num(args[0]), self.num(args[1]), self.index(args[2]))
        if name in ("linalg.inv", "linalg.det") and n == 1:
            m = self.mat(args[0])
            if m.ndim != 2 or m.shape[0] != m.shape[1] or abs(np.linalg.det(m)) < 1e-9:
                raise Skip("matrix")
            return self.plain(getattr(np.linalg, name[7:])(m))
        if name == "linalg.slogdet" and n == 1:
            m = self.mat(args[0])
            if m.ndim != 2 or m.shape[0] != m.shape[1]:
                raise Skip("matrix")
            s, l = np.linalg.slogdet(m)
            return [float(s), float(l)]
        if name == "linalg.norm" and n == 1 and not kws:
            return float(np.linalg.norm(self.num(args[0])))
        if name == "einsum" and isinstance(args[0], str):
            return self.plain(np.einsum(args[0], *[self.num(a) for a in args[1:]]))
        if name == "ix_":
            return tuple(np.ix_(*[[self.index(i) for i in self.seq(a)] for a in args]))
        if name == "sort" and n == 1:
            return np.sort(self.num(args[0]))
        if name == "argsort" and n == 1:
            return np.argsort(self.num(args[0]), kind="stable")
        if name in ("tile", "repeat") and n == 2:
            return getattr(np, name)(self.num(args[0]), self.index(args[1]))
        if name in ("quantile", "percentile") and n == 2 and not kws:
            x = np.asarray(self.num(args[0]))
            if not x.size:
                raise Skip("empty")
            return self.plain(getattr(np, name)(x, np.clip(self.num(args[1]), 0, 1 if name == "quantile" else 100)))
        if name == "transpose" and n == 1:
            return np.transpose(self.mat(args[0]))
        if name in ("array_equal", "allclose") and n == 2:
            x, y = np.asarray(self.num(args[0])), np.asarray(self.num(args[1]))
            return bool(x.shape == y.shape and np.allclose(x, y, equal_nan=True))
        return NotImplemented

    def shapearg(self, x):
        x = self.resolve(x)
        if isinstance(x, (list, tuple)):
            return tuple(self.index(y) for y in x)
        return self.index(x)

    @staticmethod
    def plain(r):
        if isinstance(r, np.ndarray) and r.ndim == 0:
            r = r[()]
        return r.item() if isinstance(r, np.generic) else r

    # ------------------------------------------------------------ predicates
    def equal(self, a, b):
        x, y = self.resolve(a), self.resolve(b)
        if isinstance(x, V) and isinstance(y, V):
            if x.key == y.key:
                return True
            if not self.w.demands.get(x.shape) and not self.w.demands.get(y.shape):
                for v in (x, y):
                    self.w.demands.setdefault(v.shape, set()).add("str")
                raise Restart()
            return False
        for p, q in ((x, y), (y, x)):
            if isinstance(p, V) and isinstance(q, str):
                self.w.pools.setdefault(p.shape, set()).add(q)
                self.demand(p, "str")
            if isinstance(p, V) and isinstance(q, (int, float)) and not isinstance(q, bool):
                self.demand(p, "num")
        for p, q, r in ((x, y, a), (y, x, b)):
            if isinstance(p, str) and isinstance(r, V) and isinstance(q, str) and q not in NAMES and q not in self.w.pools.setdefault(r.shape, set()):
                self.w.pools[r.shape].add(q)
                raise Restart()
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return np.equal(self.num(x), self.num(y))
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return x == y
        return self.keyof(x) == self.keyof(y)

    def typename(self, t):
        if isinstance(t, Fn):
            return t.name
        if isinstance(t, V):
            return t.name
        return None

    def isinstance(self, x, t):
        ts = self.resolve(t)
        ts = list(ts) if isinstance(ts, (list, tuple)) else [ts]
        names = [self.typename(y) for y in ts]
        if any(y is None for y in names):
            raise Unsupported("isinstance")
        short = {y.split(".")[-1] for y in names}
        y = self.resolve(x)
        if isinstance(x, V):
            d = self.w.demands.setdefault(x.shape, set())
            new = {"type:" + n for n in names} - d
            if new:
                d |= new
                raise Restart()
            if y is None:
                return "NoneType" in short
            g = self.tag(x)
            if g in names:
                return True
            if g == "bool" and "int" in short:
                return True
            if g == "*" and not isinstance(y, V):
                return bool(self.fits(y, short, names))
            return False
        return bool(self.fits(y, short, names))

    def fits(self, y, short, names):
        if isinstance(y, bool):
            return bool(short & {"bool", "int"})
        if isinstance(y, int):
            return bool(short & {"int", "Number", "Integral", "Real"})
        if isinstance(y, float):
            return bool(short & {"float", "float64", "Number", "Real", "floating"})
        if isinstance(y, str):
            return "str" in short
        if isinstance(y, np.ndarray):
            return "ndarray" in short
        if isinstance(y, (list, tuple)):
            return bool(short & {"list", "tuple", "Sequence", "Iterable"})
        if isinstance(y, dict):
            return bool(short & {"dict", "Mapping"})
        if y is None:
            return "NoneType" in short
        if isinstance(y, (Closure, Partial, Fn)):
            return bool(short & {"Callable", "FunctionType"})
        return False

    def callable(self, x):
        y = self.resolve(x)
        if isinstance(y, (Closure, Partial, Fn, Meth)):
            return True
        if isinstance(y, V):
            return self.unit(y.key, "callable") < 0.5
        return False

    # ------------------------------------------------------------ structure
    def attr(self, o, name):
        v = self.resolve(o)
        if isinstance(v, V):
            if name in ("shape", "size", "ndim", "T") and v is o and name != "T":
                self.demand(v, "seq") if not (self.has(v, "seq") or self.has(v, "mat")) else None
            if isinstance(v, V):
                return V(dig(v.key, "attr", name), dig(v.shape, "attr", name), f"{v.name}.{name}")
        if name == "shape":
            if isinstance(v, list) and isinstance(o, V):
                return [len(v)]
            return list(np.asarray(self.num(v)).shape)
        if name == "size":
            return int(np.asarray(self.num(v)).size)
        if name == "ndim":
            return int(np.asarray(self.num(v)).ndim)
        if name == "T":
            return np.asarray(self.num(v)).T
        if isinstance(v, (Fn, Obj)):
            k = self.keyof(v)
            return V(dig(k, "attr", name), dig(k, "attr", name), f"{getattr(v, 'name', '?')}.{name}")
        if isinstance(o, V):
            return V(dig(o.key, "attr", name), dig(o.shape, "attr", name), f"{o.name}.{name}")
        if isinstance(v, (list, tuple, dict, str, np.ndarray, SetV)):
            return Meth(v, name)
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def getitem(self, o, i):
        v = self.resolve(o)
        k = self.resolve(i)
        if isinstance(v, V):
            if isinstance(k, tuple) or isinstance(k, list) and len(k) == 2 and all(isinstance(self.resolve(y), (int, float)) for y in k):
                self.demand(v, "mat")
            if isinstance(k, (slice, np.ndarray, list)):
                self.demand(v, "seq")
            if isinstance(k, int) and k < 0 or isinstance(k, V) and (self.has(k, "index")):
                self.demand(v, "seq")
            if isinstance(k, (str, int, float)):
                return self.item(v, k)
            return V(dig(v.key, "item", self.keyof(k)), dig(v.shape, "item", "*"), f"{v.name}[…]")
        if isinstance(v, dict):
            kk = self.hashable(i)
            if kk in v:
                return v[kk]
            raise Raised("KeyError")
        if isinstance(v, np.ndarray) or isinstance(k, (tuple, slice, np.ndarray)) or isinstance(k, list):
            if isinstance(k, tuple) or isinstance(k, list) and isinstance(v, np.ndarray) and v.ndim == 2 and len(k) == 2 and not isinstance(i, V):
                idx = tuple(self.idx(y) for y in k)
                if isinstance(o, V) and not isinstance(v, np.ndarray):
                    self.demand(o, "mat")
                a = v if isinstance(v, np.ndarray) else np.asarray(self.num(v))
                try:
                    return self.plain(a[idx])
                except IndexError:
                    if isinstance(o, V):
                        self.demand(o, "mat")
                    raise Skip("index")
            j = self.idx(k)
            if isinstance(v, (list, tuple)) and isinstance(j, slice):
                return list(v)[j]
            a = v if isinstance(v, np.ndarray) else None
            if a is None:
                a = np.asarray(self.num(v))
            try:
                return self.plain(a[j])
            except IndexError:
                raise Skip("index")
        if isinstance(v, (list, tuple, str)):
            j = self.index(i)
            if -len(v) <= j < len(v):
                return v[j]
            raise Skip("index")
        if isinstance(v, Fn) or isinstance(v, Obj):
            return V(dig(self.keyof(v), "item", self.keyof(k)), dig(self.keyof(v), "item"), "item")
        raise Skip(f"subscript of {type(v).__name__}")

    def idx(self, k):
        k = self.resolve(k)
        if isinstance(k, slice):
            g = lambda y: None if self.resolve(y) is None else self.index(y)
            return slice(g(k.start), g(k.stop), g(k.step))
        if isinstance(k, np.ndarray):
            return k if k.dtype == bool else k.astype(int)
        if isinstance(k, list):
            ys = [self.resolve(y) for y in k]
            if all(isinstance(y, (bool, np.bool_)) for y in ys) and ys:
                return np.array(ys)
            return [self.index(y) for y in k]
        if k is Ellipsis or k is None:
            return k
        return self.index(k)

    def dget(self, d, k, default):
        v = self.resolve(d)
        if isinstance(v, V):
            v = self.dic(v, names=not isinstance(k, str) or k in NAMES)
        if isinstance(d, V) and not self.has(d, "names") and isinstance(k, V):
            v = self.dic(d, names=True)
        if not isinstance(v, dict):
            raise Skip("not a dictionary")
        return v.get(self.hashable(k), default)

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Skip("too long")
        closed = not T_free(t)
        if closed:
            r = self.memo.get(t, self)
            if r is not self:
                if isinstance(r, Exception):
                    raise r
                return r
        self.depth += 1
        if self.depth > 400:
            self.depth = 0
            raise Skip("too deep")
        try:
            f = getattr(self, "o_" + t.op, None)
            if f is None:
                raise Unsupported(f"operation {t.op}")
            r = f(t, env)
        except Raised as e:
            if closed and self.trace is None:
                self.memo[t] = e
            raise
        finally:
            self.depth -= 1
        if closed and self.trace is None:
            self.memo[t] = r
        return r

    def o_n(self, t, env):
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)

    def o_c(self, t, env):
        if t.args[0] in ("str", "bool", "NoneType"):
            return t.args[1]
        if t.args[0] == "ellipsis":
            return Ellipsis
        return V(dig("const", t.args), dig("const", t.args), str(t.args[1]))

    def o_sym(self, t, env):
        return V(dig("sym", t.args[0]), dig("sym", t.args[0]), t.args[0])

    def o_glob(self, t, env):
        return V(dig("glob", t.args[0]), dig("glob", t.args[0]), t.args[0])

    def o_ext(self, t, env):
        k = {"inf": math.inf, "nan": math.nan, "numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "numpy.inf": math.inf, "numpy.nan": math.nan, "numpy.newaxis": None}
        if t.args[0] in k:
            return k[t.args[0]]
        return V(dig("ext", t.args[0]), dig("ext", t.args[0]), str(t.args[0]))

    def o_fn(self, t, env):
        return Fn(t.args[0])

    def o_m(self, t, env):
        return Fn("method " + t.args[0])

    def o_recfn(self, t, env):
        return Fn("rec " + str(t.args[0]))

    def o_bv(self, t, env):
        if t not in env:
            raise Unsupported("unbound variable")
        return env[t]

    def o_lam(self, t, env):
        return Closure(t.args[0], t.args[1], env)

    def o_attr(self, t, env):
        return self.attr(self.ev(t.args[0], env), t.args[1])

    def o_boundm(self, t, env):
        o = self.ev(t.args[0], env)
        return Meth(o, t.args[1])

    def o_partial(self, t, env):
        return Partial(self.ev(t.args[0], env), [self.ev(x, env) for x in t.args[1]], {k: self.ev(v, env) for k, v in t.args[2]})

    def o_delayed(self, t, env):
        return self.ev(t.args[0], env)

    def o_getattr(self, t, env):
        o = self.ev(t.args[0], env)
        n = self.ev(t.args[1], env)
        if not isinstance(n, str):
            raise Unsupported("getattr")
        if len(t.args) > 2:
            v = self.resolve(o)
            k = v.key if isinstance(v, V) else self.keyof(v)
            if self.unit(k, "hasattr:" + n) < 0.3:
                return self.ev(t.args[2], env)
        return self.attr(o, n)

    def o_hasattr(self, t, env):
        v = self.resolve(self.ev(t.args[0], env))
        n = t.args[1] if isinstance(t.args[1], str) else self.ev(t.args[1], env)
        return self.unit(v.key if isinstance(v, V) else self.keyof(v), "hasattr:" + str(n)) >= 0.3

    def o_callable(self, t, env):
        return self.callable(self.ev(t.args[0], env))

    def o_isinstance(self, t, env):
        a = t.args[1]
        x = self.ev(t.args[0], env)
        if isinstance(a, tuple):
            return self.isinstance(x, [Fn(y) if isinstance(y, str) else self.ev(y, env) for y in a])
        if isinstance(a, str):
            return self.isinstance(x, Fn(a))
        return self.isinstance(x, self.ev(a, env))

    def o_raises(self, t, env):
        ks = []
        for c in t.args[1]:
            try:
                ks.append(self.keyof(self.ev(c, env)))
            except Raised as e:
                ks.append("raise " + e.name)
        return self.unit(dig("raises", t.args[0] if not isinstance(t.args[0], T.Term) else t.args[0].id, *ks), "raises") < 0.25

    def o_raise(self, t, env):
        raise Raised(str(t.args[0]))

    def o_bot(self, t, env):
        raise Skip("unreachable")

    o_undef = o_missing = o_bot

    def o_divzero(self, t, env):
        raise Skip("division by zero")

    def o_ite(self, t, env):
        c = self.truthy(self.ev(t.args[0], env))
        if isinstance(c, np.ndarray):
            if t.args[1] is T.TRUE and t.args[2] is T.FALSE:
                return c
            x, y = self.ev(t.args[1], env), self.ev(t.args[2], env)
            return np.where(c, self.num(x), self.num(y))
        self.cov.add((t, bool(c)))
        return self.ev(t.args[1] if c else t.args[2], env)

    def o_truth(self, t, env):
        return self.truthy(self.ev(t.args[0], env))

    def o_lt0(self, t, env):
        x = self.num(self.ev(t.args[0], env))
        return self.plain(np.less(x, 0))

    def o_eq0(self, t, env):
        # a polynomial that is zero: compared with a margin for rounding
        x = self.num(self.ev(t.args[0], env))
        return self.plain(np.abs(x) <= 1e-12)

    def o_eq(self, t, env):
        return self.equal(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_is(self, t, env):
        a, b = (self.ev(x, env) for x in t.args)
        for p, q in ((a, b), (b, a)):
            if q is None:
                if isinstance(p, V) and not self.has(p, "none"):
                    self.w.demands.setdefault(p.shape, set()).add("none")
                    raise Restart()
                return self.resolve(p) is None
            if isinstance(q, bool):
                y = self.resolve(p)
                if isinstance(p, V) and isinstance(y, V):
                    self.demand(p, "bool")
                return isinstance(y, (bool, np.bool_)) and bool(y) == q
        return self.equal(a, b)

    def o_in(self, t, env):
        k = self.ev(t.args[0], env)
        c = self.ev(t.args[1], env)
        v = self.resolve(c)
        if isinstance(v, V):
            kk = self.resolve(k)
            if isinstance(kk, str) and t.args[0].op == "c":
                v = self.dic(v)
            else:
                self.demand(v, "seq")
        if isinstance(v, dict):
            return self.hashable(k) in v
        if isinstance(v, str):
            return self.text(k) in v
        r = False
        for y in self.seq(v):
            e = self.equal(y, k)
            r = r or bool(np.all(e))
        return r

    def o_poly(self, t, env):
        r = 0
        for m, c in t.args[0]:
            p = int(c) if c.denominator == 1 else float(c)
            for x, e in m:
                v = self.num(self.ev(x, env))
                if e != 1:
                    if e == int(e):
                        e = int(e)
                    if e < 0 or not isinstance(e, int):
                        v = np.power(np.asarray(v, dtype=float), float(e))
                    else:
                        v = v**e
                p = p * v
            r = r + p
        return self.plain(r) if isinstance(r, (np.ndarray, np.generic)) else r

    def o_pow(self, t, env):
        a, b = self.num(self.ev(t.args[0], env)), self.num(self.ev(t.args[1], env))
        return self.plain(np.power(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))

    def o_abs(self, t, env):
        return self.plain(np.abs(self.num(self.ev(t.args[0], env))))

    def o_int(self, t, env):
        return int(self.scalar(self.ev(t.args[0], env)))

    def o_floordiv(self, t, env):
        a, b = (self.num(self.ev(x, env)) for x in t.args)
        return self.plain(np.floor_divide(a, b))

    def o_matmul(self, t, env):
        a, b = (self.ev(x, env) for x in t.args)
        x, y = np.asarray(self.num(a)), np.asarray(self.num(b))
        for v, w in ((a, x), (b, y)):
            if isinstance(v, V) and w.ndim == 0:
                self.demand(v, "mat")
        if x.ndim == 0 or y.ndim == 0:
            raise Skip("matmul")
        return self.plain(x @ y)

    def o_T(self, t, env):
        return np.transpose(self.mat(self.ev(t.args[0], env)))

    def extreme(self, t, env, f):
        xs = [self.num(self.ev(x, env)) for x in t.args]
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return self.plain(r)

    def o_max(self, t, env):
        return self.extreme(t, env, np.maximum)

    def o_min(self, t, env):
        return self.extreme(t, env, np.minimum)

    def over(self, t, env, f):
        xs = [self.scalar(self.app(t.args[1], [j], env)) for j in self.dom(t.args[0], env)]
        if not xs:
            return -math.inf if f is max else math.inf
        return f(xs)

    def o_maxover(self, t, env):
        return self.over(t, env, max)

    def o_minover(self, t, env):
        return self.over(t, env, min)

    def segs(self, args, env):
        out = []
        for x in args:
            if x.op == "star":
                out.extend(self.seq(self.ev(x.args[0], env)))
            else:
                out.append(self.ev(x, env))
        return out

    def o_list(self, t, env):
        return self.segs(t.args, env)

    def o_tuple(self, t, env):
        return tuple(self.segs(t.args, env))

    def o_seqcat(self, t, env):
        out = []
        for x in t.args:
            out.extend(self.seq(self.ev(x, env)))
        return out

    def o_set(self, t, env):
        return self.mkset(self.segs(t.args, env))

    def o_setminus(self, t, env):
        return self.setop("difference", self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_arr(self, t, env):
        x = self.ev(t.args[0], env)
        y = self.seq(x) if not isinstance(x, np.ndarray) else x
        return self.num(y)

    def o_repeat(self, t, env):
        return list(self.seq(self.ev(t.args[0], env))) * self.index(self.ev(t.args[1], env))

    def o_slice(self, t, env):
        g = lambda y: None if y is None else self.index(y)
        s = slice(*[g(self.ev(x, env)) for x in t.args[1:]])
        v = self.ev(t.args[0], env)
        y = self.resolve(v)
        if isinstance(y, V):
            self.demand(y, "seq")
        if isinstance(y, (list, tuple, str, np.ndarray)):
            return y[s]
        raise Skip("slice")

    def o_slc(self, t, env):
        return slice(*[self.ev(x, env) for x in t.args])

    def o_sub(self, t, env):
        i = self.ev(t.args[1], env)
        o = self.ev(t.args[0], env)
        return self.getitem(o, tuple(i) if t.args[1].op == "tuple" else i)

    def o_setitem(self, t, env):
        o, i, v = (self.ev(x, env) for x in t.args)
        y = self.resolve(o)
        if isinstance(y, V):
            if isinstance(i, str):
                y = self.dic(y)
            else:
                self.demand(y, "seq")
        if isinstance(y, dict):
            y = dict(y)
            y[self.hashable(i)] = v
            return y
        if isinstance(y, np.ndarray):
            y = np.array(y, dtype=float)
            k = tuple(self.idx(z) for z in i) if isinstance(i, tuple) else self.idx(i)
            try:
                y[k] = self.num(v)
            except (IndexError, ValueError):
                raise Skip("index")
            return y
        if isinstance(y, (list, tuple)):
            y = list(y)
            k = self.idx(i)
            if isinstance(k, slice):
                y[k] = self.seq(v)
                return y
            if not isinstance(k, int) or not -len(y) <= k < len(y):
                raise Skip("index")
            y[k] = v
            return y
        raise Skip("store")

    def o_delitem(self, t, env):
        o, i = (self.ev(x, env) for x in t.args)
        y = self.resolve(o)
        if isinstance(y, V):
            if isinstance(i, str):
                y = self.dic(y)
            else:
                self.demand(y, "seq")
        if isinstance(y, dict):
            y = dict(y)
            if self.hashable(i) not in y:
                raise Raised("KeyError")
            del y[self.hashable(i)]
            return y
        y = list(self.seq(y))
        k = self.idx(i)
        if isinstance(k, int) and not -len(y) <= k < len(y):
            raise Skip("index")
        del y[k]
        return y

    def o_insert(self, t, env):
        o, i, v = (self.ev(x, env) for x in t.args)
        y = list(self.seq(o))
        y.insert(self.index(i), v)
        return y

    def o_len(self, t, env):
        return self.len(self.ev(t.args[0], env))

    def o_dict(self, t, env):
        out = {}
        for e in t.args:
            if e.op == "kv":
                k = self.hashable(self.ev(e.args[0], env))
                out.pop(k, None)
                out[k] = self.ev(e.args[1], env)
            else:
                for k, v in self.dic(self.ev(e.args[0], env)).items():
                    out.pop(k, None)
                    out[k] = v
        return out

    def o_dminus(self, t, env):
        d = dict(self.dic(self.ev(t.args[0], env)))
        for k in t.args[1]:
            d.pop(self.hashable(self.ev(k, env)), None)
        return d

    def o_dget(self, t, env):
        d, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        m = object()
        r = self.dget(d, k, m)
        return self.ev(t.args[2], env) if r is m else r

    def o_key(self, t, env):
        d = self.ev(t.args[0], env)
        ks = list(self.dic(d))
        j = self.index(self.ev(t.args[1], env))
        if not 0 <= j < len(ks):
            raise Skip("key")
        return ks[j]

    def o_items(self, t, env):
        return [[k, v] for k, v in self.dic(self.ev(t.args[0], env)).items()]

    def o_keys(self, t, env):
        return list(self.dic(self.ev(t.args[0], env)))

    def o_values(self, t, env):
        return list(self.dic(self.ev(t.args[0], env)).values())

    def o_zip(self, t, env):
        return [list(p) for p in zip(*[self.seq(self.ev(x, env)) for x in t.args])]

    def o_enumerate(self, t, env):
        s = self.index(self.ev(t.args[1], env)) if len(t.args) > 1 else 0
        return [[i, y] for i, y in enumerate(self.seq(self.ev(t.args[0], env)), s)]

    def o_reversed(self, t, env):
        return self.seq(self.ev(t.args[0], env))[::-1]

    def o_range(self, t, env):
        a = [self.ev(x, env) for x in t.args]
        for x in a:
            if isinstance(x, V) and not self.has(x, "count"):
                self.demand(x, "count")
        return list(range(*[self.index(x) for x in a]))

    def o_fstr(self, t, env):
        return "".join(self.text(self.ev(x, env)) for x in t.args)

    def o_fmt(self, t, env):
        return dig("fmt", self.keyof(self.ev(t.args[0], env)), *[str(x) for x in t.args[1:]])

    def o_exc(self, t, env):
        return V(dig("exc", t.args), dig("exc", t.args), "error")

    def o_enter(self, t, env):
        v = self.ev(t.args[0], env)
        return self.opaque("enter", self.keyof(v), "", "enter", [], {})

    def o_invert(self, t, env):
        return self.plain(np.logical_not(self.truthy(self.ev(t.args[0], env))))

    def o_bitand(self, t, env):
        a, b = (self.truthy(self.ev(x, env)) for x in t.args)
        return self.plain(np.logical_and(a, b))

    def o_bitor(self, t, env):
        a, b = (self.truthy(self.ev(x, env)) for x in t.args)
        return self.plain(np.logical_or(a, b))

    def o_total(self, t, env):
        x = self.ev(t.args[0], env)
        y = self.resolve(x)
        if isinstance(y, V):
            self.demand(y, "seq")
        if isinstance(x, V) and isinstance(y, float):
            self.demand(x, "seq")
        if isinstance(y, (list, tuple)):
            r = 0
            for z in y:
                r = r + self.num(z)
            return self.plain(np.sum(r)) if isinstance(r, np.ndarray) else r
        if isinstance(y, (dict, SetV)):
            y = self.seq(y)
        return self.plain(np.sum(self.num(y)))

    # loops
    def dom(self, d, env):
        if d.op == "Dzip":
            return range(min(len(self.dom(x, env)) for x in d.args))
        if d.op != "D":
            raise Unsupported(f"loop over {d.op}")
        x = d.args[0]
        v = self.ev(x, env)
        if x.op == "range":
            return range(len(v)) if len(x.args) == 1 else v
        y = self.resolve(v)
        if isinstance(y, V):
            self.demand(y, "seq")
        return range(self.len(y))

    def app(self, lam, args, env):
        if lam.op == "lam":
            e = dict(env)
            e.update(zip(lam.args[0], args))
            return self.ev(lam.args[1], e)
        f = self.ev(lam, env)
        return self.call(f, list(args), {})

    def o_D(self, t, env):
        return list(self.dom(t, env))

    o_Dzip = o_D

    def o_nonempty(self, t, env):
        return len(self.dom(t.args[0], env)) > 0

    def o_fmap(self, t, env):
        out = []
        for j in self.dom(t.args[0], env):
            out.extend(self.seq(self.app(t.args[1], [j], env)))
        return out

    def o_dmap(self, t, env):
        out = {}
        for j in self.dom(t.args[0], env):
            out.update(self.dic(self.app(t.args[1], [j], env)))
        return out

    def o_any(self, t, env):
        r = False
        for j in self.dom(t.args[0], env):
            r = bool(np.any(self.truthy(self.app(t.args[1], [j], env))))
            if r:
                return True
        return r

    def o_sum(self, t, env):
        r = 0
        for j in self.dom(t.args[0], env):
            r = r + self.num(self.app(t.args[1], [j], env))
        return r

    def o_fold(self, t, env):
        a = self.ev(t.args[1], env)
        for j in self.dom(t.args[0], env):
            a = self.app(t.args[2], [j, a], env)
        return a

    def o_bfold(self, t, env):
        acc = [self.ev(x, env) for x in t.args[1]]
        for j in self.dom(t.args[0], env):
            r = self.app(t.args[2], [j] + acc, env)
            if not isinstance(r, (tuple, list)) or len(r) != len(acc) + 1:
                raise Unsupported("loop with exits")
            acc = list(r[1:])
            if bool(np.all(self.truthy(r[0]))):
                break
        return acc[0]

    def o_first(self, t, env):
        for j in self.dom(t.args[0], env):
            if bool(np.all(self.truthy(self.app(t.args[1], [j], env)))):
                return self.app(t.args[2], [j], env)
        raise Skip("nothing found")

    def o_last(self, t, env):
        js = list(self.dom(t.args[0], env))
        if not js:
            raise Skip("no last element")
        return self.app(t.args[1], [js[-1]], env)

    def o_while1(self, t, env):
        x = self.ev(t.args[0], env)
        early = t.args[3:]
        for _ in range(80):
            if not bool(np.all(self.truthy(self.app(t.args[1], [x], env)))):
                return x
            for k in range(0, len(early), 2):
                if bool(np.all(self.truthy(self.app(early[k], [x], env)))):
                    return self.app(early[k + 1], [x], env)
            x = self.app(t.args[2], [x], env)
        raise Skip("loop does not end")

    def o_call(self, t, env):
        f = t.args[0]
        args, kws = [], {}
        for x in t.args[1]:
            if x.op == "star":
                args.extend(self.seq(self.ev(x.args[0], env)))
            else:
                args.append(self.ev(x, env))
        for k, x in t.args[2]:
            v = self.ev(x, env)
            if k == "**":
                for kk, y in self.dic(v).items():
                    kws[kk] = y
            else:
                kws[k] = v
        if f.op == "fn":
            return self.function(f.args[0], args, kws)
        if f.op == "m":
            return self.opaque("m:" + str(f.args[0]), "", "", str(f.args[0]), args, kws)
        if f.op == "attr":
            return self.method(self.ev(f.args[0], env), f.args[1], args, kws)
        return self.call(self.ev(f, env), args, kws)

    # ------------------------------------------------------------ comparison
    def differ(self, a, b, depth=0):
        """None when equal, otherwise a short text."""
        x, y = self.resolve(a), self.resolve(b)
        isn = lambda z: isinstance(z, (bool, int, float, np.generic)) or isinstance(z, np.ndarray) and z.ndim == 0
        isseq = lambda z: isinstance(z, (list, tuple)) or isinstance(z, np.ndarray) and z.ndim > 0
        for p, q in ((a, b), (b, a)):
            pv = self.resolve(p)
            if isinstance(pv, V):
                qv = self.resolve(q)
                if isn(qv) and not isinstance(qv, bool):
                    self.demand(pv, "num")
                elif isseq(qv):
                    self.demand(pv, "seq")
                elif isinstance(qv, dict):
                    self.demand(pv, "dict")
                elif isinstance(qv, bool):
                    self.demand(pv, "bool")
        if isn(x) and isn(y):
            x, y = float(x), float(y)
            if x != x or y != y:
                return None if x != x and y != y else f"{x} against {y}"
            if x == y or abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-9:
                return None
            return f"{x:.6g} against {y:.6g}"
        if isseq(x) and isseq(y):
            xs, ys = list(x), list(y)
            if len(xs) != len(ys):
                return f"{len(xs)} elements against {len(ys)}"
            for i, (p, q) in enumerate(zip(xs, ys)):
                d = self.differ(p, q, depth + 1)
                if d:
                    return f"element {i}: {d}"
            return None
        if isinstance(x, dict) and isinstance(y, dict):
            if set(map(str, x)) != set(map(str, y)):
                return f"keys {sorted(map(str, set(x) ^ set(y)))[:4]}"
            for k in x:
                d = self.differ(x[k], y[k] if k in y else None, depth + 1)
                if d:
                    return f"under {k}: {d}"
            return None
        fn = (Closure, Partial, Fn, Meth)
        if isinstance(x, fn) and isinstance(y, fn):
            if isinstance(x, Fn) and isinstance(y, Fn):
                return None if x.name == y.name else f"{x.name} against {y.name}"
            if depth > 4:
                raise Unsupported("closures")
            n = max(self.arity(x) if isinstance(x, Closure) else 0, self.arity(y) if isinstance(y, Closure) else 0) or 1
            for k in range(2):
                args = [V(dig("arg", depth, i, k), dig("arg", depth, i), f"arg{i}") for i in range(n)]
                d = self.differ(*[self.out(z, args) for z in (x, y)], depth + 1)
                if d:
                    return "called: " + d
            return None
        if isinstance(x, tuple) and x[:1] == ("raised",) or isinstance(y, tuple) and y[:1] == ("raised",):
            return None
        kx, ky = self.keyof(x), self.keyof(y)
        return None if kx == ky else f"{self.tell(x)} against {self.tell(y)}"

    def out(self, f, args):
        try:
            return self.call(f, args, {})
        except Raised as e:
            raise Skip(e.name)

    def tell(self, x):
        if isinstance(x, V):
            return x.name[:40]
        if isinstance(x, (Closure, Partial)):
            return "a function"
        return str(x)[:40]


_free = {}


def T_free(t):
    r = _free.get(t)
    if r is None:
        r = _free[t] = bool(fv(t))
    return r


_fvs = {}


def fv(t):
    """Bound variables that are free in t."""
    r = _fvs.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t,))
        else:
            r = frozenset().union(*[fv(s) for s in T.subterms(t)]) if T.subterms(t) else frozenset()
            if t.op == "lam":
                r = r - frozenset(t.args[0])
        _fvs[t] = r
    return r


class Verdict:
    def __init__(self, status, note="", n=0, world=None):
        self.world = world
        self.status, self.note, self.n = status, note, n


def outcome(d, t):
    try:
        return ("value", d.ev(t, {}))
    except Raised as e:
        return ("raised", e.name)


def describe(d, limit=6):
    return ""


def attempt(w, a, b, path, seed, ignore_raise, limit):
    """One drawn assignment: 'same' | 'diff' + text | 'skip'."""
    dr = Draw(w, seed, limit)
    tries = 0
    while True:
        dr.memo.clear()
        dr.cov.clear()
        dr.steps = dr.depth = 0
        try:
            # steer towards the path on which the values came apart
            good = 0
            for atom, val in path:
                dr.trace = set()
                try:
                    v = dr.truthy(dr.ev(atom, {}))
                    v = bool(np.all(v)) if isinstance(v, np.ndarray) else bool(v)
                except Raised:
                    v = None
                finally:
                    tr, dr.trace = dr.trace, None
                if v is None or v != val:
                    tries += 1
                    if tries > 60 or not tr:
                        break
                    tr = sorted(tr)
                    for n in tr if len(tr) < 4 or tries % 3 == 0 else [tr[dr.bits("nudge", tries) % len(tr)]]:
                        dr.nonce[n] = dr.nonce.get(n, 0) + 1
                    raise Restart()
                good += 1
            x, y = outcome(dr, a), outcome(dr, b)
            if x[0] == "raised" or y[0] == "raised":
                if ignore_raise or x[0] == y[0] and ("ANY" in (x[1], y[1]) or x[1] == y[1]):
                    return "skip", "raised"
                return "diff", f"{x[1] if x[0] == 'raised' else 'a value'} against {y[1] if y[0] == 'raised' else 'a value'}"
            t = dr.differ(x[1], y[1])
            if not t:
                w.cov |= dr.cov
            return ("diff", t) if t else ("same", "") if good == len(path) else ("skip", "off the path")
        except Restart:
            dr.L = (3, 2, 3, 2, 1, 3, 2, 0)[dr.bits("L", "") % 8]
            tries += 1
            if tries > 400:
                return "skip", "unsettled"
            continue
        except Skip as e:
            return "skip", str(e)
        except RecursionError:
            return "skip", "recursion"
        except (ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, KeyError, AttributeError, np.linalg.LinAlgError) as e:
            if os.environ.get("SPEYVER_INTERP"):
                raise
            return "skip", f"{type(e).__name__}: {e}"


def compare(a, b, path=(), ignore_raise=True, rounds=120, seconds=6.0, limit=60000, like=None):
    """'diff' (a drawn assignment tells the values apart), 'agree', 'partial' (they agree, but not every condition was taken both ways) or 'unsupported'."""
    if not libraries():
        return Verdict("unsupported", "numerical library not available")
    w = World(a, b)
    if like is not None:
        for k, v in like.demands.items():
            w.demands.setdefault(k, set()).update(v)
    names = {x for t in (a, b) for x in T.walk(t) if x.op == "sym"}
    path = tuple((c, v) for c, v in path if not fv(c) and not any(x.op == "sym" and x.args[0].startswith("%") and x not in names for x in T.walk(c)) and not T.has_unk(c))
    if T.has_unk(a) or T.has_unk(b):
        return Verdict("unsupported", "not fully known")
    t0 = time.time()
    same = diff = skip = 0
    note = why = ""
    base = "1"
    known = {c for c, _ in path}
    own = set(x for x in T.walk(a) if x.op == "ite") ^ set(x for x in T.walk(b) if x.op == "ite")

    def missed():
        return [(x, v) for x in own for v in (True, False) if (x, v) not in w.cov and x.args[0] not in known]

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = np.seterr(all="ignore")
        try:
            for k in range(4 * rounds):
                if k >= rounds and (diff or same < 8 or not missed()):
                    break
                try:
                    p = path if k % 3 != 2 else ()
                    r, text = attempt(w, a, b, p, f"{base}:{k}", ignore_raise, limit)
                except Unsupported as e:
                    return Verdict("unsupported", str(e))
                if r == "same":
                    same += len(p) == len(path)
                elif r == "diff":
                    diff += 1
                    note = note or text
                    if diff >= 2:
                        return Verdict("diff", note, same + diff)
                else:
                    skip += 1
                    why = text or why
                if time.time() - t0 > seconds:
                    break
        finally:
            np.seterr(**old)
    if diff:
        return Verdict("diff", note, same + diff)
    m = missed()
    if m:
        return Verdict("partial" if same >= 8 else "unsupported", f"{len(m)} of {2 * len(own)} outcomes of the conditions not reached: {m[0][0].args[0]!r:.200}", same, w)
    if same >= 8:
        return Verdict("agree", f"{same} drawn assignments", same)
    return Verdict("unsupported", f"only {same} usable assignments ({why})")
