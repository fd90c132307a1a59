"""Interned value-number terms with algebraic normalisation.

Every value the analysis derives from the source is one interned ``Term``; two
expressions that denote the same value on every input (as far as the rewrite rules
know) become the *same object*.  Nothing here is ever executed on concrete inputs.
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "id", "h", "_unk", "_fv", "_syms", "_vocab")

    def __init__(self, op, args, tid):
        self.op = op
        self.args = args
        self.id = tid
        self.h = None
        self._unk = None
        self._fv = None
        self._syms = None
        self._vocab = None

    def __repr__(self):
        return show(self)


def raw(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args, len(_table))
        _table[key] = t
    return t


def subterms(t):
    """Direct Term children (args may nest tuples of Terms)."""
    out = []

    def walk(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                walk(x)

    walk(t.args)
    return out


def height(t):
    """Largest binder number inside t."""
    if t.h is None:
        m = t.args[0] if t.op == "bv" else 0
        for s in subterms(t):
            m = max(m, height(s))
        t.h = m
    return t.h


def has_unk(t):
    if t._unk is None:
        t._unk = t.op in ("unk", "softloop") or any(has_unk(s) for s in subterms(t))
    return t._unk


def syms(t):
    """frozenset of all symbol-like leaves."""
    if t._syms is None:
        if t.op in ("sym", "bv"):
            t._syms = frozenset([t])
        else:
            s = frozenset()
            for x in subterms(t):
                s |= syms(x)
            if t.op == "lam":
                s = syms(t.args[1]) - frozenset(t.args[0])
            t._syms = s
    return t._syms


def walk(t, seen=None):
    """All distinct subterms, including t."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(subterms(x))


# ---------------------------------------------------------------- leaves
def num(v):
    if isinstance(v, Fraction):
        return raw("n", v)
    if isinstance(v, int):
        return raw("n", Fraction(v))
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")):
        return INF if v > 0 else mul(num(-1), INF)
    return raw("n", Fraction(repr(v)))


def const(v):
    if isinstance(v, bool) or v is None:
        return raw("c", type(v).__name__, v)
    if isinstance(v, (int, float)):
        return num(v)
    if v is Ellipsis:
        return raw("c", "ellipsis", "...")
    return raw("c", type(v).__name__, v)


def sym(name):
    return raw("sym", name)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
INF = raw("ext", "inf")
NAN = raw("ext", "nan")
ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "n"


def is_const(t):
    return t.op in ("n", "c")


# ---------------------------------------------------------------- polynomials
# poly args: tuple of (mono, coef); mono = tuple of (atom, exponent) sorted by id
def _topoly(t):
    if t.op == "n":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        ((m, c),) = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0])))
    return raw("poly", items)


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


NONNUM = ("list", "tuple", "dict", "lam", "fv", "ref")


def is_seq(t):
    return t.op in ("list", "tuple", "seqcat") or (t.op == "c" and t.args[0] in ("str", "bytes")) or t.op == "fstr"


def add(a, b):
    if is_seq(a) or is_seq(b):
        return seqcat(a, b)
    pa, pb = _topoly(a), _topoly(b)
    if a.op == "c" and a.args[0] == "bool":
        pa = _topoly(num(int(a.args[1])))
    r = dict(pa)
    for m, c in pb.items():
        r[m] = r.get(m, 0) + c
    return _frompoly(r)


def neg(a):
    return mul(num(-1), a)


def subtract(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) + e
    return d


def _finish_mono(d, c):
    """dict atom->exp, coef -> poly dict; expands pow-atoms with integral total exponents."""
    extra = None
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "pow" and (a.args[1].op == "n"):
            tot = a.args[1].args[0] * e
            if tot.denominator == 1 and e != 1:
                f = power(a.args[0], num(tot))
                extra = f if extra is None else mul(extra, f)
                continue
        if a.op == "poly" and e > 0 and e.denominator == 1:
            f = power(a, num(e))
            extra = f if extra is None else mul(extra, f)
            continue
        out[a] = e
    m = tuple(sorted(out.items(), key=lambda ae: ae[0].id))
    p = {m: c}
    if extra is not None:
        return _topoly(mul(_frompoly(p), extra))
    return p


def mul(a, b):
    if a.op in ("list", "tuple") or b.op in ("list", "tuple"):
        s, n = (a, b) if a.op in ("list", "tuple") else (b, a)
        return repeat(s, n)
    pa, pb = _topoly(a), _topoly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            for m, c in _finish_mono(_mulmono(m1, m2), c1 * c2).items():
                r[m] = r.get(m, 0) + c
    return _frompoly(r)


def repeat(s, n):
    if n.op == "n" and n.args[0].denominator == 1 and 0 <= n.args[0] <= 8:
        out = raw(s.op)
        for _ in range(int(n.args[0])):
            out = seqcat(out, s)
        return out
    if n.op == "c" and n.args[0] == "bool":
        return s if n.args[1] else raw(s.op)
    if n.op == "raise":
        return n
    if n.op == "ite":
        return ite(n.args[0], repeat(s, n.args[1]), repeat(s, n.args[2]))
    if isbool(n):
        return ite(n, s, raw(s.op))
    return raw("repeat", s, n)


def content(t):
    """(positive rational c, primitive term) with t = c * primitive, leading |coef| = 1."""
    p = _topoly(t)
    if not p:
        return Fraction(1), t
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[-1][1]
    c = abs(lead)
    return c, _frompoly({m: x / c for m, x in p.items()})


def leadsign(t):
    p = _topoly(t)
    if not p:
        return 1
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[-1][1]
    return 1 if lead > 0 else -1


def power(a, b):
    if b.op != "n":
        if b.op == "ite":
            return raw("pow", a, b)
        return raw("pow", a, b)
    e = b.args[0]
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == "n":
        if e.denominator == 1 and (a.args[0] != 0 or e > 0) and abs(e) < 40:
            return num(a.args[0] ** int(e))
        if e == Fraction(1, 2):
            from math import isqrt

            n, d = a.args[0].numerator, a.args[0].denominator
            if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return num(Fraction(isqrt(n), isqrt(d)))
        return raw("pow", a, b)
    if a.op == "pow" and a.args[1].op == "n" and e.denominator == 1:
        return power(a.args[0], num(a.args[1].args[0] * e))
    p = _topoly(a)
    if len(p) == 1:
        ((m, c),) = p.items()
        if e.denominator == 1:
            d = {x: y * e for x, y in m}
            return _frompoly(_finish_mono(d, c ** int(e)))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _frompoly({((m[0][0], e),): Fraction(1)})
        return raw("pow", a, b)
    if e.denominator == 1 and e > 0 and e <= 4:
        r = ONE
        for _ in range(int(e)):
            r2 = {}
            for m1, c1 in _topoly(r).items():
                for m2, c2 in p.items():
                    for m, c in _finish_mono(_mulmono(m1, m2), c1 * c2).items():
                        r2[m] = r2.get(m, 0) + c
            r = _frompoly(r2)
        return r
    if e.denominator == 1:
        c, prim = content(a)
        if leadsign(prim) < 0:
            c, prim = -c, neg(prim)
        if prim.op != "poly":
            return mul(num(Fraction(c) ** int(e)), power(prim, b))
        return _frompoly({((prim, e),): Fraction(c) ** int(e)})
    return raw("pow", a, b)


def div(a, b):
    if b.op == "n" and b.args[0] == 0:
        return raw("divzero", a)
    return mul(a, power(b, num(-1)))


# ---------------------------------------------------------------- booleans / decisions
BOOLOPS = frozenset(
    ["lt0", "eq0", "eq", "is", "in", "isinstance", "truth", "hasattr", "raises", "any", "all", "callable"]
)


def isbool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op in BOOLOPS:
        return True
    if t.op == "ite":
        return isbool(t.args[1]) and isbool(t.args[2])
    return False


_itememo = {}


def _top(t):
    return t.args[0] if t.op == "ite" else (t if t.op in BOOLOPS else None)


def _cof(t, atom, val):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    if t is atom:
        return TRUE if val else FALSE
    return t


def ite(c, a, b):
    """Ordered (MTBDD-like) conditional: c must be boolean."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _itememo.get(key)
    if r is not None:
        return r
    tops = [x for x in (_top(c), _top(a) if a.op == "ite" or isbool(a) else None, _top(b) if b.op == "ite" or isbool(b) else None) if x is not None]
    if not tops:
        r = raw("ite", truth(c), a, b) if not isbool(c) else raw("ite", c, a, b)
        _itememo[key] = r
        return r
    v = min(tops, key=lambda x: x.id)
    hi = ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True))
    lo = ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False))
    r = _mkite(v, hi, lo)
    _itememo[key] = r
    return r


def _mkite(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    if v.op == "lt0" and not isbool(hi) and not isbool(lo):
        numish = lambda t: not (is_seq(t) or t.op in ("c", "dict", "raise", "lam", "fv", "ref", "ite", "ext", "fall"))
        if numish(hi) and numish(lo):
            p = v.args[0]
            d = subtract(lo, hi)
            for k, ctor in ((1, "max"), (-1, "min")):
                c, prim = content(d)
                if prim is (p if k == 1 else neg(p)):
                    return extremum(ctor, [hi, lo])
    if v.op == "in" and hi.op == "sub" and hi.args[0] is v.args[1] and hi.args[1] is v.args[0] and not isbool(lo):
        return dictget(v.args[1], v.args[0], lo)
    if v.op == "any":
        w, rest = (lo, FALSE) if lo.op == "any" and hi is TRUE else (lo.args[0], lo.args[2]) if lo.op == "ite" and lo.args[1] is hi else (None, None)
        if w is not None and w.op == "any" and w.args[0] is v.args[0] and v.args[1].op == "lam" and w.args[1].op == "lam":
            j = fresh("e")
            return ite(mkany(v.args[0], mklam([j], or_(apply_lam(v.args[1], [j]), apply_lam(w.args[1], [j])))), hi, rest)
    return raw("ite", v, hi, lo)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def not_(a):
    return ite(a, FALSE, TRUE)


def truth(t):
    if isbool(t):
        return t
    if t.op == "n":
        return TRUE if t.args[0] else FALSE
    if t.op == "c":
        return TRUE if t.args[1] else FALSE
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ("list", "tuple"):
        if not t.args:
            return FALSE
        if any(s.op != "star" for s in t.args):
            return TRUE
        if len(t.args) == 1:
            y = t.args[0].args[0]
            if y.op == "fmap" and y.args[1].op == "lam":
                g = hasitems(y.args[1].args[1])
                if g is TRUE:
                    return raw("truth", raw("nonempty", y.args[0]))
                if g is not None:
                    j = fresh("e")
                    return raw("any", y.args[0], mklam([j], subst(g, {y.args[1].args[0][0]: j})))
            return raw("truth", y)
    if t.op == "dict" and not t.args:
        return FALSE
    if t.op == "len":
        return truth(t.args[0])
    if t.op in ("lam", "fv", "fn", "boundm"):
        return TRUE
    return raw("truth", t)


def hasitems(b):
    """Condition under which a list of known segments has an element, or None."""
    if b.op == "ite":
        x, y = hasitems(b.args[1]), hasitems(b.args[2])
        return None if x is None or y is None else ite(b.args[0], x, y)
    if b.op == "list" and not any(s.op == "star" for s in b.args):
        return TRUE if b.args else FALSE
    return None


def lt0(p):
    """p < 0"""
    if p.op == "n":
        return TRUE if p.args[0] < 0 else FALSE
    if p.op == "poly":
        _, p = content(p)
        d = _topoly(p)
        if len(d) == 1:
            ((m, c),) = d.items()
            if len(m) == 1 and m[0][0].op == "len" and c < 0:
                return truth(m[0][0].args[0])
        for m, c in d.items():
            if m == ((INF, Fraction(1)),):
                return TRUE if c < 0 else FALSE
        if len(d) == 2:
            # a set never has more elements than the sequence it is made of
            for m, c in d.items():
                if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" and m[0][0].args[0].op == "set":
                    n = seqlen(m[0][0].args[0].args)
                    if n is not None and (p is subtract(m[0][0], n) or p is subtract(n, m[0][0])):
                        return FALSE if c < 0 else not_(eq(m[0][0], n))
    if p is INF:
        return FALSE
    if p.op == "len":
        return FALSE
    if p.op == "ite":
        return ite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    return raw("lt0", p)


def seqlen(segs):
    """Length of a sequence of segments, or None."""
    r = ZERO
    for s in segs:
        if s.op != "star":
            r = add(r, ONE)
            continue
        y = s.args[0]
        if y.op == "fmap" and y.args[1].op == "lam":
            b = y.args[1].args[1]
            n = seqlen(b.args) if b.op == "list" else None
            if n is None or n.op != "n" or y.args[0].op != "D":
                return None
            d = y.args[0].args[0]
            r = add(r, mul(n, d.args[0] if d.op == "range" else raw("len", d)))
        elif y.op in ("sym", "attr", "sub", "keys"):
            r = add(r, raw("len", y))
        else:
            return None
    return r


def lt(a, b):
    return lt0(subtract(a, b))


def le(a, b):
    return not_(lt(b, a))


def numeric(t):
    return t.op in ("n", "poly", "len", "max", "min", "abs", "pow")


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (is_const(y) or is_const(x.args[1]) or is_const(x.args[2])):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if is_const(a) and is_const(b):
        return TRUE if (a.args == b.args) else FALSE
    if isbool(a) and isbool(b):
        return ite(a, b, not_(b))
    if (numeric(a) or numeric(b)) and not is_seq(a) and not is_seq(b) and not (a.op == "c" or b.op == "c"):
        p = subtract(a, b)
        if p.op == "n":
            return TRUE if p.args[0] == 0 else FALSE
        _, p = content(p)
        if leadsign(p) < 0:
            p = neg(p)
        if p.op == "len":
            return not_(truth(p.args[0]))
        return raw("eq0", p)
    for x, y in ((a, b), (b, a)):
        if x.op in ("fn", "lam", "fv", "boundm") and is_const(y):
            return FALSE
    if a.op in ("dict", "list", "tuple") and b.op in ("dict", "list", "tuple") and a.op != b.op:
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.id)
    return raw("eq", x, y)


NEVER_NONE = ("fn", "boundm", "partial", "n", "poly", "list", "tuple", "dict", "lam", "fv", "ref", "len", "max", "min", "abs", "pow", "fstr", "seqcat", "sum", "matmul")


def never_none(a):
    if a.op in NEVER_NONE or isbool(a) or a.op in ("arr", "set", "setitem", "dminus", "dmap"):
        return True
    if a.op == "attr":
        x = a.args[0]
        return a.args[1] in METHODS or x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0].startswith("scipy.optimize.")
    if a.op == "first" and a.args[1].op == "lam" and a.args[2].op == "lam":
        j = fresh("e")  # the element found by a condition on its attributes
        el = apply_lam(a.args[2], [j])
        return never_none(el) or el is not j and any(x.op == "attr" and x.args[0] is el for x in walk(apply_lam(a.args[1], [j])))
    if a.op == "call" and a.args[0].op == "sym" and a.args[0].args[0] in NUMERIC:
        return True
    if a.op == "sub" and any(x.op == "fn" and x.args[0] in ("numpy.argmax", "numpy.argmin") for x in walk(a.args[1])):
        return True  # an element of an array of numbers
    return a.op == "call" and a.args[0].op == "fn" and a.args[0].args[0].split(".")[0] in ("numpy", "len", "sum")


NUMERIC = set()  # names of parameters which are functions returning numbers or arrays
METHODS = set()  # names the project only ever gives to methods


INSTANCES = {"scipy.optimize.NonlinearConstraint"}  # constructors: their results are never None


def is_(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return ite(x.args[0], is_(x.args[1], y), is_(x.args[2], y))
    if is_const(a) and is_const(b):
        return TRUE if a.args == b.args else FALSE
    if b is NONE and never_none(a):
        return FALSE
    if a is NONE and never_none(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op in ("fn", "lam", "fv", "list", "dict") and is_const(y):
            return FALSE
    if b in (TRUE, FALSE) and isbool(a):
        return a if b is TRUE else not_(a)
    x, y = sorted((a, b), key=lambda t: t.id)
    if NONE in (x, y):
        o = y if x is NONE else x
        if o.op == "call" and o.args[0].op == "fn" and o.args[0].args[0] in INSTANCES:
            return FALSE
    return raw("is", x, y)


def isin(a, b):
    if b.op in ("list", "tuple", "set") and all(s.op != "star" for s in b.args):
        r = FALSE
        for s in b.args:
            r = or_(is_(a, s) if NONE in (a, s) else eq(a, s), r)
        return r
    if b.op == "dict" and a.op == "c" and all(e.op == "kv" and is_const(e.args[0]) for e in b.args):
        return TRUE if any(e.args[0] is a for e in b.args) else FALSE
    if b.op == "dict" and len(b.args) <= 8 and all(e.op == "kv" and e.args[0].op == "c" and e.args[0].args[0] == "str" for e in b.args):
        r = FALSE
        for e in b.args:
            r = or_(eq(a, e.args[0]), r)
        return r
    return raw("in", a, b)


def extremum(op, items):
    flat = []
    for t in items:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    if INF in flat and len(set(flat)) > 1:
        if op == "max":
            return INF
        flat = [t for t in flat if t is not INF]
    consts = [t for t in flat if t.op == "n"]
    rest = sorted({t for t in flat if t.op != "n"}, key=lambda t: t.id)
    if consts:
        f = max if op == "max" else min
        k = num(f(t.args[0] for t in consts))
        rest = [k] + rest
    if len(rest) == 1:
        return rest[0]
    return raw(op, *rest)


def abs_(a):
    if a.op == "n":
        return num(abs(a.args[0]))
    if a.op == "poly" and leadsign(a) < 0:
        a = neg(a)
    if a.op == "abs":
        return a
    return raw("abs", a)


# ---------------------------------------------------------------- sequences / dicts
def seqcat(a, b):
    if a.op == b.op and a.op in ("list", "tuple"):
        return raw(a.op, *(a.args + b.args))
    if a.op == "c" and b.op == "c" and a.args[0] == b.args[0] == "str":
        return const(a.args[1] + b.args[1])
    if a.op == "list" and b.op not in ("tuple", "c", "fstr"):
        if not a.args:
            return mklist("list", [star(b)])
        return raw("list", *(a.args + (star(b),)))
    if b.op == "list" and a.op not in ("tuple", "c", "fstr"):
        return raw("list", *((star(a),) + b.args))
    parts = []
    for t in (a, b):
        parts.extend(t.args if t.op in ("seqcat", "fstr") else [t])
    if any(t.op == "c" and t.args[0] == "str" for t in parts) or a.op == "fstr" or b.op == "fstr":
        return fstr(parts)
    return raw("seqcat", *parts)


def star(t):
    return raw("star", t)


def domlit(dom):
    """Number of elements of a domain over fully known sequences, or None."""
    if dom.op == "Dzip":
        ns = {domlit(d) for d in dom.args}
        return ns.pop() if len(ns) == 1 else None
    if dom.op == "D":
        x = dom.args[0]
        if x.op in ("list", "tuple") and len(x.args) <= 8 and all(s.op != "star" for s in x.args):
            return len(x.args)
        if x.op == "range" and len(x.args) == 1 and x.args[0].op == "n" and 0 <= x.args[0].args[0] <= 8:
            return int(x.args[0].args[0])
    return None


def fmap(dom, lam):
    """Concatenation of lam(j) over the domain."""
    n = domlit(dom)
    if n is not None and lam.op == "lam":
        out = []
        for i in range(n):
            out.append(star(apply_lam(lam, [num(i)])))
        return mklist("list", out)
    if dom.op == "D" and lam.op == "lam" and len(lam.args[0]) == 1:
        # an element of xs is in xs
        x, bv = dom.args[0], lam.args[0][0]
        m = {}
        for t in walk(lam.args[1]):
            if t.op == "in" and t.args[0].op == "sub" and t.args[0].args[0] is x and t.args[0].args[1] is bv:
                s = t.args[1]
                if s is x or s.op in ("set", "list", "tuple") and any(y.op == "star" and y.args[0] is x for y in s.args):
                    m[t] = TRUE
        if m:
            lam = raw("lam", (bv,), subst(lam.args[1], m))
            if lam.args[1].op == "list" and not lam.args[1].args:
                return lam.args[1]
    return raw("fmap", dom, lam)


def mklist(op, segs):
    out = []
    for s in segs:
        if s.op == "star" and s.args[0].op in ("list", "tuple"):
            out.extend(s.args[0].args)
        elif s.op == "star" and s.args[0].op == "ite" and False:
            out.append(s)
        else:
            out.append(s)
    return raw(op, *out)


def fstr(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            for q in p.args:
                out.append(q)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == "n":
            p = const(str(p.args[0]))
        if p.op == "c" and p.args[0] == "str" and res and res[-1].op == "c" and res[-1].args[0] == "str":
            res[-1] = const(res[-1].args[1] + p.args[1])
        else:
            res.append(p)
    if len(res) == 1 and res[0].op == "c":
        return res[0]
    if not res:
        return const("")
    return raw("fstr", *res)


def mkdict(entries):
    """entries: list of Term kv(key,val) / dstar(term)."""
    flat = []
    for e in entries:
        if e.op == "dstar" and e.args[0].op == "dict":
            flat.extend(e.args[0].args)
        else:
            flat.append(e)
    out = []
    for e in flat:
        if e.op == "kv":
            out = [x for x in out if not (x.op == "kv" and x.args[0] is e.args[0])]
        out.append(e)
    # sort runs of constant keys
    res, run = [], []
    for e in out:
        if e.op == "kv" and is_const(e.args[0]):
            run.append(e)
        else:
            res.extend(sorted(run, key=lambda x: str(x.args[0].args)))
            run = []
            res.append(e)
    res.extend(sorted(run, key=lambda x: str(x.args[0].args)))
    return raw("dict", *res)


def kv(k, v):
    return raw("kv", k, v)


def dstar(t):
    return raw("dstar", t)


_kw_excluded = {}  # kwargs symbol -> set of names it cannot contain


def dictget(d, k, default=None):
    """d[k] (default None) or d.get(k, default)."""
    if d.op == "ite":
        return ite(d.args[0], dictget(d.args[1], k, default), dictget(d.args[2], k, default))
    if d.op == "dminus" and is_const(k):
        if k in d.args[1]:
            return default if default is not None else raw("raise", "KeyError")
        return dictget(d.args[0], k, default)
    if d.op == "dict":
        res = None
        todo = list(d.args)
        while todo:
            e = todo.pop()
            if e.op == "kv":
                if e.args[0] is k:
                    return e.args[1]
                if is_const(e.args[0]) and is_const(k):
                    continue
                break
            rest = raw("dict", *todo)
            inner = e.args[0]
            if cannot_have(inner, k):
                continue
            if default is None:
                if all(x.op == "kv" and is_const(x.args[0]) and x.args[0] is not k for x in todo) and is_const(k):
                    return dictget(inner, k, None)
                break
            return dictget(inner, k, dictget(rest, k, default))
        else:
            if is_const(k):
                return default if default is not None else raw("raise", "KeyError")
        if not is_const(k) and d.args and len(d.args) <= 16 and all(e.op == "kv" and is_const(e.args[0]) for e in d.args):
            r = default if default is not None else raw("raise", "KeyError")
            for e in d.args:
                r = ite(eq(k, e.args[0]), e.args[1], r)
            return r
        return raw("dget", d, k, default) if default is not None else raw("sub", d, k)
    if cannot_have(d, k):
        return default if default is not None else raw("raise", "KeyError")
    if default is not None:
        return raw("dget", d, k, default)
    return raw("sub", d, k)


def cannot_have(d, k):
    if d.op == "sym" and d in _kw_excluded and k.op == "c":
        return k.args[1] in _kw_excluded[d]
    if d.op == "dminus":
        return k in d.args[1] or cannot_have(d.args[0], k)
    if d.op == "dict":
        return is_const(k) and all(
            (e.op == "kv" and is_const(e.args[0]) and e.args[0] is not k) or (e.op == "dstar" and cannot_have(e.args[0], k))
            for e in d.args
        )
    return False


def dminus(d, keys):
    keys = tuple(k for k in keys if not cannot_have(d, k))
    if not keys:
        return d
    if d.op == "dict":
        out = []
        for e in d.args:
            if e.op == "kv":
                if e.args[0] in keys:
                    continue
                out.append(e)
            else:
                out.append(dstar(dminus(e.args[0], keys)))
        return mkdict(out)
    if d.op == "dminus":
        keys = tuple(set(keys) | set(d.args[1]))
        d = d.args[0]
    if d.op == "ite":
        return ite(d.args[0], dminus(d.args[1], keys), dminus(d.args[2], keys))
    return raw("dminus", d, tuple(sorted(keys, key=lambda t: str(t.args))))


def sub(o, i):
    if o.op == "ite":
        return ite(o.args[0], sub(o.args[1], i), sub(o.args[2], i))
    if i.op == "ite":
        return ite(i.args[0], sub(o, i.args[1]), sub(o, i.args[2]))
    if o.op in ("list", "tuple") and i.op == "n" and i.args[0].denominator == 1:
        k = int(i.args[0])
        segs = o.args
        if k >= 0:
            if all(s.op != "star" for s in segs[: k + 1]) and k < len(segs):
                return segs[k]
            if k == 0 and len(segs) == 1 and segs[0].op == "star" and segs[0].args[0].op not in ("fmap",):
                return sub(segs[0].args[0], i)
        else:
            if -k <= len(segs) and all(s.op != "star" for s in segs[k:]):
                return segs[k]
        if len(segs) == 1 and segs[0].op == "star" and segs[0].args[0].op not in ("fmap",):
            return sub(segs[0].args[0], i)
    if o.op == "list" and len(o.args) == 1 and o.args[0].op == "star" and o.args[0].args[0].op == "fmap":
        fm = o.args[0].args[0]
        body = fm.args[1]
        if body.op == "lam" and (i.op in ("bv", "sym") or i.op == "n" and i.args[0].denominator == 1 and i.args[0] >= 0):
            b = apply_lam(body, [i])
            if b.op == "list" and len(b.args) == 1 and b.args[0].op != "star":
                return b.args[0]
    if o.op == "repeat" and i.op in ("bv",) and len(o.args[0].args) == 1:
        return o.args[0].args[0]
    if o.op in ("dict", "dminus"):
        return dictget(o, i)
    if o.op == "setitem" and o.args[1] is i:
        return o.args[2]
    if o.op == "setitem" and is_const(i) and is_const(o.args[1]) and o.args[1] is not i:
        return sub(o.args[0], i)
    if o.op == "attr" and o.args[1] == "shape":
        x = o.args[0]
        while x.op == "setitem":
            x = x.args[0]
        if x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full") and x.args[1]:
            d = x.args[1][0]
            if d.op in ("tuple", "list") and all(y.op != "star" for y in d.args):
                if i.op == "n" and i.args[0].denominator == 1 and -len(d.args) <= i.args[0] < len(d.args):
                    return d.args[int(i.args[0])]
        return raw("sub", raw("attr", x, "shape"), i)
    if o.op == "sub" and o.args[0].op == "call" and o.args[0].args[0] in MATRICES and o.args[1].op not in ("tuple", "slice", "list") and i.op not in ("slice", "tuple", "list"):
        return raw("sub", o.args[0], raw("tuple", o.args[1], i))
    if o.op == "poly":
        p = _topoly(o)
        if len(p) == 1:
            (m, c), = p.items()
            if c != 1 and len(m) == 1 and m[0][1] == 1:
                return mul(num(c), sub(m[0][0], i))
    return raw("sub", o, i)


MATRICES = {raw("fn", "numpy." + n) for n in ("linalg.inv", "linalg.pinv", "linalg.cholesky", "outer", "diag", "cov", "corrcoef")}


def keeps_shape(v, a):
    """v is a with some of its elements replaced."""
    if v is a:
        return True
    if v.op == "setitem":
        return keeps_shape(v.args[0], a)
    if v.op == "ite":
        return keeps_shape(v.args[1], a) and keeps_shape(v.args[2], a)
    if v.op == "fold" and v.args[2].op == "lam" and len(v.args[2].args[0]) == 2:
        return keeps_shape(v.args[1], a) and keeps_shape(v.args[2].args[1], v.args[2].args[0][1])
    return False


# ---------------------------------------------------------------- binders
_fresh = [0]


def fresh(tag="v"):
    _fresh[0] += 1
    return raw("sym", f"%{tag}{_fresh[0]}")


def mklam(params, body):
    """Close body over the given symbols; alpha-canonical."""
    h = height(body)
    m = {}
    bvs = []
    for i, p in enumerate(params):
        b = raw("bv", h + 1 + i)
        m[p] = b
        bvs.append(b)
    body2 = subst(body, m)
    # eta: lam x. f(x) -> f
    if body2.op == "call" and len(params) == 1:
        f, args, kws = body2.args
        if len(args) == 1 and not kws and args[0] is bvs[0] and bvs[0] not in syms(f):
            return f
    return raw("lam", tuple(bvs), body2)


def apply_lam(l, args):
    m = dict(zip(l.args[0], args))
    return subst(l.args[1], m)


# ---------------------------------------------------------------- substitution
REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return raw(op, *args)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if x.op == "lam" and all(b.op in ("sym", "bv") for b in x.args[0]):
            r = memo[x] = x if not mentions(x.args[1], keys, x.args[0]) else open_lam(x, m)
            return r
        if x.op == "poly":
            r = ZERO
            changed = False
            for mono, c in x.args[0]:
                term = num(c)
                for a, e in mono:
                    a2 = go(a)
                    changed = changed or a2 is not a
                    term = mul(term, power(a2, num(e)))
                r = add(r, term)
            if not changed:
                r = x
        elif x.op in ("n", "c", "sym", "bv", "ext", "unk"):
            r = x
        else:
            args2 = goarg(x.args)
            r = x if args2 == x.args else rebuild(x.op, args2)
        memo[x] = r
        return r

    def goarg(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(y) for y in a)
        return a

    return go(t)


_opened = [0]


def mentions(t, keys, bound=()):
    """Whether any of the keys occurs in t."""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in keys and x not in bound:
            return True
        todo.extend(subterms(x))
    return False


def open_lam(x, m):
    """Substitute below a binder: open it with names used nowhere else, close it again in canonical form."""
    bvs, body = x.args
    k0 = _opened[0]
    names = [raw("sym", f"%o{k0 + i}") for i in range(len(bvs))]
    _opened[0] += len(bvs)
    try:
        m2 = {k: v for k, v in m.items() if k not in bvs}
        m2.update(zip(bvs, names))
        return mklam(names, subst(body, m2))
    finally:
        _opened[0] = k0


def mkany(dom, lam):
    n = domlit(dom)
    if n is not None and lam.op == "lam":
        r = FALSE
        for i in range(n):
            r = or_(r, truth(apply_lam(lam, [num(i)])))
        return r
    if lam is FALSE or lam.op == "lam" and lam.args[1] is FALSE:
        return FALSE
    if dom.op == "D" and dom.args[0] in (TRUE, FALSE) and lam.op != "lam":
        return truth(lam)
    return raw("any", dom, lam)


def mkdmap(dom, lam):
    n = domlit(dom)
    if n is not None and lam.op == "lam" and lam.args[1].op == "dict":
        return mkdict([e for i in range(n) for e in apply_lam(lam, [num(i)]).args])
    return raw("dmap", dom, lam)


def _rb_sum(dom, lam):
    return mksum(dom, lam)


def mksum(dom, lam):
    """sum over the domain; linear: constants factored out."""
    n = domlit(dom)
    if n is not None and lam.op == "lam":
        out = ZERO
        for i in range(n):
            out = add(out, apply_lam(lam, [num(i)]))
        return out
    if lam.op == "lam":
        body = lam.args[1]
        bv = lam.args[0][0]
        p = _topoly(body)
        if len(p) >= 1:
            out = ZERO
            for m, c in p.items():
                inner = {}
                outer = {}
                for a, e in m:
                    (inner if bv in syms(a) else outer)[a] = e
                o = _frompoly({tuple(sorted(outer.items(), key=lambda ae: ae[0].id)): c})
                i = _frompoly({tuple(sorted(inner.items(), key=lambda ae: ae[0].id)): Fraction(1)})
                s = raw("sum", dom, mklam([bv], i) if bv in syms(i) else raw("lam", (bv,), i))
                # sum_j xs[j] over D(xs) -> total(xs)
                if dom.op == "D" and i.op == "sub" and i.args[0] is dom.args[0] and i.args[1] is bv:
                    s = raw("total", dom.args[0])
                out = add(out, mul(o, s))
            return out
    return raw("sum", dom, lam)


def recall(f, args, kws):
    """call with unpacked arguments that have become known"""
    if any(a.op == "star" and a.args[0].op in ("list", "tuple") for a in args):
        args = mklist("tuple", args).args
    if f.op == "lam" and not kws and len(f.args[0]) == len(args) and not any(a.op == "star" for a in args):
        return apply_lam(f, args)
    if f.op == "ite" and any(x.op == "lam" for x in f.args[1:]):
        return ite(f.args[0], recall(f.args[1], args, kws), recall(f.args[2], args, kws))
    return raw("call", f, tuple(args), kws)


def appended(a, v):
    """e with v = a ++ e (as list term) or None."""
    if v is a or (v.op == "list" and v.args == (star(a),)):
        return raw("list")
    if v.op == "list" and v.args and v.args[0] is star(a):
        return raw("list", *v.args[1:])
    if v.op == "ite":
        x, y = appended(a, v.args[1]), appended(a, v.args[2])
        if x is not None and y is not None and a not in syms(v.args[0]):
            return ite(v.args[0], x, y)
    return None


def fold(dom, init, lam):
    """A fold which only appends (once its conditions are decided) concatenates."""
    if init.op == "list" and lam.op == "lam" and len(lam.args[0]) == 2:
        j, a = lam.args[0]
        e = appended(a, lam.args[1])
        if e is not None and a not in syms(e):
            return mklist("list", tuple(init.args) + (star(fmap(dom, mklam([j], e))),))
    return raw("fold", dom, init, lam)


REBUILD.update(
    {
        "call": recall,
        "ite": ite,
        "lt0": lt0,
        "eq0": lambda p: eq(p, ZERO),
        "eq": eq,
        "is": is_,
        "in": isin,
        "truth": truth,
        "max": lambda *a: extremum("max", a),
        "min": lambda *a: extremum("min", a),
        "abs": abs_,
        "pow": power,
        "sub": sub,
        "list": lambda *a: mklist("list", a),
        "tuple": lambda *a: mklist("tuple", a),
        "dict": lambda *a: mkdict(a),
        "dminus": dminus,
        "dget": dictget,
        "fstr": lambda *a: fstr(list(a)),
        "repeat": repeat,
        "sum": _rb_sum,
        "fmap": fmap,
        "fold": fold,
        "any": mkany,
        "dmap": mkdmap,
        "star": star,
        "lam": lambda bvs, body: mklam(list(bvs), body) if all(b.op in ("sym", "bv") for b in bvs) else raw("lam", bvs, body),
    }
)


# ---------------------------------------------------------------- display
def show(t, depth=7):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "n":
        v = a[0]
        return str(v) if v.denominator == 1 else str(float(v))
    if op == "c":
        return repr(a[1])
    if op in ("sym", "ext"):
        return str(a[0])
    if op == "bv":
        return f"x{a[0]}"
    if op in ("fn", "glob"):
        return a[0]
    if op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if op == "poly":
        parts = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator == 1 else str(float(c)))
            for x, e in m:
                f.append(show(x, d) if e == 1 else f"{show(x, d)}^{e}")
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + ")"
    if op == "call":
        args = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join(args)})"
    if op == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if op == "lt0":
        return f"[{show(a[0], d)} < 0]"
    if op == "eq0":
        return f"[{show(a[0], d)} == 0]"
    if op in ("eq", "is"):
        return f"[{show(a[0], d)} {op} {show(a[1], d)}]"
    if op == "sub":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "lam":
        return f"λ{','.join(show(x, d) for x in a[0])}. {show(a[1], d)}"
    if op in ("list", "tuple"):
        s = ", ".join(show(x, d) for x in a)
        return f"[{s}]" if op == "list" else f"({s})"
    if op == "star":
        return "*" + show(a[0], d)
    if op == "kv":
        return f"{show(a[0], d)}: {show(a[1], d)}"
    if op == "dstar":
        return "**" + show(a[0], d)
    if op == "dict":
        return "{" + ", ".join(show(x, d) for x in a) + "}"

    def sh(x):
        if isinstance(x, Term):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ", ".join(sh(y) for y in x) + ")"
        return str(x)

    return f"{op}({', '.join(sh(x) for x in a)})"


def leaves(t):
    """Leaf values of a conditional term."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op == "ite":
            todo += [x.args[1], x.args[2]]
        elif x not in out:
            out.append(x)
    return out
