"""Result cache: key completeness, copies, per-instance isolation (S20) and the locking protocol (S21)."""
import ast

from . import prop
from ..paths import Machine, State, Overflow, NONE, show, walk, is_pure, dotted, Closure
from ..project import AnalysisBroken

MOD = "spey.system.cache"
FN = ("param", "fn")


class CacheMachine(Machine):
    def released(self, s, lock):
        for k in [x for x in s.heap if x[0] == "fact" and any(y[0] == "alloc" and y[2] in ("dict", "deque", "list", "set") for y in walk(x[1]))]:
            del s.heap[k]


def raises(m, s, f, pos, node):
    return f == FN or (f[0] == "attr" and f[2] == "bind")


class Wrapper:
    def __init__(self, clo, state, paths, per_instance, alloc_before, get_paths):
        self.clo, self.state, self.paths, self.per_instance, self.before, self.get_paths = clo, state, paths, per_instance, alloc_before, get_paths
        self.siblings = []

    @property
    def where(self):
        return f"src/spey/system/cache.py:{self.clo.node.lineno}"


def machine(ctx):
    return CacheMachine(ctx.project, raises, inline=lambda c: bool(c.scope) or not is_pure(c.node) or not loops(c.node))


def loops(node):
    return any(isinstance(x, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(node))


def is_wrapper(v):
    return v[0] == "func" and not isinstance(v[1].node, ast.Lambda) and v[1].node.args.vararg is not None and v[1].node.args.kwarg is not None


def collect(ctx):
    """every cached callable the decorator can produce, with all its execution paths"""
    if hasattr(ctx, "_wrappers"):
        return ctx._wrappers
    f = ctx.func(MOD + ".cache_results")
    m = machine(ctx)
    out, seen = [], set()

    def explore(st, v, depth, inst, before, gets):
        if depth > 4:
            return
        if is_wrapper(v):
            k = (id(v[1].node), inst)
            if k in seen:
                return
            seen.add(k)
            st2 = st.fork()
            st2.trace, st2.heap = None, {x: y for x, y in st2.heap.items() if x[0] != "fact"}
            w = Wrapper(v[1], st2, [], inst, before, gets)
            m.count = 0
            s3 = st2.fork()
            for s, r, ex in m.enter(s3, v[1], (("star", ("param", "args")),), ((None, ("param", "kwargs")),), v[1].node):
                w.paths.append((s.events, r, ex))
            w.paths = feasible(w.paths)
            fid = v[1].scope[-1] if v[1].scope else None
            if fid is not None:
                for name, val in st.frames.get(fid, {}).items():
                    if name[0] != "%" and val[0] == "func" and val[1].node is not v[1].node and val[1].scope and val[1].scope[-1] == fid and not is_pure_local(val[1]):
                        m.count = 0
                        s4 = st2.fork()
                        a = val[1].node.args
                        pos = tuple(("param", "sib_" + x.arg) for x in a.posonlyargs + a.args)
                        w.siblings.append((val[1], [(s.events, r, ex) for s, r, ex in m.enter(s4, val[1], pos, (), val[1].node)]))
            out.append(w)
            return
        if v[0] == "func":
            for s, r, ex in m.enter(st, v[1], (FN,), (), v[1].node):
                if ex is None:
                    explore(s, r, depth + 1, inst, before, gets)
        elif v[0] == "alloc" and not isinstance(v[2], str):
            get = m.find_method(v[2], "__get__")
            if get is not None:
                ctx.functions.add(get.qual)
                n = st.n
                res = m.enter(st, m.closure(get.node, get.module, (), get.cls)[1], (v, ("param", "obj"), ("param", "objtype")), (), get.node)
                g = (v[2], get, [(s.events, r, ex) for s, r, ex in res], n)
                for s, r, ex in res:
                    if ex is None:
                        explore(s, r, depth + 1, True, n, g)

    st = State()
    m.stack.append(None)
    for s, v, ex in m.enter(st, m.closure(f.node, f.module, ())[1], (), tuple((x.arg, ("param", x.arg)) for x in f.node.args.kwonlyargs) + (("func", ("param", "fn")),), f.node):
        if ex is None:
            explore(s, v, 0, False, 0, None)
    ctx._wrappers = out
    for w in out:
        ctx.functions.add(f"{MOD}.{w.clo.node.name}@{'instance' if w.per_instance else 'function'}")
    return out


def feasible(paths):
    """drop paths that find None in a dictionary that only ever receives events"""
    vals = {}
    for events, _, _ in paths:
        for e in events:
            if e.kind == "setitem":
                vals.setdefault(e.a, set()).add(e.c[2] if e.c[0] == "alloc" and isinstance(e.c[2], str) else "?")
    evd = {d for d, v in vals.items() if v == {"event"}}
    return [p for p in paths if not any(e.kind == "assume" and e.b is True and e.a[0] == "cmp" and e.a[1] == "is" and NONE in e.a[2:4] and any(y[0] == "item" and y[1] in evd for y in e.a[2:4]) for e in p[0])]


def is_pure_local(c):
    return is_pure(c.node) and not any(isinstance(x, ast.Call) for x in ast.walk(c.node))


def is_result(v):
    return v[0] == "call" and v[2] == FN


def with_locks(events):
    """[(event, held locks before it, session id)]"""
    held, out, sess = [], [], 0
    for e in events:
        if e.kind == "acquire":
            out.append((e, tuple(held), sess))
            held.append(e.a)
            sess += 1
        elif e.kind == "release":
            if e.a in held:
                held.remove(e.a)
            out.append((e, tuple(held), sess))
        else:
            out.append((e, tuple(held), sess))
    return out, held


SHARED = ("dict", "deque", "list", "set")
ACCESS = ("setitem", "getitem", "get", "popitem", "delitem", "setdefault", "contains", "clear", "append", "take", "__getitem__", "__setitem__", "__delitem__")


def shared_access(e):
    if e.kind in ACCESS and isinstance(e.a, tuple) and e.a[0] == "alloc" and e.a[2] in SHARED:
        return e.a
    if e.kind.startswith("dict-") and e.a[0] == "alloc":
        return e.a
    if e.kind == "call" and e.a[0] == "glob" and e.a[1] in ("builtins.len", "copy.deepcopy", "builtins.sorted"):
        for p in e.b:
            if p[0] == "alloc" and p[2] in SHARED:
                return p
    return None


def sentinel(v):
    return v[0] == "glob" or (v[0] == "alloc" and v[2] == "object")


def loc(e, w):
    return f"src/spey/system/cache.py:{getattr(e.node, 'lineno', w.clo.node.lineno)}"


def check_protocol(ctx, w):
    name = f"{MOD}.{w.clo.name}[{'per instance' if w.per_instance else 'function'}]"
    bad = {}

    def fail(rule, e, msg):
        bad.setdefault(rule, (loc(e, w) if e is not None else w.where, msg))

    rules = ["user-code-unlocked", "wait-unlocked", "no-relock", "lock-balanced", "shared-state-locked", "sentinel-cleared", "event-set", "event-after-entry", "one-cleanup-section",
             "order-finished-only", "evict-limit", "failure-propagates", "waiter-rechecks", "no-sentinel-returned", "clear-finished-only", "computed-once", "evicted-entry-removed"]
    roles = set()
    ncalls = 0
    shared = {v for fr in w.state.frames.values() for v in fr.values() if isinstance(v, tuple) and v[0] == "alloc" and v[2] in SHARED}
    shared |= {v for v in w.state.heap.values() if isinstance(v, tuple) and v and v[0] == "alloc" and v[2] in SHARED}
    allev = [e for events, _, _ in w.paths for e in events]
    uses_mark = any((e.kind == "setitem" and sentinel(e.c)) or (e.kind == "assume" and e.a[0] == "cmp" and any(sentinel(y) for y in e.a[2:4]) and any(y[0] in ("item", "get") and y[1] in shared for y in e.a[2:4])) for e in allev)
    evd0 = {e.a for e in allev if e.kind == "setitem" and e.c[0] == "alloc" and e.c[2] == "event"} | {e.a[1][1] for e in allev if e.kind == "call" and e.a[0] == "attr" and e.a[2] == "wait" and e.a[1][0] in ("item", "get")}
    order = {x for x in shared if x[2] == "deque"} | {e.a for e in allev if e.kind == "append" and e.a in shared}
    for events, ret, ex in w.paths:
        evs, held_end = with_locks(events)
        stored = [(e, s) for e, h, s in evs if e.kind == "setitem" and is_result(e.c) and e.a in shared]
        if stored and order and not any(e.kind == "append" and e.a in order and e.b == stored[0][0].b for e in events):
            fail("evict-limit", stored[0][0], "a finished entry is never queued for eviction, the cache grows without limit")
        if held_end:
            fail("lock-balanced", events[-1], "the lock is still held when the call ends")
        live = {}      # (dict, key) -> event that placed the sentinel
        cleared = {}   # (dict, key) -> (index, session)
        evalloc = {}   # event alloc -> [index of set]
        placed = {}    # event alloc -> (dict, key)
        takes = []
        for i, (e, held, sess) in enumerate(evs):
            if e.kind == "call" and e.a == FN:
                ncalls += 1
                if held:
                    fail("user-code-unlocked", e, "the cached function runs while the cache lock is held")
            if e.kind == "call" and e.a[0] == "func" and e.a[1].node is w.clo.node and held:
                fail("no-relock", e, "the cached call is retried while the cache lock is held (the lock is not re-entrant)")
            if e.kind in ("event-wait",) or (e.kind == "call" and e.a[0] == "attr" and e.a[2] in ("wait", "join")):
                if held:
                    fail("wait-unlocked", e, "a thread waits for another one while it holds the cache lock")
            if e.kind == "acquire" and e.a in held and e.a[2] != "rlock":
                fail("no-relock", e, "the cache lock is acquired twice by one thread")
            a = shared_access(e)
            if a is not None and a in shared and not held:
                fail("shared-state-locked", e, "shared cache state is accessed without the lock")
            if e.kind == "setitem":
                if sentinel(e.c):
                    live[(e.a, e.b)] = e
                    cleared.pop((e.a, e.b), None)
                    roles.add(("cache", e.a))
                elif is_result(e.c) or (e.a, e.b) in live:
                    roles.add(("cache", e.a))
                    cleared[(e.a, e.b)] = (i, sess)
                if e.c[0] == "alloc" and e.c[2] == "event":
                    placed[e.c] = (e.a, e.b)
                    evalloc.setdefault(e.c, [])
                    roles.add(("events", e.a))
            if e.kind in ("delitem", "popitem", "__delitem__") and (e.a, e.b) in live:
                cleared[(e.a, e.b)] = (i, sess)
            if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] in ("is", "==", "in"):
                # the entry is known not to hold the sentinel any more
                for (d, k) in live:
                    for x, y in ((e.a[2], e.a[3]), (e.a[3], e.a[2])):
                        if x[0] in ("get", "item") and x[1] == d and x[2] == k and sentinel(y) and e.b is False:
                            cleared[(d, k)] = (i, sess)
                    if e.a[1] == "in" and e.a[2] == k and e.a[3] == d and e.b is False:
                        cleared[(d, k)] = (i, sess)
            if e.kind == "event-set":
                evalloc.setdefault(e.a, []).append(i)
            if e.kind == "append" and e.a in shared:
                roles.add(("order", e.a))
                ks = [(d, k) for (d, k) in live if k == e.b]
                for dk in ks:
                    if dk not in cleared:
                        fail("order-finished-only", e, "an unfinished computation is queued for eviction")
                    elif cleared[dk][1] != sess:
                        fail("order-finished-only", e, "the entry and its place in the eviction order are published in different critical sections")
                # eviction follows
                limited = None
                for e2, _, _ in evs[i + 1:]:
                    if e2.kind == "assume" and e2.a[0] == "cmp":
                        op, x, y = e2.a[1], e2.a[2], e2.a[3]
                        sizes = [z for z in (x, y) if is_len(z, e.a)]
                        if sizes:
                            flip = sizes[0] == y
                            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
                            if (o, e2.b) in ((">", False), ("<=", True)):
                                limited = True
                            elif (o, e2.b) in ((">", True), ("<=", False)):
                                limited = "more"
                            else:
                                limited = ("op", o)
                        elif op == "is" and NONE in (x, y):
                            if e2.b is True:
                                limited = True
                if limited is None:
                    roles.add(("unlimited", e.a))
                elif limited == "more":
                    fail("evict-limit", e, "eviction stops while there are more entries than the limit")
                elif isinstance(limited, tuple):
                    fail("evict-limit", e, f"eviction stops on the wrong size condition ({limited[1]} instead of >)")
            if e.kind == "clear" and e.a in shared:
                if ("cache", e.a) in roles or ("events", e.a) in roles:
                    fail("clear-finished-only", e, "every entry is dropped, including computations in progress")
        for dk, e in live.items():
            if dk not in cleared:
                fail("sentinel-cleared", e, "on " + ("the failing" if ex is not None else "a returning") + " path the in-progress mark placed here is never replaced or removed")
        for a, (d, k) in placed.items():
            sets = evalloc.get(a, [])
            if not sets:
                fail("event-set", None, "on " + ("the failing" if ex is not None else "a returning") + " path threads waiting for this computation are never woken")
            for dk, (i, sess) in cleared.items():
                if dk in live and sets and min(sets) < i:
                    fail("event-after-entry", evs[min(sets)][0], "waiting threads are woken before the entry is final")
            # events entry removed together with the sentinel
            rem = [(i, s) for i, (e, h, s) in enumerate(evs) if e.kind in ("popitem", "delitem") and e.a == d and e.b == k]
            for dk, (i, sess) in cleared.items():
                if dk in live and rem and all(s != sess for _, s in rem):
                    fail("one-cleanup-section", evs[rem[0][0]][0], "the entry and its wake-up event are removed in different critical sections")
        called = [i for i, (e, h, s) in enumerate(evs) if e.kind == "call" and e.a == FN]
        if uses_mark and called:
            marks = [(i, e, s) for i, (e, h, s) in enumerate(evs[:called[0]]) if e.kind == "setitem" and sentinel(e.c)]
            if not marks:
                fail("computed-once", evs[called[0]][0], "the cached function runs without an in-progress mark: concurrent calls compute again")
            else:
                i, e, s = marks[-1]
                know = absent(evs[:i], e.a, e.b, s)
                if know is not True:
                    fail("computed-once", e, "the in-progress mark is placed without checking in the same critical section that there is no entry")
                if evd0 and not any(e2.kind == "setitem" and e2.a in evd0 and e2.b == e.b and s2 == s for e2, _, s2 in evs):
                    fail("computed-once", e, "the wake-up event is not published together with the in-progress mark")
            if len(called) > 1:
                fail("computed-once", evs[called[1]][0], "the cached function runs twice in one call")
        for i, (e, h, s) in enumerate(evs):
            if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] in ("is", "==") and e.b is True and any(sentinel(y) for y in e.a[2:4]) and any(y[0] in ("item", "get") and y[1] in shared for y in e.a[2:4]) and not live:
                if not any(e2.kind == "event-wait" or (e2.kind == "call" and e2.a[0] == "attr" and e2.a[2] == "wait") for e2, _, _ in evs):
                    fail("computed-once", e, "a call that finds a computation in progress does not wait for it")
                break
        for e in events:
            if e.kind == "call" and e.a[0] == "func" and e.a[1].node is w.clo.node and (e.b != (("star", ("param", "args")),) or e.c != ((None, ("param", "kwargs")),)):
                fail("waiter-rechecks", e, "the call is retried with other arguments")
        for i, (e, h, s) in enumerate(evs):
            if e.kind == "assume" and e.a[0] == "cmp":
                for q in order:
                    sz = [z for z in e.a[2:4] if is_len(z, q)]
                    if sz:
                        op, flip = e.a[1], sz[0] == e.a[3]
                        o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
                        if (o, e.b) in ((">", True), ("<=", False)):
                            rest = evs[i + 1:]
                            took = [e2 for e2, _, _ in rest if e2.kind == "take" and e2.a == q]
                            drop = [e2 for e2, _, _ in rest if e2.kind in ("popitem", "delitem") and e2.b and e2.b[0] == "taken" and e2.b[1] == q]
                            if not took or not drop:
                                fail("evicted-entry-removed", e, "the number of entries exceeds the limit and no entry is removed")
        thrown = [e for e, h, s in evs if e.kind == "thrown" and e.a == FN]
        if thrown and ex is None:
            fail("failure-propagates", thrown[0], "an exception of the cached function does not reach the caller")
        waits = [i for i, (e, h, s) in enumerate(evs) if e.kind == "event-wait" or (e.kind == "call" and e.a[0] == "attr" and e.a[2] == "wait")]
        if waits:
            for i, (e, h, sess) in enumerate(evs):
                if i > waits[-1] and e.kind == "getitem" and ("cache", e.a) in roles | {("cache", x) for k, x in roles if k == "cache"}:
                    ok = any(e2.kind == "assume" and e2.a == ("cmp", "in", e.b, e.a) and e2.b and s2 == sess for e2, _, s2 in evs[:i])
                    if not ok:
                        fail("waiter-rechecks", e, "a woken thread reads the entry without checking that it is there (the computation may have failed or been evicted)")
        if ex is None:
            for v in walk(ret):
                if v[0] in ("item", "get") and v[1] in shared:
                    conds = [e2 for e2, _, _ in evs if e2.kind == "assume" and e2.a[0] == "cmp" and e2.a[1] in ("is", "==") and any(x[0] in ("item", "get") and x[1:3] == v[1:3] for x in e2.a[2:4]) and any(sentinel(y) for y in e2.a[2:4])]
                    if not conds:
                        fail("no-sentinel-returned", evs[-1][0], "a looked-up entry is returned without checking that its computation has finished")
                    elif conds[-1].b is True:
                        fail("no-sentinel-returned", conds[-1], "the in-progress mark is returned as if it were a result")
    caches = {x for k, x in roles if k == "cache"}
    for c, paths in w.siblings:
        if c.name == "cache_clear" and caches:
            if not any(e.kind in ("popitem", "delitem", "clear") and e.a in caches or e.kind == "take" for ev, _, _ in paths for e in ev):
                fail("clear-finished-only", None, "cache_clear removes nothing")
            for ev, ret, ex in paths:
                end = [e for e in ev if e.kind == "assume" and e.a in order]
                if end and end[-1].b is True:
                    fail("clear-finished-only", end[-1], "cache_clear stops while there are entries")
                for e in ev:
                    if e.kind == "take" and not any(e2.kind in ("popitem", "delitem") and e2.a in caches and e2.b[0] == "taken" for e2 in ev):
                        fail("clear-finished-only", e, "cache_clear forgets the order of entries it does not remove")
    evd = {x for k, x in roles if k == "events"}
    for c, paths in w.siblings:
        for events, ret, ex in paths:
            evs, held_end = with_locks(events)
            if held_end:
                fail("lock-balanced", events[-1], f"{c.name} ends with the lock held")
            for e, held, sess in evs:
                a = shared_access(e)
                if a is not None and a in shared and not held:
                    fail("shared-state-locked", e, f"{c.name} accesses shared cache state without the lock")
                if e.kind == "clear" and e.a in caches | evd:
                    fail("clear-finished-only", e, f"{c.name} drops computations in progress")
                if e.kind in ("popitem", "delitem") and e.a in evd:
                    fail("clear-finished-only", e, f"{c.name} removes the wake-up event of a computation in progress")
                if e.kind in ("popitem", "delitem") and e.a in caches and e.b[0] == "elem":
                    if not any(e2.kind == "assume" and any(sentinel(y) for y in e2.a[2:4] if isinstance(y, tuple)) for e2, _, _ in evs if e2.a and e2.a[0] == "cmp"):
                        fail("clear-finished-only", e, f"{c.name} drops computations in progress")
                if e.kind == "call" and e.a[0] == "attr" and e.a[2] == "wait" and held:
                    fail("wait-unlocked", e, f"{c.name} waits with the lock held")
    if not ncalls:
        for r in rules:
            ctx.undec(r, name, "no call of the cached function recognised")
        return
    if any(k == "unlimited" for k, _ in roles):
        bad.setdefault("evict-limit", (w.where, "entries are added without comparing their number with the limit"))
    if not caches or not any(isinstance(v, tuple) and v[0] == "alloc" and v[2] in ("lock", "rlock", "condition") for fr in w.state.frames.values() for v in fr.values()):
        for r in rules:
            if r in bad:
                ctx.fail(r, name, *bad[r])
            else:
                ctx.undec(r, name, "cache state or lock not recognised")
        return
    if not evd:
        bad.pop("event-set", None)
    for r in rules:
        if r in bad:
            ctx.fail(r, name, *bad[r])
        elif r in ("event-set", "event-after-entry", "one-cleanup-section", "waiter-rechecks") and not evd:
            ctx.undec(r, name, "wake-up events not recognised")
        else:
            ctx.ok(r, name, f"{len(w.paths)} paths")


def absent(evs, d, k, sess):
    """is the entry known to be absent in this critical section?"""
    r = None
    for e, h, s in evs:
        if s != sess or e.kind != "assume" or e.a[0] != "cmp":
            continue
        op, x, y = e.a[1:4]
        if op == "in" and x == k and y == d:
            r = not e.b
        for p, q in ((x, y), (y, x)):
            if op in ("is", "==") and p[0] in ("get", "item") and p[1:3] == (d, k):
                if q == NONE or q[0] in ("glob", "alloc") and not sentinel(q):
                    r = e.b
    return r


def is_len(v, q):
    return v[0] == "call" and v[2] == ("glob", "builtins.len") and v[3] and v[3][0] == q


@prop("S21", min=1, assumptions=["hashing, comparing and deep-copying of arguments and results does not call the cached function again", "threading.Lock and threading.Event behave as documented; no thread is killed asynchronously between two statements"])
def s21(ctx):
    """Typestate analysis of every cached callable the decorator can produce: all paths through it (both branches, loop unrollings, the normal and the failing exit of the cached function) are enumerated with helpers inlined, and checked against a lock/in-progress-mark/wake-up-event protocol: the lock is never held while the cached function runs or while waiting and is never taken twice, shared dictionaries and queues are touched only under it, the in-progress mark is replaced or removed and the event set on every exit in that order, only finished entries can be evicted or cleared, the number of entries is compared with the limit after each insertion, and waiters re-check the entry."""
    try:
        ws = collect(ctx)
    except Overflow as e:
        ctx.undec("protocol", MOD, str(e))
        return
    if not ws:
        ctx.undec("protocol", MOD, "no cached callable recognised")
    for w in ws:
        check_protocol(ctx, w)


# ------------------------------------------------------------------ S20
ORDERED = ("list", "tuple")


def call_name(v):
    if v[0] in ("call", "pcall"):
        f = v[2] if v[0] == "call" else v[1]
        return f[1] if f[0] == "glob" else f[1].name if f[0] == "func" else None
    return None


def call_args(v):
    return v[3] if v[0] == "call" else v[2]


def comp_of(v):
    """(container kind, comprehension) looking through list()/tuple()/sorted()/frozenset() of a comprehension"""
    if v[0] == "comp":
        return v[1], v
    n = call_name(v)
    if n and n.startswith("builtins.") and len(call_args(v)) == 1 and call_args(v)[0][0] == "comp":
        return n.split(".")[1], call_args(v)[0]
    if v[0] == "copy" and v[1][0] == "comp":
        return "tuple", v[1]
    return None, None


def determines(v, x, tok):
    """does equality of the token v imply equality of x?  True / False / None (cannot tell)"""
    if v == x:
        return True
    if not any(y == x for y in walk(v)):
        return False
    if v[0] == "tuple":
        r = [determines(y, x, tok) for y in v[1]]
        return True if True in r else None if None in r else False
    n = call_name(v)
    if n == tok and call_args(v):
        return determines(call_args(v)[0], x, tok)
    if n in ("builtins.id", "builtins.type", "builtins.len", "builtins.hash"):
        return False
    if n in ("builtins.tuple", "builtins.frozenset", "builtins.sorted") and len(call_args(v)) == 1 and call_args(v)[0][0] != "comp":
        return determines(call_args(v)[0], x, tok)
    if v[0] == "copy":
        return determines(v[1], x, tok)
    return None


def covers(v, x, kind, tok):
    """token v of a container x of the given kind determines its content"""
    k, c = comp_of(v)
    if c is None:
        if v[0] == "tuple":
            r = [covers(y, x, kind, tok) for y in v[1]]
            return True if True in r else None if None in r else False
        if v[0] == "copy" and v[1] != x:
            return covers(v[1], x, kind, tok)
        n = call_name(v)
        if n == tok and call_args(v) and call_args(v)[0] == x:
            return True
        if n and n.startswith("builtins.") and n.split(".")[1] in ("tuple", "sorted", "frozenset") and len(call_args(v)) == 1 and v != x:
            return covers(call_args(v)[0], x, kind, tok) if call_args(v)[0] != x else None
        if not any(y == x for y in walk(v)):
            return False
        if n in ("builtins.len", "builtins.id", "builtins.type", "builtins.hash"):
            return False
        return None
    _, _, elts, its, conds = c
    if len(its) != 1:
        return None
    if conds:
        return False
    it = its[0]
    if not any(y == x for y in walk(it)):
        return False
    if kind == "dict":
        el = ("elem", it)
        key, val = ("item", el, ("const", 0), 0), ("item", el, ("const", 1), 0)
        f = it[2] if it[0] == "call" else None
        meth = f[2] if f is not None and f[0] == "attr" else it[2] if it[0] == "view" else None
        elt = elts[0] if len(elts) == 1 else ("tuple", tuple(elts))
        if meth == "items":
            a, b = determines(elt, key, tok), determines(elt, val, tok)
            whole = determines(elt, el, tok)
            if whole:
                return True
            if a is False or b is False:
                return False
            return True if a and b else None
        if meth == "values":
            return False
        if meth == "keys" or it == x:
            a = determines(elt, el, tok)
            vs = [y for y in walk(elt) if y[0] == "item" and y[1] == x]
            return (True if a else None) if vs else False
        return None
    if kind in ORDERED and k in ("set", "frozenset", "sorted"):
        return False
    if it != x:
        return None
    return determines(elts[0], ("elem", it), tok)


STRONG = {"sha256", "sha1", "sha512", "sha384", "sha224", "blake2b", "blake2s", "md5", "sha3_256", "sha3_512", "tobytes", "dumps", "tolist", "bytes"}
WEAK = {"crc32", "adler32", "sum", "mean", "min", "max", "repr", "str", "array2string", "array_repr", "array_str", "id", "hash", "len", "norm", "round"}


def array_token(v, x):
    """(ok, message) for the token of a numeric array"""
    dtype = shape = content = None
    weak = None
    for y in walk(v):
        if y[0] == "attr" and y[2] == "shape":
            shape = True
        if y[0] == "attr" and y[2] == "dtype":
            dtype = dtype or "whole"
        if y[0] == "attr" and y[1][0] == "attr" and y[1][2] == "dtype":
            dtype = y[2]
        n = call_name(y)
        f = y[2] if y[0] == "call" else None
        last = n.split(".")[-1] if n else f[2] if f is not None and f[0] == "attr" else None
        if last in STRONG:
            content = content or last
        if last in WEAK and any(z == x for z in walk(y)):
            weak = last
        if y[0] == "op" and y[1] == "slice" and any(z == x for z in walk(y)):
            weak = "slice"
        if y[0] == "item" and y[1] == x:
            weak = "item"
    if not any(y == x for y in walk(v)):
        return False, "the token does not depend on the array"
    if shape is None and content != "tolist":
        return False, "arrays of different shape and equal bytes share a key"
    if dtype in ("itemsize", "kind", None) and content not in ("tolist", "dumps"):
        return False, "arrays of different type and equal bytes share a key"
    if content is None:
        return (False, f"the content enters only through {weak}") if weak else (None, "content digest not recognised")
    if weak in ("slice", "item"):
        return False, "only part of the content enters the key"
    return True, ""


def is_object_dtype(c):
    if c[0] == "attr":
        return c[2] == "hasobject"
    if c[0] == "cmp" and c[1] in ("==", "is"):
        return any(y in (("glob", "builtins.object"), ("const", "O"), ("const", "object")) for y in c[2:4])
    return False


def isinstance_assumptions(events, x):
    out = []
    for e in events:
        if e.kind == "assume" and call_name(e.a) == "builtins.isinstance" and call_args(e.a)[0] == x:
            c = call_args(e.a)[1]
            names = [c] if c[0] != "tuple" else list(c[1])
            out.append(({(n[1] if n[0] == "glob" else "?").split(".")[-1] for n in names}, e.b))
    return out


def tokens(ctx):
    """the argument tokenisation, branch by branch"""
    f = ctx.func(MOD + "._make_token") if "_make_token" in ctx.project.modules[MOD].functions else None
    if f is None:
        ctx.undec("token", MOD, "no tokenising function")
        return
    tok = f.name
    x = ("param", "obj")
    m = CacheMachine(ctx.project, lambda mm, s, g, pos, node: g == ("glob", "builtins.hash"), inline=lambda c: c.node is not f.node)
    paths = [(s.events, v, ex) for s, v, ex in m.enter(State(), m.closure(f.node, f.module, ())[1], (x,), (), f.node)]
    for dom in ("ndarray", "dict", "list", "tuple", "set", "frozenset", "scalar"):
        sel = []
        for events, v, ex in paths:
            if ex is not None:
                continue
            if all((dom in names) == b for names, b in isinstance_assumptions(events, x) if "?" not in names):
                sel.append((events, v))
        c = f"{f.qual}[{dom}]"
        if not sel:
            ctx.undec("token", c, "no path")
            continue
        res = []
        for events, v in sel:
            if dom == "ndarray":
                if v == x:
                    continue  # not hashable
                r, msg = array_token(v, x)
                if any(y[0] == "attr" and y[2] in ("data",) or call_name(y) == "builtins.memoryview" or (y[0] == "call" and y[2][0] == "attr" and y[2][2] == "tobytes") for y in walk(v)):
                    dt = [e for e in events if e.kind == "assume" and any(y[0] == "attr" and y[2] == "dtype" for y in walk(e.a))]
                    if not dt or any(is_object_dtype(e.a) and e.b is True for e in dt):
                        r, msg = False, "the buffer of an object array holds addresses, not its content"
            elif dom == "scalar":
                caught = any(e.kind == "caught" for e in events)
                r = True if v == x else determines(v, x, tok)
                if r is None and call_name(v) in ("builtins.repr", "builtins.str"):
                    r = True if caught or call_name(v) == "builtins.repr" else None
                msg = "the token of a plain value does not determine it"
            else:
                if v == x and dom in ("list", "dict", "set"):
                    continue  # not hashable
                r = True if v == x else covers(v, x, dom, tok)
                if call_name(v) in ("builtins.repr", "builtins.str") and dom != "frozenset":
                    r = False  # nested arrays are abbreviated
                msg = {"dict": "two dictionaries that differ in a key or a value share a token", "list": "two sequences that differ in content or order share a token", "tuple": "two sequences that differ in content or order share a token"}.get(dom, "two sets that differ share a token")
                if dom == "dict" and r and v[0] != "tuple":
                    r, msg = False, "a dictionary and a set of its items share a token"
            res.append((r, msg, events, v))
        if not res:
            ctx.undec("token", c, "no path")
            continue
        badp = [z for z in res if z[0] is False]
        if badp:
            ctx.fail("token", c, f.loc(), badp[0][1] + ": " + show(badp[0][3], 6)[:300])
        elif any(z[0] is None for z in res):
            ctx.undec("token", c, "token not recognised: " + show([z for z in res if z[0] is None][0][3], 6)[:300])
        else:
            ctx.ok("token", c, f"{len(res)} paths")
    # the key of a whole call
    fns = ctx.project.modules[MOD].functions
    if "_build_key" in fns:
        g = ctx.func(MOD + "._build_key")
        names = g.params()
        if len(names) == 2:
            a, k = ("param", "args"), ("param", "kwargs")
            m = CacheMachine(ctx.project, inline=lambda c: False)
            for s, v, ex in m.enter(State(), m.closure(g.node, g.module, ())[1], (a, k), (), g.node):
                for what, val, kind in (("args", a, "tuple"), ("kwargs", k, "dict")):
                    r = covers(v, val, kind, tok)
                    c = f"{g.qual}[{what}]"
                    if r:
                        ctx.ok("key", c)
                    elif r is False:
                        ctx.fail("key", c, g.loc(), f"the key does not determine the {'positional' if what == 'args' else 'keyword'} arguments: {show(v, 7)[:300]}")
                    else:
                        ctx.undec("key", c, "key not recognised")
        else:
            ctx.undec("key", g.qual, "unexpected parameters")
    else:
        ctx.undec("key", MOD, "no key function")


def wrapper_values(ctx, w):
    name = f"{MOD}.{w.clo.name}[{'per instance' if w.per_instance else 'function'}]"
    bad, und = {}, {}
    A, K = ("param", "args"), ("param", "kwargs")
    ncall = nhit = 0
    copyflag = None
    for events, ret, ex in w.paths:
        evs, _ = with_locks(events)
        keys = []
        caches = set()
        for e, h, s in evs:
            if e.kind == "setitem" and (sentinel(e.c) or is_result(e.c) or any(is_result(y) for y in walk(e.c))):
                caches.add(e.a)
                keys.append((e.b, e))
                if is_result(e.c) or any(is_result(y) for y in walk(e.c)):
                    ncall += 1
            if e.kind == "call" and e.a == FN:
                vals = [y for p in e.b for y in walk(p)] + [y for _, p in e.c for y in walk(p)]
                if A not in vals or K not in vals:
                    bad["arguments"] = (loc(e, w), "the cached function is not called with the arguments of the call")
                if w.per_instance and ("param", "obj") not in e.b:
                    bad["arguments"] = (loc(e, w), "the cached method is not called on its own instance")
                elif w.per_instance and e.b[0] != ("param", "obj"):
                    bad["arguments"] = (loc(e, w), "the instance is not the first argument of the cached method")
            if e.kind == "thrown" and e.a == FN:
                pass
        for k, e in keys:
            vals = list(walk(k))
            if A not in vals or K not in vals:
                bad["key-arguments"] = (loc(e, w), f"the key does not depend on the {'positional' if A not in vals else 'keyword'} arguments: {show(k, 6)[:200]}")
            bound = {y[2] for y in vals if y[0] == "attr" and y[1][0] == "call" and y[1][2][0] == "attr" and y[1][2][2] == "bind"}
            if bound and "arguments" not in bound and not {"args", "kwargs"} <= bound:
                bad["key-arguments"] = (loc(e, w), f"only {sorted(bound)} of the bound arguments enter the key")
        if len({k for k, _ in keys}) > 1:
            bad["one-key"] = (loc(keys[-1][1], w), "an entry is stored under a key different from the one that was looked up")
        # looked-up keys
        for e, h, s in evs:
            if e.kind in ("getitem", "get", "contains") and e.a in caches and keys and e.b != keys[0][0] and e.kind != "contains":
                bad["one-key"] = (loc(e, w), "an entry is read under a key different from the one it is stored under")
        stores = [e for e, h, s in evs if e.kind == "setitem" and e.a in caches and not sentinel(e.c)]
        if ex is None:
            hit = [v for v in walk(ret) if v[0] in ("item", "get") and v[1][0] == "alloc"]
            res = [v for v in walk(ret) if is_result(v)]
            cond = [e for e, h, s in evs if e.kind == "assume" and ("param", "copy_on_return") == e.a]
            want = cond[-1].b if cond else None
            if hit or (res and stores):
                nhit += 1
                top = call_name(ret)
                copied = top == "copy.deepcopy"
                stored_copy = res and stores and all(call_name(e.c) == "copy.deepcopy" for e in stores)
                if want is True and not copied and not (res and stored_copy):
                    bad["copy"] = (w.where, "with copy_on_return the object kept in the cache is handed out")
                elif want is None and not copied and not (res and stored_copy):
                    bad["copy"] = (w.where, "the object kept in the cache is handed out whether or not copies were requested")
                elif top in ("copy.copy",) or ret[0] == "copy":
                    bad["copy"] = (w.where, "only a shallow copy of the cached object is handed out")
            elif res and not stores:
                bad["stored"] = (w.where, "a path returns a computed result without storing it")
            elif not hit and not res:
                rec = any(e.kind == "call" and e.a[0] == "func" and e.a[1].node is w.clo.node for e, h, s in evs)
                if not rec:
                    if ret[0] == "const":
                        bad["value"] = (w.where, f"a path returns {ret[1]!r} instead of the result")
                    else:
                        und["value"] = "returned value not recognised: " + show(ret, 5)[:200]
        else:
            for e in stores:
                if any(is_result(y) for y in walk(e.c)):
                    pass
    # allocation: which activation owns the dictionary
    for events, ret, ex in w.paths:
        for e in events:
            if e.kind == "setitem" and sentinel(e.c) and e.a[0] == "alloc" and w.per_instance and e.a[1] <= w.before:
                bad["own-cache"] = (loc(e, w), "the dictionary of entries is shared by all instances")
            if e.kind == "setitem" and sentinel(e.c) and e.a[0] in ("glob", "attr"):
                bad["own-cache"] = (loc(e, w), "the dictionary of entries is shared")
    shared = {v for fr in w.state.frames.values() for v in fr.values() if isinstance(v, tuple) and v[0] == "alloc" and v[2] in SHARED}
    for c, paths in w.siblings:
        for events, ret, ex in paths:
            if ret in shared or (ret[0] == "copy" and ret[1] in shared) or (call_name(ret) == "copy.copy" and any(y in shared for y in walk(ret))):
                bad["copy"] = (f"src/spey/system/cache.py:{c.node.lineno}", f"{c.name} hands out the cache itself")
    for r in ("arguments", "key-arguments", "one-key", "copy", "stored", "value", "own-cache"):
        if r in bad:
            ctx.fail(r, name, *bad[r])
        elif not ncall or not nhit or r in und:
            ctx.undec(r, name, und.get(r, "cached value not recognised"))
        else:
            ctx.ok(r, name)


def descriptor(ctx, w):
    """the per-instance descriptor hands each instance its own callable, also after copying"""
    if w.get_paths is None:
        return
    cls, get, paths, n = w.get_paths
    obj = ("param", "obj")
    c = get.qual
    bad = None
    stored_in_dict = False
    for events, ret, ex in paths:
        for e in events:
            if e.kind == "setitem" and any(y == ("attr", obj, "__dict__", 0) for y in walk(e.a)):
                stored_in_dict = True
            if e.kind == "call" and e.a[0] == "glob" and e.a[1] == "builtins.setattr" and e.b and e.b[0] == obj:
                stored_in_dict = True
            if e.kind == "setattr" and e.a == obj:
                stored_in_dict = True
    names = {y[2] for events, _, _ in paths for e in events if e.kind == "assume" and e.a[0] == "cmp" and obj in e.a[2:4] for y in e.a[2:4] if y[0] == "attr"}
    for events, ret, ex in paths:
        if ex is not None or ret == FN or ret[0] == "const":
            continue
        src = [y for y in walk(ret) if y == ("attr", obj, "__dict__", 0)]
        stored = [e for e in events if e.kind == "setitem" and any(y == ("attr", obj, "__dict__", 0) for y in walk(e.a)) and e.c == ret]
        if stored and names and not src and not any(e.kind == "setattr" and e.b in names and e.c == obj and e.a == ret for e in events):
            bad = "a new callable is stored without naming the instance it was made for, which the owner check relies on"
        if src:
            owner = [e for e in events if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] in ("is", "==") and obj in e.a[2:4] and NONE not in e.a[2:4] and any(y == ret or ret in walk(y) for y in e.a[2:4])]
            if not owner:
                bad = "the callable found in the instance dictionary is served without checking that it was made for this instance (copies inherit the dictionary)"
            elif owner[-1].b is False:
                bad = "a callable made for another instance is served"
    if stored_in_dict and not bad and ctx.project.method(cls, "__set__") is None:
        bad = "the callable is stored under the name of a non-data descriptor, later look-ups bypass the owner check (copies inherit the dictionary)"
    if bad:
        ctx.fail("instance-owner", c, get.loc(), bad)
    else:
        ctx.ok("instance-owner", c)


def users(ctx):
    """how the library uses the decorator"""
    n = 0
    for f in ctx.project.all_functions():
        for d in f.decorators:
            call = d if isinstance(d, ast.Call) else None
            name = dotted(call.func if call else d).split(".")[-1]
            if name in ("lru_cache", "cache") and f.cls is None:
                continue
            if name in ("lru_cache", "cache"):
                ctx.fail("users", f.qual, f.loc(), f"{name} keys results by identity or hash of its arguments, shares them between instances and hands out the stored object")
                continue
            if name != "cache_results":
                continue
            n += 1
            ctx.functions.add(f.qual)
            kw = {k.arg: k.value for k in call.keywords} if call else {}
            v = kw.get("copy_on_return")
            if isinstance(v, ast.Constant) and v.value is False:
                ctx.fail("users", f.qual, f.loc(), "cached results are handed out without copies")
            elif any(isinstance(x, ast.Call) and dotted(x.func).split(".")[-1] in ("get_sampler", "sample", "rvs", "fixed_poi_sampler", "default_rng") or (isinstance(x, ast.Attribute) and dotted(x).startswith(("np.random", "numpy.random"))) for x in ast.walk(f.node)):
                ctx.fail("users", f.qual, f.loc(), "a random result is cached: repeated calls return the same sample")
            else:
                ctx.ok("users", f.qual)
    if not n:
        ctx.undec("users", "spey", "no use of the decorator")


@prop("S20", min=5, assumptions=["hashable arguments compare equal only if they are interchangeable for the cached function; process environment variables and model attributes are not arguments"])
def s20(ctx):
    """Symbolic path enumeration of the argument tokenisation (per argument type, equality of tokens must imply equality of shape, type, content and order) and of every cached callable: the key depends on all positional and keyword arguments, entries are read and written under one key, the function is called with the caller's arguments on its own instance, what is handed out is a deep copy unless copies were declined, the dictionary belongs to one function or instance, a failing computation leaves nothing behind, and the uses of the decorator in the library keep copies on and cache no random results."""
    try:
        ws = collect(ctx)
    except Overflow as e:
        ctx.undec("values", MOD, str(e))
        ws = []
    for w in ws:
        wrapper_values(ctx, w)
        descriptor(ctx, w)
        sub = Sub(ctx, ("sentinel-cleared", "failure-propagates", "no-sentinel-returned"))
        check_protocol(sub, w)
    if not ws:
        ctx.undec("values", MOD, "no cached callable recognised")
    ctx.guard("token", MOD, lambda: tokens(ctx))
    users(ctx)


class Sub:
    """forwards only some rules of a shared checker"""

    def __init__(self, ctx, rules):
        self.ctx, self.rules = ctx, rules

    def ok(self, r, *a):
        if r in self.rules:
            self.ctx.ok(r, *a)

    def fail(self, r, *a):
        if r in self.rules:
            self.ctx.fail(r, *a)

    def undec(self, r, *a):
        if r in self.rules:
            self.ctx.undec(r, *a)
