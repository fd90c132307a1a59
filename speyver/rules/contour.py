"""Likelihood contours (S25)."""
import copy

from . import prop
from .. import terms as T
from ..framework import SpecBroken

M = "spey.multiparameter.contour"
HELP = ("_find_mle", "_find_basins_contour_subspace", "_build_whitener", "_radial_search", "_detect_gap_directions", "_find_gap_starts",
        "_find_sparse_seeds", "_run_hmc_chains", "_rattle_walk", "_rattle_step", "_project_theta")
T.NUMERIC.update(("nll_scalar", "grad_nll", "to_theta", "max_r_for_dir", "hessian_fn"))
OP = tuple(f"{M}.{x}" for x in HELP)

HEAD = """
    def f(stat_model, confidence_level, poi_indices, n_radial, n_hmc_chains, n_hmc_steps, hmc_step_size, n_gap_candidates, max_radial_bracket, newton_tol,
          newton_max_iter, whitener_regularisation, random_seed, n_jobs, bounds, n_coverage_passes, coverage_knn, n_multistart, basin_dedup_tol):
        if confidence_level <= 0.0 or confidence_level >= 1.0:
            raise ValueError("")
        n_jobs = max(1, n_jobs)
        rng = np.random.default_rng(random_seed)
        cfg = stat_model.config()
        poi = cfg.poi_index
        others = [i for i in range(cfg.npar) if i != poi]
        if poi_indices is None:
            chosen = others
        else:
            chosen = sorted(set(i for i in poi_indices if i != poi))
        rest = [i for i in others if i not in set(chosen)]
        k = len(chosen)
        if k < 1:
            raise ValueError("")
        if bounds is not None and len(bounds) != k:
            raise ValueError("")
        if bounds is None:
            bounds = [cfg.suggested_bounds[i] for i in chosen]
        names = [cfg.parameter_names[i] for i in chosen] if cfg.parameter_names is not None else None
        logpdf = stat_model.backend.get_logpdf_func()
        best, nll0 = _find_mle(stat_model, others)
        place = {idx: pos for pos, idx in enumerate(others)}
        start = best[[place[i] for i in chosen]]
        rest_start = best[[place[i] for i in rest]] if rest else np.empty(0)
        if len(rest) == 0:
            def plain(x):
                return -logpdf(anp.concatenate([x[:poi], anp.array([1.0]), x[poi:]]))
            slope = autograd.grad(plain)

            def nll(x):
                return float(plain(np.asarray(x, dtype=float)))

            def grad(x):
                return np.array(slope(np.asarray(x, dtype=float)), dtype=float)
        else:
            ca = np.array(chosen, dtype=int)
            ra = np.array(rest, dtype=int)
            init = rest_start.copy()

            def whole(c, r):
                x = np.empty(cfg.npar, dtype=float)
                x[poi] = 1.0
                x[ca] = c
                x[ra] = r
                return x
            fit = stat_model.prepare_for_fit()
            limits = list(fit["model_configuration"].suggested_bounds)
            limits = [limits[i] for i in rest]
            cons = fit.get("constraints", [])

            def profiled(c):
                def obj(r):
                    return float(-logpdf(whole(c, r)))
                constraints = []
                for q in cons:
                    is_dict = isinstance(q, dict)
                    fun = q["fun"] if is_dict else q.fun

                    def wrapped(r, _f=fun, _c=c):
                        return _f(whole(_c, r))
                    if is_dict:
                        constraints.append({**{a: b for a, b in q.items() if a != "jac"}, "fun": wrapped})
                    else:
                        constraints.append(NonlinearConstraint(wrapped, q.lb, q.ub))
                res = _sp_minimize(obj, x0=init, method="SLSQP", bounds=limits, constraints=constraints, tol=1e-06, options={"maxiter": 10000, "disp": False})
                return res.x if res.success else init
            full_slope = autograd.grad(logpdf)

            def nll(x):
                c = np.asarray(x, dtype=float)
                return float(-logpdf(whole(c, profiled(c))))

            def grad(x):
                c = np.asarray(x, dtype=float)
                g = np.array(full_slope(whole(c, profiled(c))), dtype=float)
                return -g[ca]
        basins = _find_basins_contour_subspace(nll, grad, bounds, theta_primary=start, nll_primary=nll0, k=k, n_multistart=max(1, n_multistart), rng=rng, dedup_tol=basin_dedup_tol)
        nll_min = basins[0][1]
        theta = basins[0][0].copy()
        delta = float(chi2_dist.ppf(confidence_level, df=k))
        threshold = nll_min + 0.5 * delta
        active = [(t, n) for t, n in basins if n <= threshold + 1e-06]
        if not active:
            active = [(theta, nll_min)]
        hess = stat_model.backend.get_hessian_logpdf_func()
        ci = np.array(chosen, dtype=int)
        pi = np.array(rest, dtype=int) if rest else np.empty(0, dtype=int)
        knn_k = max(1, coverage_knn)

        def rest_at(c):
            if len(rest) == 0:
                return np.empty(0, dtype=float)
            return profiled(c)
        radial, walked = [], []
        for anchor, value in active:
            full = np.empty(cfg.npar, dtype=float)
            full[poi] = 1.0
            full[ci] = anchor
            if len(rest) > 0:
                full[pi] = rest_at(anchor)
            L, W = _build_whitener(hess, full, chosen, rest, k, whitener_regularisation)

            def to_theta(phi, _anchor=anchor, _M=W):
                return _anchor + _M @ phi

            def cap(e, _anchor=anchor, _M=W):
                step = _M @ e
                r = np.inf
                for i, (lo, hi) in enumerate(bounds):
                    if hi is not None and step[i] > 1e-30:
                        r = min(r, (hi - _anchor[i]) / step[i])
                    if lo is not None and step[i] < -1e-30:
                        r = min(r, (lo - _anchor[i]) / step[i])
                return float(r)
            points, dirs = _radial_search(nll, anchor, threshold, to_theta, k, n_radial, max_radial_bracket, rng, cap)
            if len(points) > 0:
                radial.append(points)
            if k == 1 or len(points) == 0:
                continue
            gaps = _detect_gap_directions(dirs, k, n_gap_candidates, n_hmc_chains, rng)
            starts = _find_gap_starts(gaps, nll, anchor, threshold, to_theta, max_radial_bracket, cap, points, dirs)
            if len(starts) == 0:
                hmc = np.empty((0, k), dtype=float)
            else:
                hmc = _run_hmc_chains(nll, grad, threshold, np.array(starts, dtype=float), n_hmc_steps, hmc_step_size, newton_tol, newton_max_iter, rng, n_jobs, bounds)
            parts = []
            if len(points) > 0:
                parts.append(points)
            if len(hmc) > 0:
                parts.append(hmc)
            seen = np.vstack(parts) if parts else np.empty((0, k), dtype=float)
            for i in range(n_coverage_passes - 1):
                sparse = _find_sparse_seeds(seen, n_hmc_chains, knn_k, rng)
                if sparse is None or len(sparse) == 0:
                    break
                new = _run_hmc_chains(nll, grad, threshold, sparse, n_hmc_steps, hmc_step_size, newton_tol, newton_max_iter, rng, n_jobs, bounds)
                if len(new) > 0:
                    hmc = np.vstack([hmc, new]) if len(hmc) > 0 else new
                    seen = np.vstack([seen, new])
            if len(hmc) > 0:
                walked.append(hmc)
        a = np.vstack(radial) if radial else np.empty((0, k), dtype=float)
        b = np.vstack(walked) if walked else np.empty((0, k), dtype=float)
        if len(a) > 0 and len(b) > 0:
            pts = np.vstack([a, b])
            src = np.concatenate([np.ones(len(a), dtype=bool), np.zeros(len(b), dtype=bool)])
        elif len(a) > 0:
            pts, src = a, np.ones(len(a), dtype=bool)
        elif len(b) > 0:
            pts, src = b, np.zeros(len(b), dtype=bool)
        else:
            pts, src = np.empty((0, k), dtype=float), np.empty(0, dtype=bool)
        return ContourResult(theta_mle=theta, nll_min=nll_min, threshold=threshold, delta=delta, contour_points=pts, from_radial=src, parameter_names=names, confidence_level=confidence_level, dof=k)
"""

FIELDS = ("theta_mle", "nll_min", "threshold", "delta", "parameter_names", "confidence_level", "dof", "contour_points", "from_radial")


def fielder(name):
    def pick(v):
        return each(v, lambda t: leaf(t, name))
    return pick


def each(v, g):
    if v.op == "ite":
        return T.ite(v.args[0], each(v.args[1], g), each(v.args[2], g))
    return g(v)


def leaf(t, name):
    if t.op == "call" and t.args[0].op == "fn" and t.args[0].args[0].endswith("ContourResult"):
        for k, v in t.args[2]:
            if k == name:
                return v
    return t


@prop("S25", min=10)
def s25(ctx):
    """Value-numbers the contour driver and its helpers: level, domain, fixed signal strength, profile and bounds handling, coordinate order, and the tests that every reported point has to pass."""
    some = lambda n: T.raw("list", T.star(T.sym(n + "*")))
    f = ctx.func(M + ".find_contour")
    for tag, bind in (("all parameters", {"poi_indices": T.NONE, "bounds": T.NONE}), ("chosen", {"poi_indices": some("poi_indices"), "bounds": some("bounds")})):
        ctx.guard("result", f"{f.qual}[{tag}]", lambda: driver(ctx, f, tag, bind))
    ctx.defaults("default", f, confidence_level=0.95, n_radial=300, n_hmc_chains=10, n_hmc_steps=500, newton_tol=1e-9, newton_max_iter=100, max_radial_bracket=30.0, n_coverage_passes=2, poi_indices=None, bounds=None, random_seed=None)
    helpers(ctx)


def stages(t):
    """Results of the stages as plain names: the arguments of each stage are compared at its own call."""
    m = {}
    for x in T.walk(t):
        if x.op == "call" and x.args[0].op == "fn" and x.args[0].args[0] in OP:
            m[x] = T.sym("result of " + x.args[0].args[0].rpartition(".")[2])
    return T.subst(t, m) if m else t


def outer_stages(e):
    f, a, k = e.term.args
    t = T.raw("call", f, tuple(stages(x) for x in a), tuple((n, stages(x)) for n, x in k))
    e2 = copy.copy(e)
    e2.term = t
    e2.guard = stages(e.guard)
    return e2


class Shown:
    def __init__(self, events):
        self.events = events


def driver(ctx, f, tag, bind):
    try:
        s = ctx.spec(HEAD, f, None, (), OP, bind)
    except SpecBroken as e:
        return ctx.undec("result", f"{f.qual}[{tag}]", str(e))
    o = ctx.run(f, None, (), OP, bind)
    a, b = o.value(), s.value()
    for name in FIELDS:
        ctx.same("result", f"{f.qual}[{tag}: {name}]", stages(each(a, lambda t: leaf(t, name))), stages(each(b, lambda t: leaf(t, name))), f.loc(), False)
    sel = lambda out: Shown([outer_stages(e) for e in out.events if e.kind.endswith("call") and e.term.op == "call" and e.term.args[0].op == "fn" and e.term.args[0].args[0] in OP] + [e for e in out.events if not e.kind.endswith("call")])
    o, s = sel(o), sel(s)
    for c in ("_find_mle", "_find_basins_contour_subspace", "_build_whitener", "_radial_search", "_find_gap_starts", "_run_hmc_chains"):
        ctx.match_calls("stages", f"{f.qual}[{tag}]", f, o, s, c)



MLE = """
    def f(stat_model, idx):
        pars, nll = stat_model.maximize_likelihood(poi_indices=idx, return_nll=True, fixed_poi_value=1.0)
        out = np.array([pars[i] for i in idx], dtype=float)
        nll = float(nll)
        if not np.isfinite(nll):
            raise RuntimeError("")
        return (out, nll)
"""

BASINS = """
    def f(nll, grad, bounds, primary, nll0, k, n, rng, span, tol):
        results = [(np.asarray(primary, dtype=float).copy(), float(nll0))]
        extra = max(0, int(n) - 1)
        for i in range(extra):
            start = np.empty(k, dtype=float)
            for j, (lo, hi) in enumerate(bounds):
                a = lo if (lo is not None and np.isfinite(lo)) else None
                b = hi if (hi is not None and np.isfinite(hi)) else None
                if a is not None and b is not None:
                    start[j] = float(rng.uniform(a, b))
                elif a is not None:
                    start[j] = float(a + rng.uniform(0.0, span))
                elif b is not None:
                    start[j] = float(b - rng.uniform(0.0, span))
                else:
                    start[j] = float(primary[j] + rng.uniform(-span, span))
            lim = [(lo if (lo is not None and np.isfinite(lo)) else None, hi if (hi is not None and np.isfinite(hi)) else None) for lo, hi in bounds]
            try:
                res = _sp_minimize(nll, x0=start, jac=grad, method="L-BFGS-B", bounds=lim, options={"maxiter": 500, "ftol": 1e-10, "gtol": 1e-08})
            except Exception as exc:
                continue
            if not np.isfinite(res.fun):
                continue
            results.append((np.asarray(res.x, dtype=float).copy(), float(res.fun)))
        results.sort(key=lambda t: t[1])
        unique = []
        for theta, value in results:
            new = True
            for u, other in unique:
                if float(np.linalg.norm(theta - u)) < tol:
                    new = False
                    break
            if new:
                unique.append((theta, value))
        return unique
"""

RADIAL = """
    def f(nll, best, threshold, to_theta, k, n, cap, rng, bound):
        v = nll(best)
        if v >= threshold:
            return (np.empty((0, k), dtype=float), np.empty((0, k), dtype=float))
        r0 = float(np.sqrt(max(threshold - v, 1.0) * 2.0))
        pts, dirs = [], []
        for i in range(n):
            z = rng.standard_normal(size=k)
            norm = np.linalg.norm(z)
            if norm < 1e-15:
                continue
            e = z / norm

            def g(r):
                return nll(to_theta(r * e)) - threshold
            m = min(cap, bound(e) if bound is not None else np.inf)
            if m < 1e-10:
                continue
            lo, hi = 1e-08, min(r0, m)
            try:
                if g(lo) >= 0.0:
                    continue
            except Exception:
                continue
            try:
                while g(hi) <= 0.0 and hi < m:
                    hi = min(hi * 2.0, m)
                if g(hi) <= 0.0:
                    continue
            except Exception:
                continue
            try:
                res = root_scalar(g, bracket=[lo, hi], method="brentq", xtol=1e-12, rtol=1e-12)
            except ValueError:
                continue
            if res.converged:
                pts.append(to_theta(res.root * e))
                dirs.append(e)
        if not pts:
            return (np.empty((0, k), dtype=float), np.empty((0, k), dtype=float))
        return (np.array(pts, dtype=float), np.array(dirs, dtype=float))
"""

GAPS = """
    def f(dirs, nll, best, threshold, to_theta, cap, bound, points, found_dirs):
        r0 = float(np.sqrt(max(threshold - nll(best), 1.0) * 2.0))
        starts = []
        for e in dirs:
            m = min(cap, bound(e) if bound is not None else np.inf)
            found = False
            if m > 1e-10:
                lo, hi = 1e-08, min(r0, m)

                def g(r, _e=e):
                    return nll(to_theta(r * _e)) - threshold
                try:
                    if g(lo) < 0.0:
                        while g(hi) <= 0.0 and hi < m:
                            hi = min(hi * 2.0, m)
                        if g(hi) > 0.0:
                            res = root_scalar(g, bracket=[lo, hi], method="brentq", xtol=1e-12, rtol=1e-12)
                            if res.converged:
                                starts.append(to_theta(res.root * e))
                                found = True
                except Exception:
                    pass
            if not found:
                if len(points) > 0:
                    starts.append(points[int(np.argmax(found_dirs @ e))].copy())
        return starts
"""

WHITE = """
    def f(hess, theta, ci, pi, k, reg):
        try:
            h = np.array(hess(theta.astype(float)), dtype=float)
            c = np.array(ci)
            g = -h[np.ix_(c, c)]
            if pi:
                p = np.array(pi)
                gpp = -h[np.ix_(p, p)]
                gcp = -h[np.ix_(c, p)]
                gpc = -h[np.ix_(p, c)]
                try:
                    g = g - gcp @ np.linalg.solve(gpp, gpc)
                except np.linalg.LinAlgError:
                    pass
        except Exception as exc:
            return (np.eye(k), np.eye(k))
        w, v = np.linalg.eigh(g)
        w = np.maximum(w, reg)
        try:
            l = np.linalg.cholesky(v * w @ v.T)
        except np.linalg.LinAlgError:
            return (np.eye(k), np.eye(k))
        return (l, np.linalg.solve(l, np.eye(k)).T)
"""

PROJECT = """
    def f(nll, grad, theta, threshold, tol, n):
        for i in range(n):
            r = nll(theta) - threshold
            if abs(r) < tol:
                break
            g = grad(theta)
            gg = float(np.dot(g, g))
            if gg < 1e-20:
                break
            theta = theta - r / gg * g
        return theta
"""

STEP = """
    def f(nll, grad, theta, p, threshold, eps, tol, n):
        half = p - eps / 2.0 * grad(theta)
        new = _project_theta(nll, grad, theta + eps * half, threshold, tol, n)
        g = grad(new)
        q = half - eps / 2.0 * g
        gg = float(np.dot(g, g))
        if gg > 1e-20:
            q = q - float(np.dot(q, g)) / gg * g
        return (new, q)
"""

WALK = """
    def f(nll, grad, start, threshold, n, eps, tol, m, rng, bounds):
        k = len(start)
        theta = _project_theta(nll, grad, start.copy(), threshold, tol, m)

        def kick(x):
            g = grad(x)
            gg = float(np.dot(g, g))
            z = rng.standard_normal(size=k)
            if gg > 1e-20:
                z = z - float(np.dot(z, g)) / gg * g
            s = np.linalg.norm(z)
            return z / s if s > 1e-15 else z

        def good(x):
            if not np.all(np.isfinite(x)):
                return False
            if bounds is not None and any((lo is not None and x[i] < lo) or (hi is not None and x[i] > hi) for i, (lo, hi) in enumerate(bounds)):
                return False
            return abs(nll(x) - threshold) <= max(tol, 1e-06)
        if not good(theta):
            return np.empty((0, k), dtype=float)
        p = kick(theta)
        every = max(1, n // 5)
        out = [theta.copy()]
        for i in range(n):
            if i > 0 and i % every == 0:
                p = kick(theta)
            try:
                theta, p = _rattle_step(nll, grad, theta, p, threshold, eps, tol, m)
            except Exception:
                break
            if not good(theta):
                break
            out.append(theta.copy())
        return np.array(out, dtype=float)
"""

CHAINS = """
    def f(nll, grad, threshold, starts, n_steps, eps, tol, m, rng, n_jobs, bounds):
        if len(starts) == 0:
            k = starts.shape[1] if starts.ndim == 2 and starts.shape[1] > 0 else 1
            return np.empty((0, k), dtype=float)
        n, k = starts.shape
        seeds = np.array([int(rng.integers(2 ** 63)) for _ in range(n)], dtype=int)

        def chain(starts, seeds, idx):
            return _rattle_walk(nll, grad, starts[idx], threshold, n_steps, eps, tol, m, np.random.default_rng(seeds[idx]), bounds)
        trajs = [chain(starts, seeds, idx) for idx in range(n)]
        found = [t for t in trajs if len(t) > 0]
        if not found:
            return np.empty((0, k), dtype=float)
        return np.vstack(found)
"""

SEEDS = """
    def f(points, n, knn, rng):
        from scipy.spatial import cKDTree
        m = len(points)
        if m < 2:
            return None
        k = min(knn, m - 1)
        d, i = cKDTree(points).query(points, k=k + 1)
        far = d[:, k]
        return points[np.argsort(far)[-min(n, m):]]
"""


def helpers(ctx):
    for rule, name, text in (("fit at the signal hypothesis", "_find_mle", MLE), ("minima", "_find_basins_contour_subspace", BASINS), ("radial", "_radial_search", RADIAL),
                             ("radial", "_find_gap_starts", GAPS), ("whitening", "_build_whitener", WHITE), ("projection", "_project_theta", PROJECT),
                             ("chain", "_rattle_step", STEP), ("chain", "_rattle_walk", WALK), ("chain", "_run_hmc_chains", CHAINS), ("seeds", "_find_sparse_seeds", SEEDS)):
        ctx.returns(rule, f"{M}.{name}", text, opaque=OP, ignore_raise=name != "_find_mle")
