"""Chi-square intervals (S32)."""
from . import prop
from .. import terms as T
from ..framework import SpecBroken

HB = "HypothesisTestingBase"
U = "spey.base.utils"
OP = (U + ".resolve_parameter_index", U + "._refine_global_min_1d", U + "._enumerate_crossings_1d", "spey.hypothesis_testing.upper_limits.bracket_and_solve")

TEST = """
    def f(self, expected, confidence_level, limit_type, allow_negative_signal, parameter, poi_value, n_scan, n_multistart, **kwargs):
        assert 0.0 <= confidence_level <= 1.0
        assert limit_type in ["left", "right", "two-sided"]
        threshold = chi2.isf(1.0 - confidence_level, df=1)
        if parameter is None:
            allow_negative_signal = allow_negative_signal or limit_type in ["two-sided", "left"]
            best, nll0 = self.maximize_likelihood(expected=expected, allow_negative_signal=allow_negative_signal)

            def nll(v):
                return float(self.likelihood(poi_test=v, expected=expected))
            try:
                sigma = self.sigma_mu(best, expected=expected)
            except MethodNotAvailable:
                sigma = 1.0
            if not (np.isfinite(sigma) and sigma > 0.0):
                sigma = 1.0
            span = max(6.0 * abs(sigma), 3.0)
            lo, hi = best - span, best + span
            if not allow_negative_signal:
                lo = max(0.0, lo)
            lo, hi = max(-100000.0, lo), min(100000.0, hi)
            hard = (-100000.0 if allow_negative_signal else 0.0, 100000.0)

            def left(g):
                far = np.isclose(best, 0.0) or best > 0.0
                return bracket_and_solve(g, -1.0 if far else best - 1.5 * sigma, -1.0 if far else best - 2.5 * sigma, lambda h: h * 2.0, lambda l: l * 0.5,
                                         lambda h: h <= -100000.0, lambda l: l >= -1e-05, retry_inner=best if best > 0 else None,
                                         retry_stop=(lambda l: l <= 1e-05) if best > 0 else None, debug_tag="left", **kwargs)

            def right(g):
                far = np.isclose(best, 0.0) or best < 0.0
                return bracket_and_solve(g, 1.0 if far else best + 1.5 * sigma, 1.0 if far else best + 2.5 * sigma, lambda h: h * 2.0, lambda l: l * 0.5,
                                         lambda h: h >= 100000.0, lambda l: l <= 1e-05, retry_inner=best if best < 0 else None,
                                         retry_stop=(lambda l: l >= -1e-05) if best < 0 else None, debug_tag="right", **kwargs)
            edge = (-100000.0, 100000.0)
        else:
            backend = getattr(self, "backend", None)
            if backend is None:
                raise NotImplementedError("")
            cfg = backend.config()
            idx = resolve_parameter_index(parameter, cfg)
            fit, nll0 = self.maximize_likelihood(poi_indices=[parameter], expected=expected, allow_negative_signal=True, fixed_poi_value=poi_value)
            best = fit[parameter]
            a, b = cfg.suggested_bounds[idx]
            a = a if a is not None else -100000.0
            b = b if b is not None else 100000.0
            span = max(10.0, 5.0 * abs(best))
            lo, hi = max(a, best - span), min(b, best + span)
            hard = (a, b)

            def nll(v):
                return float(self.likelihood(poi_test={idx: v} if poi_value is None else {cfg.poi_index: poi_value, idx: v}, expected=expected))

            def left(g):
                s = max(abs(best - a) * 0.5, 0.5)
                return bracket_and_solve(g, best - s * 0.5, best - s, lambda h: 2.0 * h - best, lambda l: (l + best) / 2.0, lambda h: h <= a, lambda l: l >= best - 1e-10,
                                         retry_inner=None, retry_stop=None, debug_tag="left", **kwargs)

            def right(g):
                s = max(abs(b - best) * 0.5, 0.5)
                return bracket_and_solve(g, best + s * 0.5, best + s, lambda h: 2.0 * h - best, lambda l: (l + best) / 2.0, lambda h: h >= b, lambda l: l <= best + 1e-10,
                                         retry_inner=None, retry_stop=None, debug_tag="right", **kwargs)
            edge = (a, b)
        nll0, ref = _refine_global_min_1d(nll, nll0, best, lo, hi, n_samples=max(2, n_multistart))

        def computer(v):
            return 2.0 * (nll(v) - nll0) - threshold
        xtol, rtol, maxiter = float(kwargs.get("xtol", 2e-12)), float(kwargs.get("rtol", 0.0001)), int(kwargs.get("maxiter", 10000))
        c, d = lo, hi
        roots = []
        for k in range(4):
            roots = _enumerate_crossings_1d(computer, c, d, n_scan=max(3, n_scan), xtol=xtol, rtol=rtol, maxiter=maxiter)
            has_left = any(r < ref - 1e-12 for r in roots)
            has_right = any(r > ref + 1e-12 for r in roots)
            if not ((limit_type in ("two-sided", "left") and not has_left) or (limit_type in ("two-sided", "right") and not has_right)):
                break
            c2, d2 = max(hard[0], ref - 3.0 * (ref - c)), min(hard[1], ref + 3.0 * (d - ref))
            if c2 >= c - 1e-12 and d2 <= d + 1e-12:
                break
            c, d = c2, d2
        ls = [r for r in roots if r < ref - 1e-12]
        rs = [r for r in roots if r > ref + 1e-12]

        def missing(side):
            with capture_logs(level=logging.ERROR):
                inner, outer, x = left(computer) if side == "left" else right(computer)
            if np.isnan(x):
                if side == "left":
                    return edge[0] if outer <= edge[0] else np.nan
                return edge[1] if outer >= edge[1] else np.nan
            return x
        if limit_type == "left":
            return ls if ls else [missing("left")]
        if limit_type == "right":
            return rs if rs else [missing("right")]
        if ls and rs:
            return roots
        return [ls[0] if ls else missing("left"), rs[-1] if rs else missing("right")]
"""


@prop("S32", min=6)
def s32(ctx):
    """Value-numbers the chi-square interval (per limit type, for the signal strength and for any other parameter), the re-anchoring of the minimum and the enumeration of crossings."""
    f = ctx.func(HB + ".chi2_test")
    for p in (None, "chosen"):
        for side in ("left", "right", "two-sided"):
            bind = {"limit_type": T.const(side)}
            if p is None:
                bind["parameter"] = T.NONE
            else:
                bind["parameter"] = T.raw("int", T.sym("parameter"))
            ctx.guard("interval", f"{f.qual}[{side}, {p or 'POI'}]", lambda: ctx.returns("interval", f, TEST, opaque=OP, bind=bind, ignore_raise=False, construct=f"{f.qual}[{side}, {p or 'POI'}]"))
    ctx.returns("level", f, """
        def f(self, expected, confidence_level, limit_type, allow_negative_signal, parameter, poi_value, n_scan, n_multistart, **kwargs):
            assert 0.0 <= confidence_level <= 1.0
            assert limit_type in ["left", "right", "two-sided"]
            return None
    """, opaque=OP, pick=lambda v: raises_only(v), ignore_raise=False, construct=f"{f.qual}[arguments]", bind={"parameter": T.NONE})
    ctx.defaults("default", f, expected=ctx.val("ExpectationType.observed", like=f), confidence_level=0.95, limit_type="two-sided", allow_negative_signal=None, parameter=None, poi_value=1.0, n_scan=3, n_multistart=2)
    ctx.returns("minimum", U + "._refine_global_min_1d", """
        def f(nll, nll0, ref, lo, hi, n):
            if not hi > lo or n < 2:
                return (nll0, ref)
            bx, bf = ref, nll0
            for x in np.linspace(float(lo), float(hi), int(n)):
                try:
                    v = float(nll(float(x)))
                except Exception:
                    continue
                if not np.isfinite(v):
                    continue
                if v < bf:
                    bx, bf = float(x), v
            if bf >= nll0 - 1e-09:
                return (nll0, ref)
            w = (float(hi) - float(lo)) / max(1, int(n) - 1)
            l2, h2 = max(float(lo), bx - w), min(float(hi), bx + w)
            if h2 > l2:
                try:
                    res = scipy.optimize.minimize_scalar(lambda v: float(nll(float(v))), bounds=(l2, h2), method="bounded", options={"xatol": 1e-10})
                    if np.isfinite(res.fun) and float(res.fun) < bf:
                        bx, bf = float(res.x), float(res.fun)
                except Exception as exc:
                    pass
            return (bf, bx)
    """)
    ctx.returns("crossings", U + "._enumerate_crossings_1d", """
        def f(g, lo, hi, n, xtol, rtol, maxiter):
            if not hi > lo:
                return []
            n = max(3, int(n))
            xs = np.linspace(float(lo), float(hi), n)
            fs = np.full(n, np.nan, dtype=float)
            for i, x in enumerate(xs):
                try:
                    fs[i] = float(g(float(x)))
                except Exception:
                    fs[i] = np.nan
            roots = []
            for i in range(n - 1):
                a, b = fs[i], fs[i + 1]
                if not (np.isfinite(a) and np.isfinite(b)):
                    continue
                if a == 0.0:
                    roots.append(float(xs[i]))
                    continue
                if b == 0.0 and i == n - 2:
                    roots.append(float(xs[i + 1]))
                    continue
                if a * b >= 0.0:
                    continue
                u, v = float(xs[i]), float(xs[i + 1])
                try:
                    x0, r = scipy.optimize.toms748(g, u, v, k=2, xtol=xtol, rtol=rtol, full_output=True, maxiter=maxiter)
                    if r.converged:
                        roots.append(float(x0))
                        continue
                except Exception as exc:
                    pass
                try:
                    roots.append(float(scipy.optimize.brentq(g, u, v, xtol=xtol, rtol=rtol, maxiter=maxiter)))
                except Exception as exc:
                    pass
            out = []
            for r in sorted(roots):
                if not out or abs(r - out[-1]) > max(1e-10, 1e-08 * abs(r)):
                    out.append(r)
            return out
    """)
    ctx.returns("parameter", U + ".resolve_parameter_index", """
        def f(parameter, cfg):
            if cfg.npar < 2:
                raise ValueError("")
            if isinstance(parameter, str):
                if cfg.parameter_names is None:
                    raise ValueError("")
                if parameter not in cfg.parameter_names:
                    raise ValueError("")
                return cfg.parameter_names.index(parameter)
            i = int(parameter)
            if not 0 <= i < cfg.npar:
                raise ValueError("")
            if i == cfg.poi_index:
                raise ValueError("")
            return i
    """, ignore_raise=False)


def raises_only(v):
    if v.op == "ite":
        return T.ite(v.args[0], raises_only(v.args[1]), raises_only(v.args[2]))
    return v if v.op == "raise" else T.NONE
