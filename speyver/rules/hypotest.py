"""Test statistics, p-values, exclusion CL, significance, upper limits."""
from . import prop
from .. import terms as T
from ..terms import raw, num, const, sym

TS = "spey.hypothesis_testing.test_statistics"
HB = "HypothesisTestingBase"


@prop("S06", min=6)
def test_statistics(ctx):
    """Value-numbers each test-statistic definition and the name->definition table, and compares them with eqs. 10-14 of arXiv:1007.1727 for every ordering of (mu, muhat, 0)."""
    ctx.returns("definition", TS + ".qmu_tilde", """
        def f(mu, muhat, max_logpdf, logpdf):
            if muhat > mu:
                return 0.0
            if muhat < 0.0:
                return max(0.0, -2.0 * (logpdf(mu) - logpdf(0.0)))
            return max(0.0, -2.0 * (logpdf(mu) - max_logpdf))
    """)
    ctx.returns("definition", TS + ".qmu", """
        def f(mu, muhat, max_logpdf, logpdf):
            if muhat > mu:
                return 0.0
            return max(0.0, -2.0 * (logpdf(mu) - max_logpdf))
    """)
    ctx.returns("definition", TS + ".q0", """
        def f(mu, muhat, max_logpdf, logpdf):
            if muhat < 0.0:
                return 0.0
            return max(0.0, -2.0 * (logpdf(0.0) - max_logpdf))
    """)
    ctx.returns("definition", TS + ".qmu_left", """
        def f(mu, muhat, max_logpdf, logpdf):
            if muhat < mu:
                return 0.0
            return max(0.0, -2.0 * (logpdf(mu) - max_logpdf))
    """)
    f = ctx.func(TS + ".get_test_statistic")
    o = ctx.run(f)
    for name, target in (("q", "qmu"), ("qmu", "qmu"), ("qtilde", "qmu_tilde"), ("qmutilde", "qmu_tilde"), ("q0", "q0")):
        v = T.subst(o.value(), {sym("test_stat"): const(name)})
        ctx.same("table", f"{f.qual}[{name}]", v, raw("fn", f"{TS}.{target}"), f.loc(), ignore_raise=False)
    v = T.subst(o.value(), {sym("test_stat"): const("no-such-statistic")})
    ctx.same("table", f"{f.qual}[unknown]", v, raw("raise", "UnknownTestStatistics"), f.loc(), ignore_raise=False)


@prop("S07", min=1)
def teststat_eq66(ctx):
    """Value-numbers the (sqrt(q), sqrt(qA), Delta) triple for each test statistic and compares with eqs. 65-66 of arXiv:1007.1727, including the raised zero-Asimov signal."""
    f = ctx.func(TS + ".compute_teststatistics")
    spec = """
        def f(mu, maximum_likelihood, logpdf, maximum_asimov_likelihood, asimov_logpdf, teststat):
            ts = get_test_statistic(teststat)
            q = ts(mu, maximum_likelihood[0], -maximum_likelihood[1], logpdf)
            qA = ts(mu, maximum_asimov_likelihood[0], -maximum_asimov_likelihood[1], asimov_logpdf)
            if teststat in ("q", "qmu", "q0") or np.sqrt(q) <= np.sqrt(qA):
                return np.sqrt(q), np.sqrt(qA), np.sqrt(q) - np.sqrt(qA)
            if np.sqrt(qA) == 0:
                raise AsimovTestStatZero()
            return np.sqrt(q), np.sqrt(qA), (q - qA) / (2.0 * np.sqrt(qA))
    """
    ctx.returns("eq66", f, spec, opaque=("get_test_statistic",), ignore_raise=False)


@prop("S08", min=6)
def pvalue_rules(ctx):
    """Value-numbers the p-value chain: distribution shift/orientation, CLs ratio with its zero guard, the +2..-2 sigma ordering, and which of CLs / CLs+b each test statistic uses."""
    D = "spey.hypothesis_testing.distributions"
    ctx.returns("asymptotic-pvalue", D + ".AsymptoticTestStatisticsDistribution.pvalue", """
        def f(self, value):
            p = norm.cdf(self.shift - value)
            return p if p >= self.cutoff else np.nan
    """)
    ctx.returns("asymptotic-expected", D + ".AsymptoticTestStatisticsDistribution.expected_value", """
        def f(self, nsigma):
            return nsigma + self.shift if nsigma + self.shift > self.cutoff else self.cutoff
    """)
    ctx.returns("empirical-pvalue", D + ".EmpricTestStatisticsDistribution.pvalue", """
        def f(self, value):
            return np.sum(self.samples >= value) / self.samples.shape[0]
    """)
    ctx.returns("empirical-expected", D + ".EmpricTestStatisticsDistribution.expected_value", """
        def f(self, nsigma):
            return np.percentile(self.samples, norm.cdf(nsigma) * 100.0, method="linear")
    """)
    U = "spey.hypothesis_testing.utils"
    ctx.returns("ratio", U + ".pvalues", """
        def f(delta_test_statistic, sig_plus_bkg_distribution, bkg_only_distribution):
            sb = sig_plus_bkg_distribution.pvalue(delta_test_statistic)
            b = bkg_only_distribution.pvalue(delta_test_statistic)
            return sb, b, (0.0 if b == 0.0 else sb / b)
    """)
    ctx.returns("band-order", U + ".expected_pvalues", """
        def f(sig_plus_bkg_distribution, bkg_only_distribution):
            p = [pvalues(bkg_only_distribution.expected_value(n), sig_plus_bkg_distribution, bkg_only_distribution) for n in (2.0, 1.0, 0.0, -1.0, -2.0)]
            return list(map(list, zip(*p)))
    """, opaque=("pvalues",))
    ctx.returns("asymptotic-cl", "spey.hypothesis_testing.asymptotic_calculator.compute_asymptotic_confidence_level", """
        def f(sqrt_qmuA, delta_test_statistic, test_stat):
            sb = AsymptoticTestStatisticsDistribution(-sqrt_qmuA)
            b = AsymptoticTestStatisticsDistribution(0.0)
            obs = pvalues(delta_test_statistic, sb, b)
            exp = expected_pvalues(sb, b)
            if test_stat == "q0":
                return [obs[0]], exp[0]
            return [obs[2]], exp[2]
    """, opaque=("pvalues", "expected_pvalues"))
    ctx.returns("toy-cl", "spey.hypothesis_testing.toy_calculator.compute_toy_confidence_level", """
        def f(signal_like_test_statistic, background_like_test_statistic, test_statistic, test_stat):
            sb = EmpricTestStatisticsDistribution(np.array(signal_like_test_statistic))
            b = EmpricTestStatisticsDistribution(np.array(background_like_test_statistic))
            obs = pvalues(test_statistic, sb, b)
            exp = expected_pvalues(sb, b)
            if test_stat == "q0":
                return [obs[0]], exp[0]
            return [obs[2]], exp[2]
    """, opaque=("pvalues", "expected_pvalues"))
    ctx.returns("asymptotic-logcdf", D + ".AsymptoticTestStatisticsDistribution.logcdf", """
        def f(self, value):
            p = norm.logcdf(self.shift - value)
            return p if p >= self.cutoff else np.nan
    """)
    o3 = ctx.spec("def f(x):\n    d = EmpricTestStatisticsDistribution(x)\n    return d.samples\n", like="spey.hypothesis_testing.toy_calculator.compute_toy_confidence_level")
    ctx.same("samples-stored", D + ".EmpricTestStatisticsDistribution.__init__", o3.ret, sym("x"), ctx.cls("EmpricTestStatisticsDistribution").methods["__init__"].loc())
    # cutoff default disables the cutoff
    o = ctx.run(D + ".AsymptoticTestStatisticsDistribution.__init__")
    E = o.engine
    cls = ctx.cls("AsymptoticTestStatisticsDistribution")
    o2 = ctx.spec("def f(x):\n    d = AsymptoticTestStatisticsDistribution(x)\n    return d.shift, d.cutoff\n",
                  like="spey.hypothesis_testing.asymptotic_calculator.compute_asymptotic_confidence_level")
    ctx.same("no-cutoff", cls.qual + ".__init__", o2.ret, raw("tuple", sym("x"), T.mul(num(-1), T.INF)), cls.methods["__init__"].loc())


PREP = """
    def {name}(self, expected, test_statistics, kwargs):
"""


@prop("S09", min=1)
def exclusion_cl(ctx):
    """Value-numbers exclusion_confidence_level (every calculator branch inlined down to the public model API) and compares with the documented definition: 1-p of the configured statistic, NaN -> 0, zero-Asimov -> no exclusion with the right number of entries."""
    f = ctx.func(HB + ".exclusion_confidence_level")
    spec = """
        def f(self, poi_test, expected, allow_negative_signal, calculator, **kwargs):
            if not getattr(self, f"is_{calculator}_calculator_available", False):
                raise CalculatorNotAvailable("")
            stat = "q" if allow_negative_signal else "qtilde"
            kwargs.pop("verbose", True)
            ts = get_test_statistic(stat)

            def nlp(mu, data):
                return -self.likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, data=data, **kwargs)

            def maxl(data):
                return self.maximize_likelihood(expected=expected, allow_negative_signal=allow_negative_signal, data=data, **kwargs)

            if calculator == "asymptotic":
                ml = self.maximize_likelihood(expected=expected, allow_negative_signal=stat in ["q", "qmu"], **kwargs)
                mla = self.maximize_asimov_likelihood(expected=expected, test_statistics=stat, **kwargs)

                def lp(mu):
                    return -self.likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, **kwargs)

                def lpa(mu):
                    return -self.asimov_likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, test_statistics=stat, **kwargs)

                try:
                    r = compute_teststatistics(poi_test, (ml[0], ml[1]), lp, (mla[0], mla[1]), lpa, stat)
                    obs, exp = compute_asymptotic_confidence_level(r[1], r[2], stat)
                except AsimovTestStatZero:
                    obs, exp = [1.0], [1.0] * 5
            elif calculator == "toy":
                m = maxl(None)
                sig = self.fixed_poi_sampler(poi_test=poi_test, size=self.ntoys, expected=expected, **kwargs)
                bkg = self.fixed_poi_sampler(poi_test=0.0, size=self.ntoys, expected=expected, **kwargs)
                ts_s = [ts(poi_test, maxl(s)[0], -maxl(s)[1], lambda mu: nlp(mu, s)) for s, _ in zip(sig, bkg)]
                ts_b = [ts(poi_test, maxl(b)[0], -maxl(b)[1], lambda mu: nlp(mu, b)) for _, b in zip(sig, bkg)]
                obs, exp = compute_toy_confidence_level(ts_s, ts_b, ts(poi_test, m[0], -m[1], lambda mu: nlp(mu, None)), stat)
                obs, exp = np.clip(obs, 0.0, 1.0), np.clip(exp, 0.0, 1.0)
            elif calculator == "chi_square":
                m = maxl(None)
                sb = ts(poi_test, m[0], -m[1], lambda mu: nlp(mu, None))
                l0 = nlp(0.0, None)
                b = max(0.0, -2.0 * (l0 - (-m[1] if m[0] >= 0.0 or stat == "q" else l0)))
                if stat == "q" or np.sqrt(sb) <= np.sqrt(b):
                    delta = np.sqrt(b) - np.sqrt(sb)
                else:
                    try:
                        delta = (b - sb) / (2.0 * np.sqrt(sb))
                    except ZeroDivisionError:
                        delta = None
                if delta is not None:
                    obs, exp = compute_asymptotic_confidence_level(np.sqrt(sb), delta, stat)
                else:
                    obs, exp = [1.0], [1.0] * 5
            if expected == "all":
                return [1.0 - x for x in obs], [1.0 - x for x in exp]
            return [(1.0 - x if not np.isnan(x) else 0.0) for x in (obs if expected == ExpectationType.observed else exp)]
    """
    op = ("get_test_statistic", "compute_teststatistics", "compute_asymptotic_confidence_level", "compute_toy_confidence_level")
    for calc in ("asymptotic", "toy", "chi_square"):
        ctx.returns("definition-" + calc, f, spec, cls="StatisticalModel", opaque=op, bind={"calculator": const(calc)}, construct=f.qual + "[" + calc + "]", ignore_raise=False)
    ctx.defaults("default", f, expected=ctx.val("ExpectationType.observed", f), allow_negative_signal=False, calculator="asymptotic", poi_test=1.0)
    if ctx.prop == "S09":
        teststat_eq66(ctx)
        pvalue_rules(ctx)


@prop("S31", min=4)
def chi2_pull_significance(ctx):
    """Value-numbers chi2 (scalar, iterable and one-key-scan dictionary forms), pull and significance and compares with their definitions."""
    with ctx.limited("eq66", "asymptotic-cl", "asymptotic-pvalue", "definition~.q0"):
        teststat_eq66(ctx)
        pvalue_rules(ctx)
        test_statistics(ctx)
    ctx.returns("chi2", HB + ".chi2", """
        def f(self, poi_test, poi_test_denominator, expected, allow_negative_signal, init_pars, par_bounds, mle_kwargs, likelihood_kwargs):
            mk = {} if mle_kwargs is None else mle_kwargs
            lk = {} if likelihood_kwargs is None else likelihood_kwargs
            if poi_test_denominator is None:
                d = self.maximize_likelihood(expected=expected, allow_negative_signal=allow_negative_signal, init_pars=init_pars, par_bounds=par_bounds, **mk)[1]
            else:
                d = self.likelihood(poi_test=poi_test_denominator, expected=expected, init_pars=init_pars, par_bounds=par_bounds, **mk)

            def n(p):
                return self.likelihood(poi_test=p, expected=expected, return_nll=True, init_pars=init_pars, par_bounds=par_bounds, **lk)

            if isinstance(poi_test, dict):
                keys = [i for i, p in poi_test.items() if isinstance(p, (list, tuple, np.ndarray))]
                if len(keys) == 1:
                    out = []
                    for v in np.atleast_1d(poi_test[keys[0]]):
                        p = dict(poi_test)
                        p[keys[0]] = v
                        out.append(n(p))
                    return 2.0 * (np.array(out) - d)
                if len(keys) > 1:
                    raise NotImplementedError("")
                return 2.0 * (n(poi_test) - d)
            if isinstance(poi_test, Iterable):
                return 2.0 * (np.array([n(p) for p in poi_test]) - d)
            return 2.0 * (n(poi_test) - d)
    """, ignore_raise=False)
    ctx.returns("pull", HB + ".pull", """
        def f(self, poi_test, expected, allow_negative_signal, **kwargs):
            m, n = self.maximize_likelihood(expected=expected, allow_negative_signal=allow_negative_signal, **kwargs)
            return np.sign(m - poi_test) * np.sqrt(2.0 * (self.likelihood(poi_test=poi_test, expected=expected, **kwargs) - n))
    """)
    significance(ctx)
    # default polarity of the POI domain
    for m, dflt in (("chi2", False), ("pull", True), ("exclusion_confidence_level", False)):
        f = ctx.func(f"{HB}.{m}")
        ctx.check("default-domain", f.qual, default_of(ctx, f, "allow_negative_signal") is const(dflt), f.loc(),
                  f"default allow_negative_signal must be {dflt}")


def significance(ctx):
    ctx.returns("significance", HB + ".significance", """
        def f(self, expected, **kwargs):
            ml = self.maximize_likelihood(expected=expected, allow_negative_signal=False, **kwargs)
            mla = self.maximize_asimov_likelihood(expected=expected, test_statistics="q0", **kwargs)

            def lp(mu):
                return -self.likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, **kwargs)

            def lpa(mu):
                return -self.asimov_likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, test_statistics="q0", **kwargs)

            r = compute_teststatistics(0.0, (ml[0], ml[1]), lp, (mla[0], mla[1]), lpa, "q0")
            c = compute_asymptotic_confidence_level(r[1], r[2], "q0")
            return r[1], r[0], c[0], c[1]
    """)


def default_of(ctx, f, name):
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        if p.arg == name:
            return ctx.engine().const_expr(d, f.module)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name and d is not None:
            return ctx.engine().const_expr(d, f.module)
    return None


@prop("S33", min=2)
def sigma_mu(ctx):
    """Value-numbers sigma_mu: Hessian estimate when the model offers one (only the documented 'not available' signal falls through), else poi/sqrt(q_A) with 1.0 when q_A<=0; and the Hessian estimate itself (sqrt of the POI diagonal of the inverse observed information at the fixed-POI fit)."""
    from . import models

    with ctx.limited("hessian", "hessian-helper"):
        models.likelihoods(ctx)
        models.derivative_helpers(ctx)
    ctx.returns("approximate", HB + ".sigma_mu", """
        def f(self, poi_test, expected, test_statistics, **kwargs):
            if hasattr(self, "sigma_mu_from_hessian"):
                try:
                    return self.sigma_mu_from_hessian(poi_test=poi_test, expected=expected, **kwargs)
                except MethodNotAvailable:
                    pass
            m, n = self.maximize_asimov_likelihood(expected=expected, test_statistics=test_statistics, **kwargs)

            def lpa(mu):
                return -self.asimov_likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, test_statistics=test_statistics, **kwargs)

            q = get_test_statistic(test_statistics)(poi_test, m, -n, lpa)
            return 1.0 if q <= 0.0 else poi_test / np.sqrt(q)
    """, cls="StatisticalModel", opaque=("get_test_statistic",))
    ctx.returns("hessian", "StatisticalModel.sigma_mu_from_hessian", """
        def f(self, poi_test, expected, init_pars, par_bounds, **kwargs):
            try:
                h = self.backend.get_hessian_logpdf_func(expected=expected)
            except NotImplementedError:
                raise MethodNotAvailable("")
            o = self.prepare_for_fit(expected=expected, **kwargs)
            o.pop("logpdf")
            x = fit(**o, initial_parameters=init_pars, bounds=par_bounds, fixed_poi_value=self._resolve_poi_test(poi_test))[1]
            i = self.backend.config().poi_index
            return np.sqrt(np.linalg.inv(-1.0 * h(x))[i, i])
    """, ignore_raise=False)


@prop("S11", min=3)
def upper_limit(ctx):
    """Value-numbers the upper-limit driver (statistic, expected/observed index mapping, CLs-minus-level root function, bracket growth, +inf outcomes, arguments of the root finder) against its definition."""
    UL = "spey.hypothesis_testing.upper_limits"
    limit_driver(ctx)
    ctx.returns("root-and-result", UL + ".find_poi_upper_limit", """
        def f(maximum_likelihood, logpdf, maximum_asimov_likelihood, asimov_logpdf, expected, confidence_level, allow_negative_signal, low_init, hig_init, expected_pvalue, maxiter):
            assert expected_pvalue in ["nominal", "1sigma", "2sigma"]
            if expected == ExpectationType.observed:
                expected_pvalue = "nominal"
            stat = "q" if allow_negative_signal else "qtilde"

            def fn(idx):
                def h(mu):
                    try:
                        r = compute_teststatistics(mu, maximum_likelihood, logpdf, maximum_asimov_likelihood, asimov_logpdf, stat)
                        p = compute_asymptotic_confidence_level(r[1], r[2], stat)[0 if expected == ExpectationType.observed else 1]
                        v = [1.0 - x for x in p]
                    except AsimovTestStatZero:
                        v = [0.0] if expected == ExpectationType.observed else [0.0] * 5
                    return v[idx] - confidence_level
                return h

            def solve(idx):
                c = fn(idx)
                lo, hi = find_root_limits(c, loc=0.0, low_ini=low_init, hig_ini=hig_init, hig_bound=100000.0)
                if np.sign(lo[-1]) * np.sign(hi[-1]) > 0.0:
                    return np.inf
                return scipy.optimize.toms748(c, lo.get_value(-1), hi.get_value(-1), k=2, xtol=2e-12, rtol=0.0001, full_output=True, maxiter=maxiter)[0]

            idxs = {"nominal": [0 if expected == ExpectationType.observed else 2], "1sigma": range(1, 4), "2sigma": range(0, 5)}[expected_pvalue]
            out = [solve(i) for i in idxs]
            return out if len(out) > 1 else out[0]
    """, opaque=("compute_teststatistics", "compute_asymptotic_confidence_level", "find_root_limits", "ComputerWrapper.get_value", "get_value"), ignore_raise=False)
    op = ("ComputerWrapper.__call__", "ComputerWrapper.__getitem__", "ComputerWrapper.get_value", "ComputerWrapper.__init__")
    ctx.loops("bracket-growth", UL + ".find_root_limits", """
        def f(computer, loc, low_ini, hig_ini, low_bound, hig_bound):
            low, hig = low_ini, hig_ini
            lc = ComputerWrapper(computer)
            while lc(low) > loc and low > low_bound:
                low = max(low * 0.2, low_bound)
            hc = ComputerWrapper(computer)
            while hc(hig) < loc and hig < hig_bound:
                hig = min(hig * 5.0, hig_bound)
    """, opaque=op)
    # each end of the bracket is evaluated before the bound is consulted, so that the last record is always that of the end itself
    f = ctx.func(UL + ".find_root_limits")
    o = ctx.run(f, None, (), op)
    inner = [e for e in o.events if e.kind == "call" and e.fn.split(".")[-1] == "computer"]
    for k, e in enumerate(inner):
        c = f"{f.qual}[end evaluation {k}]"
        if e.guard is T.TRUE:
            ctx.ok("bracket-evaluated", c)
        elif len(inner) == 2 and {str(x) for x in T.syms(e.guard)} & {"hig_bound", "low_bound"}:
            ctx.fail("bracket-evaluated", c, e.loc(), f"the computer is evaluated only when {str(e.guard)[:120]}; at the bound itself the bracket is never evaluated")
        else:
            ctx.undec("bracket-evaluated", c, "the evaluation of the bracket end is conditional")
    ctx.returns("bracket-result", UL + ".find_root_limits", """
        def f(computer, loc, low_ini, hig_ini, low_bound, hig_bound):
            return ComputerWrapper(computer), ComputerWrapper(computer)
    """, opaque=op)
    like = ctx.func(UL + ".ComputerWrapper.__call__")
    o = ctx.spec("""
        def f(self, u, v):
            self(u)
            a = self(v)
            return a == self[-1], self.get_value(-1)
    """, like=like, cls="ComputerWrapper", inline=("get_value",))
    s = ctx.spec("""
        def f(self, u, v):
            return True, v
    """, like=like)
    ctx.same("evaluation-record", UL + ".ComputerWrapper", o.ret, s.ret, like.loc())
    ctx.defaults("default", HB + ".poi_upper_limit", expected=ctx.val("ExpectationType.observed", like=HB + ".poi_upper_limit"), confidence_level=0.95, expected_pvalue="nominal")
    ctx.returns("solve", UL + ".bracket_and_solve", """
        def f(computer, inner, outer, expand, contract, outer_stop, inner_stop, *, retry_inner, retry_stop, debug_tag, xtol, rtol, maxiter):
            oc = ComputerWrapper(computer)
            while oc(outer) < 0.0 and not outer_stop(outer):
                outer = expand(outer)
            ic = ComputerWrapper(computer)
            while ic(inner) > 0.0 and not inner_stop(inner):
                inner = contract(inner)
            if np.sign(ic[-1]) == np.sign(oc[-1]) and retry_inner is not None:
                inner = retry_inner
                ic = ComputerWrapper(computer)
                while ic(inner) > 0.0 and not retry_stop(inner):
                    inner = contract(inner)
            if np.sign(ic[-1]) != np.sign(oc[-1]):
                r = scipy.optimize.toms748(computer, min(inner, outer), max(inner, outer), k=2, xtol=xtol, rtol=rtol, full_output=True, maxiter=maxiter)
                return inner, outer, r[0]
            return inner, outer, float("nan")
    """, opaque=op)


def limit_driver(ctx):
    ctx.returns("driver", HB + ".poi_upper_limit", """
        def f(self, expected, confidence_level, low_init, hig_init, expected_pvalue, maxiter, optimiser_arguments):
            assert 0.0 <= confidence_level <= 1.0
            if expected == ExpectationType.observed:
                expected_pvalue = "nominal"
            if not self.is_alive:
                return {"nominal": np.inf, "1sigma": [np.inf] * 3, "2sigma": [np.inf] * 5}[expected_pvalue]
            kw = optimiser_arguments or {}
            ml = self.maximize_likelihood(expected=expected, allow_negative_signal=False, **kw)
            mla = self.maximize_asimov_likelihood(expected=expected, test_statistics="qtilde", **kw)

            def lp(mu):
                return -self.likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, **kw)

            def lpa(mu):
                return -self.asimov_likelihood(poi_test=mu if isinstance(mu, (float, int)) else mu[0], expected=expected, test_statistics="qtilde", **kw)

            if None in [low_init, hig_init]:
                mh = max(0.0, ml[0])
                s = 1.0 if np.isclose(mh, 0.0) else self.sigma_mu(mh, expected=expected)
                low_init = max(low_init or mh + 1.5 * s, 1e-10)
                hig_init = max(hig_init or mh + 2.5 * s, 1e-10)
            return find_poi_upper_limit((ml[0], ml[1]), lp, (mla[0], mla[1]), lpa, expected, confidence_level, False, low_init, hig_init, expected_pvalue, maxiter)
    """, cls="StatisticalModel", opaque=("find_poi_upper_limit",), ignore_raise=False)
