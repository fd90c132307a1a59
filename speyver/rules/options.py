"""Fit options (S14): what the caller gave reaches the fits behind the reported value."""
from . import prop
from .. import terms as T
from ..terms import const
from . import interface, optimizer

SM = "StatisticalModel"
HB = "HypothesisTestingBase"
C = "UnCorrStatisticsCombiner"
KEYS = {"init_pars", "par_bounds", "initial_parameters", "bounds", "do_grad", "constraints", "hessian", "maxiter", "statistical_model_options", "initial_muhat_value", "model_configuration", "**"}


@prop("S14", min=15)
def s14(ctx):
    """Argument-level data flow: for every call of a likelihood, a fit, a sampler or a generator made by a public entry point (closures included), the values bound to the option arguments (initial values, bounds, gradient choice, constraints, per-model options and the remaining keywords) are compared, as symbolic terms over the entry point's parameters, with what the caller supplied or the documented default; the options handed on by the preparation of a fit and by the fit entry point are compared key by key."""
    model(ctx)
    tests(ctx)
    combined(ctx)
    prepare(ctx)
    # the fit entry point and the filters in front of the minimisers
    ctx.options("fit", optimizer.CORE, optimizer.FIT, ("spey.optimizer.scipy_tools.minimize", "spey.optimizer.minuit_tools.minimize"), {"init_pars", "bounds", "do_grad", "hessian", "constraints", "**"}, opaque=("minimize",), bind={"fixed_poi_value": T.NONE})
    optimizer.option_filters(ctx)
    for m, p in (("likelihood", ("init_pars", "par_bounds")), ("maximize_likelihood", ("init_pars", "par_bounds")), ("asimov_likelihood", ("init_pars", "par_bounds")), ("maximize_asimov_likelihood", ("init_pars", "par_bounds")),
                 ("generate_asimov_data", ("init_pars", "par_bounds")), ("fixed_poi_sampler", ("init_pars", "par_bounds")), ("sigma_mu_from_hessian", ("init_pars", "par_bounds"))):
        ctx.defaults("default", f"{SM}.{m}", **{k: None for k in p})


def model(ctx):
    ctx.options("model", SM + ".likelihood", """
        def f(self, poi_test, expected, data, init_pars, par_bounds, **kwargs):
            self.backend.negative_loglikelihood(init_pars=init_pars, par_bounds=par_bounds, **kwargs)
            if "fixed_poi_value" in kwargs:
                kwargs.pop("fixed_poi_value")
            fit(**self.prepare_for_fit(data=data, expected=expected, **kwargs), initial_parameters=init_pars, bounds=par_bounds)
    """, ("negative_loglikelihood", "prepare_for_fit"), KEYS, opaque=("prepare_for_fit",))
    fits(ctx, SM + ".likelihood", interface.LIKELIHOOD)
    ctx.options("model", SM + ".maximize_likelihood", """
        def f(self, expected, allow_negative_signal, data, init_pars, par_bounds, poi_indices, **kwargs):
            self.backend.minimize_negative_loglikelihood(init_pars=init_pars, par_bounds=par_bounds, **kwargs)
            if "fixed_poi_value" in kwargs:
                kwargs.update({"fixed_poi_value": self._resolve_poi_test(kwargs["fixed_poi_value"])})
            self.prepare_for_fit(**kwargs)
    """, ("minimize_negative_loglikelihood", "prepare_for_fit"), KEYS, opaque=("prepare_for_fit",))
    fits(ctx, SM + ".maximize_likelihood", interface.MAXIMIZE)
    ctx.options("model", SM + ".generate_asimov_data", """
        def f(self, expected, test_statistic, init_pars, par_bounds, **kwargs):
            if "fixed_poi_value" in kwargs:
                kwargs.pop("fixed_poi_value")
            self.prepare_for_fit(**kwargs)
    """, ("prepare_for_fit",), KEYS, opaque=("prepare_for_fit",))
    fits(ctx, SM + ".generate_asimov_data", interface.ASIMOV_DATA)
    ctx.options("model", SM + ".asimov_likelihood", interface.ASIMOV_LIKELIHOOD, ("asimov_negative_loglikelihood", "generate_asimov_data", "likelihood"), KEYS)
    ctx.options("model", SM + ".maximize_asimov_likelihood", interface.MAXIMIZE_ASIMOV, ("minimize_asimov_negative_loglikelihood", "generate_asimov_data", "maximize_likelihood"), KEYS)
    for m, spec in (("fixed_poi_sampler", interface.SAMPLER), ("sigma_mu_from_hessian", """
        def f(self, poi_test, expected, init_pars, par_bounds, **kwargs):
            o = self.prepare_for_fit(expected=expected, **kwargs)
            o.pop("logpdf")
            fit(**o, initial_parameters=init_pars, bounds=par_bounds, fixed_poi_value=self._resolve_poi_test(poi_test))
    """)):
        ctx.options("model", f"{SM}.{m}", spec, ("prepare_for_fit",), KEYS, opaque=("prepare_for_fit",))
        fits(ctx, f"{SM}.{m}", spec)


def fits(ctx, name, spec):
    ctx.options("fit-call", name, spec, ("spey.optimizer.core.fit",), KEYS - {"**", "model_configuration"}, opaque=("prepare_for_fit",))


def tests(ctx):
    kw = """
        def f(self, expected, allow_negative_signal, **kwargs):
            self.maximize_likelihood(**kwargs)
            self.likelihood(**kwargs)
    """
    ctx.options("test", HB + ".pull", kw, ("maximize_likelihood", "likelihood"), KEYS)
    ctx.options("test", HB + ".significance", """
        def f(self, expected, **kwargs):
            self.maximize_likelihood(**kwargs)
            self.maximize_asimov_likelihood(**kwargs)
            self.likelihood(**kwargs)
            self.asimov_likelihood(**kwargs)
    """, ("maximize_likelihood", "maximize_asimov_likelihood", "likelihood", "asimov_likelihood"), KEYS, cls=SM)
    ctx.options("test", HB + ".sigma_mu", """
        def f(self, poi_test, expected, **kwargs):
            self.sigma_mu_from_hessian(**kwargs)
            self.maximize_asimov_likelihood(**kwargs)
            self.asimov_likelihood(**kwargs)
    """, ("sigma_mu_from_hessian", "maximize_asimov_likelihood", "asimov_likelihood"), KEYS, cls=SM)
    spec = """
        def f(self, poi_test, expected, calculator, **kwargs):
            kwargs.pop("verbose", True)
            self.maximize_likelihood(**kwargs)
            self.likelihood(**kwargs)
            %s
    """
    asy = "self.maximize_asimov_likelihood(**kwargs), self.asimov_likelihood(**kwargs)"
    for c, extra, more in (("asymptotic", asy, ("maximize_asimov_likelihood", "asimov_likelihood")), ("toy", "self.fixed_poi_sampler(**kwargs)", ("fixed_poi_sampler",)), ("chi_square", "pass", ())):
        ctx.options("test", HB + ".exclusion_confidence_level", spec % extra, ("maximize_likelihood", "likelihood") + more, KEYS, cls=SM, bind={"calculator": const(c)}, construct=f"{HB}.exclusion_confidence_level[{c}]")
    ctx.options("test", HB + ".poi_upper_limit", """
        def f(self, expected, optimiser_arguments):
            kw = optimiser_arguments or {}
            self.maximize_likelihood(**kw)
            self.maximize_asimov_likelihood(**kw)
            self.likelihood(**kw)
            self.asimov_likelihood(**kw)
    """, ("maximize_likelihood", "maximize_asimov_likelihood", "likelihood", "asimov_likelihood"), KEYS, cls=SM)
    chi2 = """
        def f(self, poi_test, poi_test_denominator, init_pars, par_bounds, mle_kwargs, likelihood_kwargs):
            mk = {} if mle_kwargs is None else mle_kwargs
            lk = {} if likelihood_kwargs is None else likelihood_kwargs
            %s
    """
    num = "self.likelihood(init_pars=init_pars, par_bounds=par_bounds, **lk)"
    ctx.options("test", HB + ".chi2", chi2 % (num + ", self.maximize_likelihood(init_pars=init_pars, par_bounds=par_bounds, **mk)"), ("likelihood", "maximize_likelihood"), KEYS, bind={"poi_test_denominator": T.NONE}, construct=HB + ".chi2[free denominator]")
    ctx.options("test", HB + ".chi2", chi2 % (num + ", self.likelihood(init_pars=init_pars, par_bounds=par_bounds, **mk)"), ("likelihood",), KEYS, bind={"poi_test_denominator": T.num(2)}, construct=HB + ".chi2[fixed denominator]")


def combined(ctx):
    own = "{**o.get(str(m.backend_type), {}), **%s}"
    ctx.options("combined", C + ".likelihood", """
        def f(self, data, statistical_model_options, **kwargs):
            o = statistical_model_options or {}
            for m in self:
                m.likelihood(**o.get(str(m.backend_type), {}), **kwargs)
    """, ("likelihood",), KEYS)
    ctx.options("combined", C + ".generate_asimov_data", """
        def f(self, statistical_model_options, **kwargs):
            o = statistical_model_options or {}
            for m in self:
                m.generate_asimov_data(**o.get(str(m.backend_type), {}), **kwargs)
    """, ("generate_asimov_data",), KEYS)
    ctx.options("combined", C + ".asimov_likelihood", """
        def f(self, statistical_model_options, **kwargs):
            self.generate_asimov_data(statistical_model_options=statistical_model_options, **kwargs)
            self.likelihood(statistical_model_options=statistical_model_options, **kwargs)
    """, ("generate_asimov_data", "likelihood"), KEYS)
    ctx.options("combined-start", C + ".maximize_likelihood", """
        def f(self, statistical_model_options, **optimiser_options):
            o = statistical_model_options or {}
            for m in self:
                m.maximize_likelihood(**o.get(str(m.backend_type), {}), **optimiser_options)
                m.sigma_mu(**o.get(str(m.backend_type), {}), **optimiser_options)
    """, ("maximize_likelihood", "sigma_mu"), KEYS, bind={"initial_muhat_value": T.NONE}, construct=C + ".maximize_likelihood[starting value]")
    for m, extra in (("maximize_likelihood", "pass"), ("maximize_asimov_likelihood", "self.generate_asimov_data(statistical_model_options=o, **optimiser_options)")):
        ctx.options("combined", f"{C}.{m}", f"""
            def f(self, statistical_model_options, **optimiser_options):
                o = statistical_model_options or {{}}
                for s in self:
                    s.likelihood(statistical_model_options=o, **optimiser_options)
                fit(**optimiser_options)
                {extra}
        """, ("spey.optimizer.core.fit",) + (("generate_asimov_data",) if m != "maximize_likelihood" else ()), KEYS - {"model_configuration"})
        ctx.options("combined-start", f"{C}.{m}", f"""
            def f(self, initial_muhat_value, par_bounds):
                ModelConfig(suggested_init=[initial_muhat_value], suggested_bounds=par_bounds)
        """, ("ModelConfig",), {"suggested_init", "suggested_bounds"}, bind={"initial_muhat_value": T.num(3), "par_bounds": ctx.val("[(0.0, 20.0)]")})


def prepare(ctx):
    """the prepared arguments, key by key"""
    for key in ("constraints", "do_grad", "minimizer"):
        given = "minimizer=allow_negative_signal, " if key == "minimizer" else ""
        ctx.after("prepare", SM + ".prepare_for_fit", f"""
            def f(self, data, expected, allow_negative_signal, **kwargs):
                return self.prepare_for_fit(data=data, expected=expected, {given}**kwargs)["{key}"]
        """, f"""
            def f(self, data, expected, allow_negative_signal, **kwargs):
                def prep(self, data, expected, **kwargs):
                    g = kwargs.pop("do_grad", True)
                    try:
                        fun = self.backend.get_objective_function(expected=expected, data=data, do_grad=g)
                    except NotImplementedError:
                        g = False
                    cons = list(kwargs.pop("constraints", None) or [])
                    if hasattr(self.backend, "constraints"):
                        for c in self.backend.constraints:
                            cons.append(c)
                    return {{**kwargs, "do_grad": g, "constraints": cons}}
                return prep(self, data=data, expected=expected, {given}**kwargs)["{key}"]
        """, cls=SM, inline=("prepare_for_fit",))
