"""The public statistical-model interface."""
from . import prop
from .hypotest import default_of
from .. import terms as T
from ..terms import raw, num, const, sym

SM = "StatisticalModel"

LIKELIHOOD = """
    def f(self, poi_test, expected, return_nll, data, return_parameters, init_pars, par_bounds, **kwargs):
        try:
            return self.backend.negative_loglikelihood(poi_test=poi_test, expected=expected, data=data, return_parameters=return_parameters, init_pars=init_pars, par_bounds=par_bounds, **kwargs)
        except NotImplementedError:
            pass
        if "fixed_poi_value" in kwargs:
            kwargs.pop("fixed_poi_value")
        o = self.prepare_for_fit(data=data, expected=expected, **kwargs)
        if o["model_configuration"].npar == 1 and o["model_configuration"].poi_index is not None and isinstance(poi_test, float):
            x = np.array([poi_test])
            l = o["logpdf"](x)
        else:
            l, x = fit(**o, initial_parameters=init_pars, bounds=par_bounds, fixed_poi_value=self._resolve_poi_test(poi_test))
        v = -l if return_nll else np.exp(l)
        return (v, x) if return_parameters else v
"""

MAXIMIZE = """
    def f(self, return_nll, expected, allow_negative_signal, data, init_pars, par_bounds, poi_indices, **kwargs):
        try:
            return self.backend.minimize_negative_loglikelihood(expected=expected, allow_negative_signal=allow_negative_signal, data=data, init_pars=init_pars, par_bounds=par_bounds, poi_indices=poi_indices, **kwargs)
        except NotImplementedError:
            pass
        if "fixed_poi_value" in kwargs:
            kwargs.update({"fixed_poi_value": self._resolve_poi_test(kwargs["fixed_poi_value"])})
        l, x = fit(**self.prepare_for_fit(data=data, expected=expected, allow_negative_signal=allow_negative_signal, **kwargs), initial_parameters=init_pars, bounds=par_bounds)
        n = -l if return_nll else np.exp(l)
        c = self.backend.config()
        if poi_indices is None:
            return x[c.poi_index], n
        r = {}
        for key in poi_indices:
            if isinstance(key, str):
                if c.parameter_names is None:
                    raise ValueError("")
                i = c.parameter_names.index(key)
            else:
                i = int(key)
            r[key] = float(x[i])
        return r, n
"""

ASIMOV_DATA = """
    def f(self, expected, test_statistic, init_pars, par_bounds, **kwargs):
        if "fixed_poi_value" in kwargs:
            kwargs.pop("fixed_poi_value")
        o = self.prepare_for_fit(expected=expected, allow_negative_signal=test_statistic in ["q", "qmu"], **kwargs)
        x = fit(**o, initial_parameters=init_pars, bounds=par_bounds, fixed_poi_value=1.0 if test_statistic == "q0" else 0.0)[1]
        return self.backend.expected_data(x)
"""

ASIMOV_LIKELIHOOD = """
    def f(self, poi_test, expected, return_nll, test_statistics, init_pars, par_bounds, **kwargs):
        try:
            return self.backend.asimov_negative_loglikelihood(poi_test=poi_test, expected=expected, test_statistics=test_statistics, init_pars=init_pars, par_bounds=par_bounds, **kwargs)
        except NotImplementedError:
            pass
        d = self.generate_asimov_data(expected=expected, test_statistic=test_statistics, init_pars=init_pars, par_bounds=par_bounds, **kwargs)
        return self.likelihood(poi_test=poi_test, expected=expected, return_nll=return_nll, data=d, init_pars=init_pars, par_bounds=par_bounds, **kwargs)
"""

MAXIMIZE_ASIMOV = """
    def f(self, return_nll, expected, test_statistics, init_pars, par_bounds, poi_indices, **kwargs):
        try:
            return self.backend.minimize_asimov_negative_loglikelihood(expected=expected, test_statistics=test_statistics, init_pars=init_pars, par_bounds=par_bounds, poi_indices=poi_indices, **kwargs)
        except NotImplementedError:
            pass
        d = self.generate_asimov_data(expected=expected, test_statistic=test_statistics, init_pars=init_pars, par_bounds=par_bounds, **kwargs)
        return self.maximize_likelihood(return_nll=return_nll, expected=expected, allow_negative_signal=test_statistics in ["q", "qmu"], data=d, init_pars=init_pars, par_bounds=par_bounds, poi_indices=poi_indices, **kwargs)
"""

PREPARE = """
    def f(self, data, expected, allow_negative_signal, **kwargs):
        g = kwargs.pop("do_grad", True)
        try:
            fun = self.backend.get_objective_function(expected=expected, data=data, do_grad=g)
        except NotImplementedError:
            g = False
            fun = self.backend.get_objective_function(expected=expected, data=data, do_grad=g)
        cons = list(kwargs.pop("constraints", None) or [])
        if hasattr(self.backend, "constraints"):
            for c in self.backend.constraints:
                cons.append(c)
        return {**kwargs, "func": fun, "do_grad": g, "model_configuration": self.backend.config(allow_negative_signal=allow_negative_signal), "logpdf": self.backend.get_logpdf_func(expected=expected, data=data), "constraints": cons}
"""

SAMPLER = """
    def f(self, poi_test, size, expected, init_pars, par_bounds, **kwargs):
        o = self.prepare_for_fit(expected=expected, **kwargs)
        if o["model_configuration"].npar == 1 and o["model_configuration"].poi_index is not None and isinstance(poi_test, float):
            x = np.array([poi_test])
        else:
            x = fit(**o, initial_parameters=init_pars, bounds=par_bounds, fixed_poi_value=self._resolve_poi_test(poi_test))[1]
        try:
            s = self.backend.get_sampler(x)
        except NotImplementedError as e:
            raise MethodNotAvailable("") from e
        return s(size) if isinstance(size, int) else s
"""


def free_fits(ctx):
    ctx.returns("maximize", SM + ".maximize_likelihood", MAXIMIZE, ignore_raise=False)
    ctx.returns("maximize", SM + ".maximize_asimov_likelihood", MAXIMIZE_ASIMOV, ignore_raise=False)
    ctx.returns("prepare", SM + ".prepare_for_fit", PREPARE, ignore_raise=False)


@prop("S02", min=4)
def forwarding(ctx):
    """Value-numbers the public likelihood calls and compares them with: -logpdf of the fit (or exp) at the requested value, with expectation, data and options forwarded to the objective, the configuration and the log-density alike."""
    ctx.returns("likelihood", SM + ".likelihood", LIKELIHOOD, ignore_raise=False)
    ctx.returns("maximize", SM + ".maximize_likelihood", MAXIMIZE, ignore_raise=False)
    ctx.returns("asimov", SM + ".asimov_likelihood", ASIMOV_LIKELIHOOD, ignore_raise=False)
    ctx.returns("asimov", SM + ".maximize_asimov_likelihood", MAXIMIZE_ASIMOV, ignore_raise=False)
    ctx.returns("prepare", SM + ".prepare_for_fit", PREPARE, ignore_raise=False)
    for m in ("likelihood", "asimov_likelihood", "maximize_likelihood", "maximize_asimov_likelihood"):
        f = ctx.func(f"{SM}.{m}")
        ctx.check("default-form", f.qual, default_of(ctx, f, "return_nll") is const(True), f.loc(), "the default must return the negative log-likelihood")
    from . import combiner, models

    combiner.likelihood(ctx)
    combiner.asimov(ctx)
    combiner.maximize(ctx)
    models.derivative_helpers(ctx)
    models.base_objective(ctx)


@prop("S10", min=3)
def asimov(ctx):
    """Value-numbers Asimov generation and its two users, and the hypothesis-test preparation."""
    ctx.returns("data", SM + ".generate_asimov_data", ASIMOV_DATA, ignore_raise=False)
    ctx.returns("likelihood", SM + ".asimov_likelihood", ASIMOV_LIKELIHOOD, ignore_raise=False)
    ctx.returns("maximize", SM + ".maximize_asimov_likelihood", MAXIMIZE_ASIMOV, ignore_raise=False)
    from . import combiner, hypotest

    combiner.asimov(ctx)
    ctx.returns("maximize", "UnCorrStatisticsCombiner.maximize_asimov_likelihood", combiner.MAXIMIZE_ASIMOV, ignore_raise=False)
    hypotest.exclusion_cl(ctx)
    hypotest.significance(ctx)
    hypotest.limit_driver(ctx)


@prop("S35", min=6)
def sampler(ctx):
    """Value-numbers the fixed-POI sampler, the samplers of the built-in models (auxiliary data) and the sampling of every distribution (one row per sample)."""
    from . import densities, models

    ctx.returns("sampler", SM + ".fixed_poi_sampler", SAMPLER, ignore_raise=False)
    models.samplers(ctx)
    with ctx.limited("poisson-sample", "normal-sample", "multivariate-sample", "main-sample", "constraint-sample"):
        densities.poisson(ctx)
        densities.normal(ctx)
        densities.multivariate(ctx)
        densities.main(ctx)
        densities.constraint(ctx)
