"""Combination of uncorrelated models."""
from . import prop
from .. import terms as T
from ..terms import const

C = "UnCorrStatisticsCombiner"

LIKELIHOOD = """
    def f(self, poi_test, expected, return_nll, data, statistical_model_options, **kwargs):
        o = statistical_model_options or {}
        d = data or {}
        nll = 0.0
        for m in self:
            k = {}
            k.update(o.get(str(m.backend_type), {}))
            try:
                nll += m.likelihood(poi_test=poi_test, expected=expected, data=d.get(m.analysis, None), **k, **kwargs)
            except NegativeExpectedYields:
                nll = np.nan
            if np.isnan(nll):
                break
        return nll if return_nll or np.isnan(nll) else np.exp(-nll)
"""
DATA = """
    def f(self, expected, test_statistic, statistical_model_options, **kwargs):
        o = statistical_model_options or {}
        d = {}
        for m in self:
            k = {}
            k.update(o.get(str(m.backend_type), {}))
            d.update({m.analysis: m.generate_asimov_data(expected=expected, test_statistic=test_statistic, **k, **kwargs)})
        return d
"""
ASIMOV = """
    def f(self, poi_test, expected, return_nll, test_statistics, statistical_model_options, **kwargs):
        d = self.generate_asimov_data(expected=expected, test_statistic=test_statistics, statistical_model_options=statistical_model_options, **kwargs)
        return self.likelihood(poi_test=poi_test, expected=expected, return_nll=return_nll, data=d, statistical_model_options=statistical_model_options, **kwargs)
"""
MAXIMIZE = """
    def f(self, return_nll, expected, allow_negative_signal, data, initial_muhat_value, par_bounds, statistical_model_options, poi_indices, **optimiser_options):
        o = statistical_model_options or {}
        d = data or {}
        m0 = initial_muhat_value or 0.0
        if initial_muhat_value is None:
            try:
                a, b = np.zeros(len(self)), np.ones(len(self))
                for i, m in enumerate(self):
                    k = {}
                    k.update(o.get(str(m.backend_type), {}))
                    a[i] = m.maximize_likelihood(expected=expected, **k, **optimiser_options)[0]
                    b[i] = m.sigma_mu(poi_test=a[i], expected=expected, **k, **optimiser_options)
                m0 = np.true_divide(1.0, np.sum(np.power(b, -2))) * np.sum(np.true_divide(a, np.square(b)))
            except Exception:
                m0 = 0.0
        c = ModelConfig(poi_index=0, minimum_poi=self.minimum_poi, suggested_init=[float(m0)], suggested_bounds=par_bounds or [(self.minimum_poi if allow_negative_signal else 0.0, max(10.0, m0))])

        def fun(x):
            return 2.0 * self.likelihood(x if isinstance(x, float) else x[0], expected=expected, return_nll=True, data=d, statistical_model_options=o, **optimiser_options)
        v, x = fit(func=fun, model_configuration=c, **optimiser_options)
        n = v / 2.0 if return_nll else np.exp(-v / 2.0)
        if poi_indices is None:
            return x[0], n
        return {key: float(x[0]) for key in poi_indices}, n
"""
MAXIMIZE_ASIMOV = """
    def f(self, return_nll, expected, test_statistics, initial_muhat_value, par_bounds, statistical_model_options, poi_indices, **optimiser_options):
        o = statistical_model_options or {}
        c = ModelConfig(poi_index=0, minimum_poi=self.minimum_poi, suggested_init=[initial_muhat_value or 0.0], suggested_bounds=par_bounds or [(self.minimum_poi if test_statistics in ["q", "qmu"] else 0.0, 10.0)])
        d = self.generate_asimov_data(expected=expected, test_statistic=test_statistics, statistical_model_options=o, **optimiser_options)

        def fun(x):
            return 2.0 * self.likelihood(x if isinstance(x, float) else x[0], expected=expected, data=d, statistical_model_options=o, **optimiser_options)
        v, x = fit(func=fun, model_configuration=c, **optimiser_options)
        n = v / 2.0 if return_nll else np.exp(-v / 2.0)
        if poi_indices is None:
            return x[0], n
        return {key: float(x[0]) for key in poi_indices}, n
"""


def likelihood(ctx):
    ctx.returns("combined-likelihood", C + ".likelihood", LIKELIHOOD, ignore_raise=False)


def asimov(ctx):
    ctx.returns("combined-asimov", C + ".generate_asimov_data", DATA, ignore_raise=False)
    ctx.returns("combined-asimov", C + ".asimov_likelihood", ASIMOV, ignore_raise=False)


def maximize(ctx):
    ctx.returns("combined-fit", C + ".maximize_likelihood", MAXIMIZE, ignore_raise=False)
    ctx.returns("combined-fit", C + ".maximize_asimov_likelihood", MAXIMIZE_ASIMOV, ignore_raise=False)


def fit_setup(ctx):
    for m, spec in (("maximize_likelihood", MAXIMIZE), ("maximize_asimov_likelihood", MAXIMIZE_ASIMOV)):
        ctx.calls("combined-fit", f"{C}.{m}", spec, "spey.optimizer.core.fit")
        ctx.calls("combined-fit", f"{C}.{m}", spec, "ModelConfig")


def minimum_poi(ctx):
    ctx.returns("combined-minimum", C + ".minimum_poi", """
        def f(self):
            return max((m.backend.config().minimum_poi for m in self))
    """)


def calculators(ctx):
    ctx.returns("combined-available", C + ".is_asymptotic_calculator_available", """
        def f(self):
            return all((m.is_asymptotic_calculator_available for m in self))
    """)
    ctx.returns("combined-available", C + ".is_toy_calculator_available", """
        def f(self):
            return False
    """)
    ctx.returns("combined-available", C + ".is_chi_square_calculator_available", """
        def f(self):
            return all((m.is_chi_square_calculator_available for m in self))
    """)


def container(ctx):
    ctx.after("append", C + ".append", """
        def f(self, statistical_model):
            self.append(statistical_model)
            return self._statistical_models
    """, """
        def f(self, statistical_model):
            if isinstance(statistical_model, StatisticalModel):
                if statistical_model.analysis in self.analyses:
                    raise AnalysisQueryError("")
                self._statistical_models.append(statistical_model)
                return self._statistical_models
            raise TypeError("")
    """, ignore_raise=False)
    ctx.after("remove", C + ".remove", """
        def f(self, analysis):
            self.remove(analysis)
            return self._statistical_models
    """, """
        def f(self, analysis):
            for i, (n, _) in enumerate(self.items()):
                if n == analysis:
                    self._statistical_models.pop(i)
                    return self._statistical_models
            raise AnalysisQueryError("")
    """, ignore_raise=False)
    ctx.returns("members", C + ".statistical_models", """
        def f(self):
            return tuple(self._statistical_models)
    """)
    ctx.returns("members", C + ".analyses", """
        def f(self):
            return [m.analysis for m in self]
    """)
    ctx.returns("members", C + ".items", """
        def f(self):
            return ((m.analysis, m) for m in self)
    """)
    ctx.returns("members", C + ".__len__", """
        def f(self):
            return len(self._statistical_models)
    """)
    ctx.returns("members", C + ".is_alive", """
        def f(self):
            return any((m.is_alive for m in self))
    """)
    ctx.returns("indexing", C + ".__getitem__", """
        def f(self, item):
            if isinstance(item, int):
                if -len(self) <= item < len(self):
                    return self.statistical_models[item]
                raise AnalysisQueryError("")
            if isinstance(item, slice):
                return self.statistical_models[item]
            for m in self:
                if m.analysis == item:
                    return m
            raise AnalysisQueryError("")
    """, ignore_raise=False)
    ctx.returns("most-sensitive", C + ".find_most_sensitive", """
        def f(self):
            return self[int(np.argmin([m.s95exp for m in self]))]
    """)
    if ctx.matches(C + ".__matmul__", """
        def f(self, other):
            return self.__matmul__(other)
    """, """
        def f(self, other):
            if isinstance(other, StatisticalModel):
                return UnCorrStatisticsCombiner(*self._statistical_models, other)
            if isinstance(other, UnCorrStatisticsCombiner):
                return UnCorrStatisticsCombiner(*self._statistical_models, *other)
            raise ValueError("")
    """, ignore_raise=False):
        ctx.ok("combine", C + ".__matmul__", "handed to the constructor, which appends every model")
    else:
        ctx.after("combine", C + ".__matmul__", """
            def f(self, other):
                return self.__matmul__(other)
        """, """
            def f(self, other):
                n = UnCorrStatisticsCombiner(*self._statistical_models)
                if isinstance(other, StatisticalModel):
                    n.append(other)
                elif isinstance(other, UnCorrStatisticsCombiner):
                    for m in other:
                        n.append(m)
                else:
                    raise ValueError("")
                return n
        """, ignore_raise=False)
        ctx.calls("combine", C + ".__matmul__", """
            def f(self, other):
                n = UnCorrStatisticsCombiner(*self._statistical_models)
                if isinstance(other, StatisticalModel):
                    n.append(other)
                elif isinstance(other, UnCorrStatisticsCombiner):
                    for m in other:
                        n.append(m)
                else:
                    raise ValueError("")
                return n
        """, "append", guards=True)


def hook(ctx):
    """StatisticalModel.combine hands over to the back end's own combination"""
    ctx.returns("combine", "StatisticalModel.combine", """
        def f(self, other, **kwargs):
            try:
                c = self.backend.combine(other.backend, **kwargs)
                assert isinstance(c, BackendBase), ""
                return StatisticalModel(backend=c, analysis=f"combine[{self.analysis}, {other.analysis}]")
            except NotImplementedError:
                raise CombinerNotAvailable("")
    """, ignore_raise=False)
    ctx.returns("combine", "StatisticalModel.__matmul__", """
        def f(self, other):
            return self.combine(other)
    """, ignore_raise=False)


def build(ctx):
    ctx.after("build", C + ".__init__", """
        def f(self, ntoys):
            self.__init__(ntoys=ntoys)
            return (self.ntoys, self._statistical_models)
    """, """
        def f(self, ntoys):
            return ntoys, []
    """, inline=("__init__",), cls="spey.combiner.uncorrelated_statistics_combiner." + C)
    ctx.calls("build", C + ".__init__", """
        def f(self, *args, ntoys):
            for a in args:
                self.append(a)
    """, "append", guards=True)
    ctx.stores("build", C + ".__init__", """
        def f(self, *args, ntoys):
            self._statistical_models = []
    """, before=("append",))
    ctx.defaults("defaults", C + ".__init__", ntoys=1000)


def defaults(ctx):
    obs = ctx.val("ExpectationType.observed", C + ".likelihood")
    ctx.defaults("defaults", C + ".likelihood", poi_test=1.0, expected=obs, return_nll=True, data=None, statistical_model_options=None)
    ctx.defaults("defaults", C + ".asimov_likelihood", poi_test=1.0, expected=obs, return_nll=True, test_statistics="qtilde", statistical_model_options=None)
    ctx.defaults("defaults", C + ".generate_asimov_data", expected=obs, test_statistic="qtilde", statistical_model_options=None)
    ctx.defaults("defaults", C + ".maximize_likelihood", return_nll=True, expected=obs, allow_negative_signal=True, data=None, initial_muhat_value=None, par_bounds=None, statistical_model_options=None, poi_indices=None)
    ctx.defaults("defaults", C + ".maximize_asimov_likelihood", return_nll=True, expected=obs, test_statistics="qtilde", initial_muhat_value=None, par_bounds=None, statistical_model_options=None, poi_indices=None)


@prop("S18", min=20)
def s18(ctx):
    """Value-numbers every likelihood method of the combination (sum over members with each member's own data and back-end options, broken off only at an undefined value) against the required text, the call of the optimiser (objective, signal-strength configuration, options) argument by argument, and the container operations (append, remove, indexing, iteration, @) including the errors they must raise."""
    likelihood(ctx)
    asimov(ctx)
    maximize(ctx)
    fit_setup(ctx)
    container(ctx)
    hook(ctx)
    build(ctx)
    defaults(ctx)
