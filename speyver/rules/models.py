"""Built-in statistical models: datasets, rates, constraints, configuration, samplers."""
from . import prop, base, combiner, hypotest, interface
from .. import terms as T
from ..terms import const

def bins(t):
    """all per-bin inputs of a well-formed model have the same length"""
    m = {}
    for x in T.walk(t):
        arg = None
        if x.op == "len":
            arg = x.args[0]
        elif x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1] is T.ZERO:
            arg = x.args[0].args[0]
        if arg is not None and not ({"signal_parameter_bounds", "modifiers", "n_signal_parameters"} & {y.args[0] for y in T.syms(arg)}):
            m[x] = T.sym("number of bins")
    return T.subst(t, m) if m else t


D = "spey.backends.default_pdf"
S = "spey.backends.default_pdf.simple_pdf"
DB = D + ".DefaultPDFBase"
SB = S + ".SimplePDFBase"

CHOICE = "d = data if data is not None else (self.background_yields if expected == ExpectationType.apriori else self.data)"
LP = {
    DB: "self.main_model.log_prob(pars, d[:len(self.data)]) + self.constraint_model.log_prob(pars)",
    SB: "self.main_model.log_prob(pars, d)",
}


def likelihoods(ctx):
    for b in (DB, SB):
        ctx.returns("objective", b + ".get_objective_function", f"""
            def f(self, expected, data, do_grad):
                {CHOICE}

                def nll(pars):
                    return -({LP[b]})
                return value_and_grad(nll, argnum=0) if do_grad else nll
        """)
        ctx.returns("log-density", b + ".get_logpdf_func", f"""
            def f(self, expected, data):
                {CHOICE}
                return lambda pars: {LP[b]}
        """)
        ctx.returns("hessian", b + ".get_hessian_logpdf_func", f"""
            def f(self, expected, data):
                {CHOICE}

                def lp(pars):
                    return {LP[b]}
                return hessian(lp, argnum=0)
        """)


def derivative_helpers(ctx):
    ctx.returns("value-and-gradient", "spey.math.value_and_grad", """
        def f(statistical_model, expected, data):
            v = statistical_model.backend.get_objective_function(expected=expected, data=None if data is None else np.array(data), do_grad=True)
            return lambda pars: v(np.array(pars))
    """)
    ctx.returns("hessian-helper", "spey.math.hessian", """
        def f(statistical_model, expected, data):
            h = statistical_model.backend.get_hessian_logpdf_func(expected=expected, data=None if data is None else np.array(data))
            return lambda pars: -1.0 * h(np.array(pars))
    """)


def base_objective(ctx):
    ctx.returns("objective", "BackendBase.get_objective_function", """
        def f(self, expected, data, do_grad):
            if do_grad:
                raise NotImplementedError("")
            l = self.get_logpdf_func(expected=expected, data=data)
            return lambda pars: -l(pars)
    """, ignore_raise=False)


@prop("S01", min=8)
def s01(ctx):
    """Value-numbers the objective, log-density and Hessian builders of every back-end base class and of the derivative helpers against 'explicit data, else background for a-priori, else observed'; the public likelihood calls and the combination pass data and expectation on unchanged."""
    likelihoods(ctx)
    derivative_helpers(ctx)
    base_objective(ctx)
    ctx.returns("prepare", "StatisticalModel.prepare_for_fit", interface.PREPARE, ignore_raise=False)
    combiner.likelihood(ctx)
    combiner.maximize(ctx)
    for b in (DB, SB):
        for m in ("get_objective_function", "get_logpdf_func", "get_hessian_logpdf_func"):
            ctx.defaults("default", f"{b}.{m}", data=None, expected=ctx.val("ExpectationType.observed", b + ".config"))


# ------------------------------------------------------------------ configuration
CONFIG = """
    def f(self, allow_negative_signal, poi_upper_bound):
        c = self._config
        if allow_negative_signal and poi_upper_bound == 10.0:
            return c
        return ModelConfig(c.poi_index, c.minimum_poi, c.suggested_init, [(c.minimum_poi if allow_negative_signal else 0, poi_upper_bound)] + c.suggested_bounds[1:], parameter_names=c.parameter_names)
"""


def config(ctx):
    for b in (DB, SB):
        ctx.returns("config", b + ".config", CONFIG)
        ctx.defaults("config-default", b + ".config", allow_negative_signal=True, poi_upper_bound=10.0)


BASE_INIT = """
    def f(self, signal_yields, background_yields, data, covariance_matrix, modifiers, n_signal_parameters, signal_parameter_bounds):
        self.__init__(signal_yields, background_yields, data, covariance_matrix, modifiers, n_signal_parameters, signal_parameter_bounds)
        return %s
"""
SIMPLE_INIT = """
    def f(self, signal_yields, background_yields, data, n_signal_parameters, signal_parameter_bounds):
        self.__init__(signal_yields, background_yields, data, n_signal_parameters, signal_parameter_bounds)
        return %s
"""

ALIVE = "(True if callable(signal_yields) else np.any(np.array(signal_yields, dtype=np.float64) > 0.0))"
MINPOI = """
        s = signal_yields if callable(signal_yields) else np.array(signal_yields, dtype=np.float64)
        b = np.array(background_yields, dtype=np.float64)
        m = -np.inf
        if not callable(s) and np.any(s > 0.0):
            m = -np.min(b[s > 0.0] / s[s > 0.0])
"""
SIGBOUNDS = """
        if signal_parameter_bounds is None:
            sb = [(None, None)] * n_signal_parameters
        else:
            if len(signal_parameter_bounds) != n_signal_parameters:
                raise ValueError("")
            sb = [x if x is not None else (None, None) for x in signal_parameter_bounds]
"""
DEFAULT_CFG = """
    def f(self, signal_yields, background_yields, data, covariance_matrix, modifiers, n_signal_parameters, signal_parameter_bounds):
        s = signal_yields if callable(signal_yields) else np.array(signal_yields, dtype=np.float64)
        if modifiers is None:
            u = {}
        else:
            if callable(s):
                raise ValueError("")
            u = signal_uncertainty_synthesizer(signal_yields=s, modifiers=modifiers, n_signal_parameters=n_signal_parameters)
""" + MINPOI + """
        nb = len(data)
        nu = u.get("n_parameters", 0)
        names = None
        if n_signal_parameters > 0 or nu > 0:
            names = ["mu"] + [f"signal_par_{i}" for i in range(n_signal_parameters)] + [f"theta_bkg_{i}" for i in range(nb)] + u.get("parameter_names", [])
""" + SIGBOUNDS + """
        return %s
"""
INLINE_INIT = ("__init__", "config", "is_alive", "main_model", "constraint_model")


def layout(ctx, what):
    """initial values, bounds and names of the configuration built by the two base constructors"""
    f = ctx.func(DB + ".__init__")
    val = {
        "init": ("self.config().suggested_init", "[1.0] + [1.0] * n_signal_parameters + [1.0] * nb + [1.0] * nu"),
        "bounds": ("self.config().suggested_bounds", "[(m, 10.0)] + sb + [(None, None)] * nb + [(None, None)] * nu"),
        "names": ("self.config().parameter_names", "names"),
        "poi": ("self.config().poi_index", "0"),
        "minimum": ("self.config().minimum_poi", "m"),
    }
    for w in what:
        ctx.after("layout-" + w, f, BASE_INIT % val[w][0], DEFAULT_CFG % val[w][1], cls=DB, inline=INLINE_INIT, construct=f"{f.qual}[{w}]", norm=bins)
    f = ctx.func(SB + ".__init__")
    sim = {
        "init": ("self.config().suggested_init", "[1.0] + [1.0] * n_signal_parameters"),
        "bounds": ("self.config().suggested_bounds", "[(m, 10)] + sb"),
        "names": ("self.config().parameter_names", "['mu'] + [f'signal_par_{i}' for i in range(n_signal_parameters)]"),
        "poi": ("self.config().poi_index", "0"),
        "minimum": ("self.config().minimum_poi", "m"),
    }
    head = "    def f(self, signal_yields, background_yields, data, n_signal_parameters, signal_parameter_bounds):\n" + MINPOI.lstrip("\n") + SIGBOUNDS.lstrip("\n") + "        return %s\n"
    for w in what:
        ctx.after("layout-" + w, f, SIMPLE_INIT % sim[w][0], head % sim[w][1], cls=SB, inline=INLINE_INIT, construct=f"{f.qual}[{w}]", norm=bins)


# ------------------------------------------------------------------ rates and constraints of the concrete models
ARGS = "signal_yields, background_yields, data"
TAIL = "modifiers, n_signal_parameters, signal_parameter_bounds"
CONCRETE = {
    "UncorrelatedBackground": dict(
        extra="absolute_uncertainties",
        pre="A = np.array(background_yields, dtype=np.float64)\n        B = np.array(absolute_uncertainties)",
        bkg="A + pars[t] * B", n="len(B)",
        main=("normal", "np.ones(len(B))"),
    ),
    "CorrelatedBackground": dict(
        extra="covariance_matrix",
        pre="A = np.array(background_yields, dtype=np.float64)\n        V = np.array(covariance_matrix, dtype=np.float64) if not callable(covariance_matrix) and covariance_matrix is not None else covariance_matrix\n        B = np.sqrt(np.diag(V))",
        bkg="A + B * pars[t]", n="len(B)",
        main=("multivariatenormal", "covariance_to_correlation(V)"),
    ),
    "ThirdMomentExpansion": dict(
        extra="covariance_matrix, third_moment",
        pre="V = np.array(covariance_matrix, dtype=np.float64) if not callable(covariance_matrix) and covariance_matrix is not None else covariance_matrix\n        A, B, C, R = third_moment_expansion(np.array(background_yields, dtype=np.float64), V, np.array(third_moment), True)",
        bkg="A + B * pars[t] + C * np.square(pars[t])", n="len(B)",
        main=("multivariatenormal", "R"),
    ),
    "EffectiveSigma": dict(
        extra="correlation_matrix, absolute_uncertainty_envelops",
        pre="A = np.array(background_yields, dtype=np.float64)\n        up = np.array([abs(u) for u, l in absolute_uncertainty_envelops])\n        lo = np.array([abs(l) for u, l in absolute_uncertainty_envelops])",
        bkg="A + np.sqrt(np.clip(up * lo + (up - lo) * (pars[t] - A), 1e-10, None)) * pars[t]", n="len(A)",
        main=("multivariatenormal", "np.array(correlation_matrix)"),
    ),
}


def concrete(ctx, which, names=CONCRETE):
    for name in names:
        k = CONCRETE[name]
        f = ctx.func(f"{D}.{name}.__init__")
        params = f"{ARGS}, {k['extra']}, {TAIL}"
        head = f"    def f(self, {params}):\n"
        pre = "        " + k["pre"] + f"""
        u = {{}} if modifiers is None else signal_uncertainty_synthesizer(signal_yields=signal_yields if callable(signal_yields) else np.array(signal_yields, dtype=np.float64), modifiers=modifiers, n_signal_parameters=n_signal_parameters)
        unc = u.get("lambda", lambda pars: 1.0)
        n = {k['n']}
        t = slice(1 + n_signal_parameters, 1 + n_signal_parameters + n)

        def sig(pars):
            return signal_yields(pars[1:1 + n_signal_parameters]) if callable(signal_yields) else np.array(signal_yields, dtype=np.float64)

        def bkg(pars):
            return {k['bkg']}
"""
        prog = head + f"        self.__init__({params})\n        return %s\n"
        want = {
            "rate": ("self.main_model", "MainModel(lambda pars: pars[0] * sig(pars) * unc(pars) + bkg(pars))"),
            "positivity": ("(self.main_model, self.constraints)[1]", "[NonlinearConstraint(bkg, 0.0, np.inf, jac=jacobian(bkg))]"),
            "constraint-terms": (
                "self.constraint_model",
                f"ConstraintModel([{{'distribution_type': '{k['main'][0]}', 'args': [np.zeros(len(np.array(data, dtype=np.float64))), {k['main'][1]}], 'kwargs': {{'domain': t}}}}] + u.get('constraint', []))",
            ),
        }
        for w in which:
            ctx.after(w, f, prog % want[w][0], head + pre + f"        return {want[w][1]}\n", cls=f"{D}.{name}", inline=INLINE_INIT, opaque=("third_moment_expansion", "covariance_to_correlation"), construct=f"{f.qual}[{w}]", norm=bins)



SIMPLE_RATE = """
            sg = s(pars[1:]) if callable(s) else s
            return pars[0] * sg + b
"""


def simple(ctx, which):
    """rate, width and positivity of the models without correlated background terms"""
    head = "    def f(self, signal_yields, background_yields, data, absolute_uncertainties, n_signal_parameters, signal_parameter_bounds):\n"
    arr = """
        s = signal_yields if callable(signal_yields) else np.array(signal_yields, dtype=np.float64)
        b = np.array(background_yields, dtype=np.float64)

        def rate(pars):
            return pars[0] * (s(pars[1:]) if callable(s) else s) + b
"""
    call = "        self.__init__(signal_yields, background_yields, data, %s, n_signal_parameters, signal_parameter_bounds)\n        return %s\n"
    g, m, q = f"{S}.Gaussian", f"{S}.MultivariateNormal", f"{S}.Poisson"
    if "rate" in which:
        f = ctx.func(g + ".__init__")
        ctx.after("rate", f, head + call % ("absolute_uncertainties", "self.main_model"), head + arr + """
        return MainModel(rate, cov=absolute_uncertainties if callable(absolute_uncertainties) else np.array(absolute_uncertainties, dtype=np.float64), pdf_type="normal")
""", cls=g, inline=INLINE_INIT, construct=g + "[rate]")
        f = ctx.func(m + ".__init__")
        h2 = head.replace("absolute_uncertainties", "covariance_matrix")
        ctx.after("rate", f, h2 + call % ("covariance_matrix", "self.main_model"), h2 + arr + SIGBOUNDS + """
        if callable(covariance_matrix):
            v = covariance_matrix
        else:
            v = np.array(covariance_matrix, dtype=np.float64)
            if v.shape[0] != len(b) and len(v.shape) == 2:
                raise InvalidInput("")
        return MainModel(rate, cov=v, pdf_type="multivariate_normal")
""", cls=m, inline=INLINE_INIT, construct=m + "[rate]", ignore_raise="dims" not in which)
    f = ctx.func(q + ".__init__")
    ph = "    def f(self, signal_yields, background_yields, data, absolute_uncertainties):\n"
    pp = """
        s = np.array(signal_yields, dtype=np.float64)
        b = np.array(background_yields, dtype=np.float64)
        d = np.array(data, dtype=np.float64)
        sigma = None if absolute_uncertainties is None else np.array(absolute_uncertainties)
        if sigma is not None:
            assert len(sigma) == len(d)
        m = -np.inf
        if np.any(s > 0.0):
            m = -np.min(b[s > 0.0] / s[s > 0.0])
        t = slice(1, 1 + len(d))
"""
    pc = "        self.__init__(signal_yields, background_yields, data, absolute_uncertainties)\n        return %s\n"
    want = {
        "rate": ("self.main_model", "MainModel(lambda pars: pars[0] * s + b) if sigma is None else MainModel(lambda pars: pars[0] * s + b + pars[t] * sigma)"),
        "positivity": ("(self.main_model, self.constraints)[1]", "[] if sigma is None else [NonlinearConstraint(lambda pars: b + pars[t] * sigma, 0.0, np.inf, jac=jacobian(lambda pars: b + pars[t] * sigma))]"),
        "layout": ("(self.config().poi_index, self.config().suggested_init, self.config().suggested_bounds)", "(0, [1.0], [(m, 10)]) if sigma is None else (0, [1.0] * (len(d) + 1), [(m, 10)] + [(None, None)] * len(d))"),
        "minimum": ("self.config().minimum_poi", "m"),
        "dims": ("self.main_model", "MainModel(lambda pars: pars[0] * s + b) if sigma is None else MainModel(lambda pars: pars[0] * s + b + pars[t] * sigma)"),
    }
    for w in which:
        if w in want:
            ctx.after(w, f, ph + "        assert not callable(signal_yields)\n" + pc % want[w][0], ph + "        assert not callable(signal_yields)\n" + pp + f"        return {want[w][1]}\n", cls=q, inline=INLINE_INIT, construct=q + f"[{w}]", ignore_raise=w != "dims", norm=None if w == "dims" else bins)


def samplers(ctx):
    ctx.returns("sampler", DB + ".get_sampler", """
        def f(self, pars):
            def s(sample_size, include_auxiliary=True):
                x = self.main_model.sample(pars, sample_size)
                if include_auxiliary:
                    x = np.hstack([x, self.constraint_model.sample(pars, sample_size)])
                return x
            return s
    """)
    ctx.returns("sampler", SB + ".get_sampler", """
        def f(self, pars):
            def s(sample_size, *args, **kwargs):
                return self.main_model.sample(pars, sample_size)
            return s
    """)


def expected_data(ctx):
    ctx.returns("expected-data", DB + ".expected_data", """
        def f(self, pars, include_auxiliary):
            x = self.main_model.expected_data(pars)
            if include_auxiliary:
                x = np.hstack([x, self.constraint_model.expected_data()])
            return x
    """)
    ctx.returns("expected-data", SB + ".expected_data", """
        def f(self, pars, **kwargs):
            return self.main_model.expected_data(pars)
    """)
    ctx.defaults("expected-data", DB + ".expected_data", include_auxiliary=True)


@prop("S05", min=6)
def s05(ctx):
    """Value-numbers the configuration of every built-in back end, the bound rescaling of ModelConfig and the statistic chosen by the hypothesis tests, and compares the parameter-of-interest lower bound for both flag values."""
    config(ctx)
    base.rescale_bounds(ctx)
    layout(ctx, ("minimum",))
    simple(ctx, ("minimum",))
    combiner.minimum_poi(ctx)
    combiner.fit_setup(ctx)
    interface.free_fits(ctx)
    hypotest.exclusion_cl(ctx)
    hypotest.limit_driver(ctx)
    hypotest.significance(ctx)


@prop("S17", min=3)
def s17(ctx):
    """Value-numbers the smallest admissible signal strength of every built-in configuration and of a combination."""
    layout(ctx, ("minimum",))
    simple(ctx, ("minimum",))
    combiner.minimum_poi(ctx)


@prop("S15", min=6)
def s15(ctx):
    """Value-numbers the concrete parameter layout (slices, initial values, bounds, names) of each built-in model for per-bin and shared nuisances with and without modifiers, and its use in rates, samplers, constraint terms and derivative helpers; equality over all lengths is decided with a symbolic bin count."""
    layout(ctx, ("init", "bounds", "names", "poi"))
    concrete(ctx, ("constraint-terms", "rate"))
    simple(ctx, ("rate", "layout"))
    samplers(ctx)
    expected_data(ctx)



@prop("S16", min=5)
def s16(ctx):
    """Value-numbers the inequality constraint registered by each constructor (function, derivative, bounds) and the background part of the expected rate and requires the same symbolic function of the parameters."""
    concrete(ctx, ("rate", "positivity"))
    simple(ctx, ("rate", "positivity"))
