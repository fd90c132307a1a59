"""Constructor inputs (S38)."""
from . import prop, models, numerics
from .models import ARGS, BASE_INIT, CONCRETE, DB, SB, D, DEFAULT_CFG, INLINE_INIT, MINPOI, S, SIGBOUNDS, SIMPLE_INIT, TAIL

ARR = "np.array(%s, dtype=np.float64)"
EITHER = "%s if callable(%s) else np.array(%s, dtype=np.float64)"


def either(x):
    return EITHER % (x, x, x)


@prop("S38", min=12)
def s38(ctx):
    """Value-numbers the stored inputs of every built-in model together with the conditions under which its constructor raises, the modifier parser, the distribution classes and the statistical-model constructor."""
    f = ctx.func(DB + ".__init__")
    cov = "np.array(covariance_matrix, dtype=np.float64) if not callable(covariance_matrix) and covariance_matrix is not None else covariance_matrix"
    for name, want in (("data", ARR % "data"), ("signal_yields", either("signal_yields")), ("background_yields", ARR % "background_yields"), ("covariance_matrix", cov), ("n_signal_parameters", "n_signal_parameters")):
        ctx.after("stored", f, BASE_INIT % ("self." + name), DEFAULT_CFG % want, cls=DB, inline=INLINE_INIT, construct=f"{f.qual}[{name}]", ignore_raise=False, norm=models.bins)
    f = ctx.func(SB + ".__init__")
    head = "    def f(self, signal_yields, background_yields, data, n_signal_parameters, signal_parameter_bounds):\n" + MINPOI.lstrip("\n") + SIGBOUNDS.lstrip("\n") + "        return %s\n"
    for name, want in (("data", ARR % "data"), ("signal_yields", either("signal_yields")), ("background_yields", ARR % "background_yields"), ("n_signal_parameters", "n_signal_parameters")):
        ctx.after("stored", f, SIMPLE_INIT % ("self." + name), head % want, cls=SB, inline=INLINE_INIT, construct=f"{f.qual}[{name}]", ignore_raise=False, norm=models.bins)
    # the concrete models hand everything to their base class and add their own checks
    pre = {
        "EffectiveSigma": "        assert len(absolute_uncertainty_envelops) == len(background_yields)\n        assert len(correlation_matrix) == len(background_yields)\n",
    }
    args = {"signal_yields": "signal_yields", "background_yields": "background_yields", "data": "data", "covariance_matrix": "None", "modifiers": "modifiers",
            "n_signal_parameters": "n_signal_parameters", "signal_parameter_bounds": "signal_parameter_bounds"}
    for name, k in CONCRETE.items():
        f = ctx.func(f"{D}.{name}.__init__")
        params = f"{ARGS}, {k['extra']}, {TAIL}"
        a = dict(args)
        if name in ("CorrelatedBackground", "ThirdMomentExpansion"):
            a["covariance_matrix"] = "covariance_matrix"
        head = f"    def f(self, {params}):\n"
        body = pre.get(name, "") + DEFAULT_CFG.partition(":\n")[2].replace("covariance_matrix", a["covariance_matrix"])
        fields = ["data", "signal_yields", "background_yields", "n_signal_parameters"]
        for x in fields:
            want = {"data": ARR % "data", "signal_yields": either("signal_yields"), "background_yields": ARR % "background_yields", "n_signal_parameters": "n_signal_parameters"}[x]
            ctx.after("stored", f, head + f"        self.__init__({params})\n        return self.{x}\n", head + body % want, cls=f"{D}.{name}", inline=INLINE_INIT,
                      opaque=("third_moment_expansion", "covariance_to_correlation"), construct=f"{f.qual}[{x}]", ignore_raise=name == "CorrelatedBackground")
    models.simple(ctx, ("rate", "dims"))
    numerics.synthesizer(ctx)
    c = "spey.backends.distributions.MainModel"
    f = ctx.func(c + ".__init__")
    ctx.after("distribution", f, """
        def f(self, loc, cov, pdf_type):
            self.__init__(loc, cov, pdf_type)
            return self.pdf_type
    """, """
        def f(self, loc, cov, pdf_type):
            if pdf_type == "poiss" or (pdf_type in ("normal", "multivariate_normal") and cov is not None):
                return pdf_type
            raise DistributionError("")
    """, cls=c, inline=(c + ".__init__",), opaque=("spey.backends.distributions.MultivariateNormal", "spey.backends.distributions.MultivariateNormal.__init__"), ignore_raise=False)
    c = "spey.backends.distributions.ConstraintModel"
    f = ctx.func(c + ".__init__")
    ctx.after("distribution", f, """
        def f(self, name):
            self.__init__([{"distribution_type": name}])
            return None
    """, """
        def f(self, name):
            assert name.lower() in ["normal", "multivariatenormal"]
            return None
    """, cls=c, inline=(c + ".__init__",), opaque=("spey.backends.distributions.MultivariateNormal.__init__", "spey.backends.distributions.Normal.__init__"), ignore_raise=False)
    f = ctx.func("StatisticalModel.__init__")
    for x in ("backend", "analysis", "xsection", "ntoys"):
        ctx.after("wrapper", f, f"""
            def f(self, backend, analysis, xsection, ntoys):
                self.__init__(backend, analysis, xsection, ntoys)
                return self.{x}
        """, f"""
            def f(self, backend, analysis, xsection, ntoys):
                assert isinstance(backend, BackendBase)
                return {x}
        """, cls="StatisticalModel", inline=("__init__", "backend"), construct=f"{f.qual}[{x}]", ignore_raise=False)
