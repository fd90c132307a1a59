"""Distributions: log-densities, expected values and samplers of the building blocks."""
from . import prop
from .. import terms as T

D = "spey.backends.distributions"
INL = ("__init__", "log_prob", "sample", "expected_data", "_pdf", "__len__")


def poisson(ctx):
    c = D + ".Poisson"
    f = ctx.func(c + ".__init__")
    ctx.after("poisson-density", f, """
        def f(self, loc, value):
            self.__init__(loc)
            return self.log_prob(value)
    """, """
        def f(self, loc, value):
            m = np.clip(loc, 1e-20, None)
            if np.array(value).dtype in [np.int32, np.int16, np.int64]:
                return logpmf(value, m).astype(np.float64)
            return (value * np.log(m) - m - gammaln(value + 1.0)).astype(np.float64)
    """, cls=c, inline=INL, construct=c + ".log_prob")
    ctx.after("poisson-expected", f, """
        def f(self, loc):
            self.__init__(loc)
            return self.expected_data()
    """, """
        def f(self, loc):
            return np.array(np.clip(loc, 1e-20, None))
    """, cls=c, inline=INL, construct=c + ".expected_data")
    ctx.after("poisson-sample", f, """
        def f(self, loc, sample_size):
            self.__init__(loc)
            return self.sample(sample_size)
    """, """
        def f(self, loc, sample_size):
            m = np.clip(loc, 1e-20, None)
            return poisson(m).rvs(size=[sample_size] + [len(m)] if isinstance(m, np.ndarray) else [sample_size])
    """, cls=c, inline=INL, construct=c + ".sample")


def normal(ctx):
    c = D + ".Normal"
    f = ctx.func(c + ".__init__")
    ctx.after("normal-density", f, """
        def f(self, loc, scale, domain, value):
            self.__init__(loc, scale, domain)
            return self.log_prob(value)
    """, """
        def f(self, loc, scale, domain, value):
            x = value[domain]
            return logpdf(x, loc, scale(x) if callable(scale) else scale)
    """, cls=c, inline=INL, construct=c + ".log_prob")
    ctx.after("normal-expected", f, """
        def f(self, loc, scale, domain):
            self.__init__(loc, scale, domain)
            return self.expected_data()
    """, """
        def f(self, loc, scale, domain):
            return np.array(loc)
    """, cls=c, inline=INL, construct=c + ".expected_data")
    ctx.after("normal-sample", f, """
        def f(self, loc, scale, domain, value, sample_size):
            self.__init__(loc, scale, domain)
            return self.sample(value, sample_size)
    """, """
        def f(self, loc, scale, domain, value, sample_size):
            s = scale(value[domain]) if callable(scale) else scale
            return norm(loc, s).rvs(size=[sample_size] + [len(loc)] if isinstance(loc, np.ndarray) else [sample_size])
    """, cls=c, inline=INL, construct=c + ".sample")
    ctx.defaults("default-domain", f, domain=ctx.val("slice(None, None)", c + ".__init__"))


def multivariate(ctx):
    c = D + ".MultivariateNormal"
    f = ctx.func(c + ".__init__")
    ctx.after("multivariate-density", f, """
        def f(self, mean, cov, domain, value):
            self.__init__(mean, cov, domain)
            return self.log_prob(value)
    """, """
        def f(self, mean, cov, domain, value):
            x = value[domain]
            r = x - mean
            v = cov(x) if callable(cov) else cov
            return (-0.5 * (r @ np.linalg.inv(v) @ r) - 0.5 * (len(x) * np.log(2.0 * np.pi) + np.linalg.slogdet(v)[1])).astype(np.float64)
    """, cls=c, inline=INL, construct=c + ".log_prob")
    ctx.after("multivariate-expected", f, """
        def f(self, mean, cov, domain):
            self.__init__(mean, cov, domain)
            return self.expected_data()
    """, """
        def f(self, mean, cov, domain):
            return mean
    """, cls=c, inline=INL, construct=c + ".expected_data")
    ctx.after("multivariate-sample", f, """
        def f(self, mean, cov, domain, value, sample_size):
            self.__init__(mean, cov, domain)
            return self.sample(value, sample_size)
    """, """
        def f(self, mean, cov, domain, value, sample_size):
            return multivariate_normal(mean, cov(value[domain]) if callable(cov) else cov).rvs(size=(sample_size,)).reshape(sample_size, -1)
    """, cls=c, inline=INL, construct=c + ".sample")
    ctx.defaults("default-domain", f, domain=ctx.val("slice(None, None)", c + ".__init__"))


MAIN = """
    def f(self, loc, cov, pdf_type, %s):
        if pdf_type == "poiss":
            p = Poisson(loc(pars))
        elif pdf_type == "normal" and cov is not None:
            p = Normal(loc=loc(pars), scale=cov(pars) if callable(cov) else cov)
        elif pdf_type == "multivariate_normal" and cov is not None:
            p = MultivariateNormal(mean=loc(pars), cov=cov(pars) if callable(cov) else cov)
        else:
            raise DistributionError("")
        return %s
"""


def main(ctx):
    c = D + ".MainModel"
    f = ctx.func(c + ".__init__")
    for m, args, val in (
        ("log_prob", "pars, data", "np.sum(p.log_prob(data))"),
        ("expected_data", "pars", "p.expected_data()"),
        ("sample", "pars, sample_size", "p.sample(sample_size) if pdf_type == 'poiss' else p.sample(pars, sample_size)"),
    ):
        ctx.after("main-" + m, f, f"""
            def f(self, loc, cov, pdf_type, {args}):
                self.__init__(loc, cov, pdf_type)
                return self.{m}({args})
        """, MAIN % (args, val), cls=c, inline=("MainModel.__init__", "MainModel." + m, c + ".__init__", c + "." + m), construct=f"{c}.{m}", ignore_raise=False)
    ctx.defaults("main-default", f, cov=None, pdf_type="poiss")


CONSTRAINT = """
    def f(self, pdf_descriptions, %s):
        t = {"normal": Normal, "multivariatenormal": MultivariateNormal}
        ps = []
        for d in pdf_descriptions:
            assert d["distribution_type"].lower() in ["normal", "multivariatenormal"]
            ps.append(t[d["distribution_type"].lower()](*d.get("args", []), **d.get("kwargs", {})))
        return %s
"""


def constraint(ctx):
    c = D + ".ConstraintModel"
    f = ctx.func(c + ".__init__")
    for m, args, val in (
        ("log_prob", "pars", "sum((p.log_prob(pars).sum() for p in ps))"),
        ("expected_data", "", "np.hstack([p.expected_data() for p in ps]) if len(ps) > 1 else ps[0].expected_data()"),
        ("sample", "pars, sample_size", "np.hstack([p.sample(pars, sample_size) for p in ps]) if len(ps) > 1 else ps[0].sample(pars, sample_size)"),
    ):
        ctx.after("constraint-" + m, f, f"""
            def f(self, pdf_descriptions, {args}):
                self.__init__(pdf_descriptions)
                return self.{m}({args})
        """, CONSTRAINT % (args, val), cls=c, inline=(c + ".__init__", c + "." + m, c + ".__len__"), construct=f"{c}.{m}")


@prop("S30", min=12)
def s30(ctx):
    """Value-numbers the log-density, expected data and sampler of every distribution class, the dispatch by name and the product of constraint terms, against the normalised densities."""
    poisson(ctx)
    normal(ctx)
    multivariate(ctx)
    main(ctx)
    constraint(ctx)
