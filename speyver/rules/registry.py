"""Back-end registry, calculators' availability, cross sections and wrapping of back ends."""
import ast

from . import prop
from .. import terms as T
from ..terms import const, raw
from .interface import SM
from . import combiner

REGISTER = """
    def f(model):
        assert issubclass(model, (BackendBase, ConverterBase)), ""
        if bool(getattr(model, "__abstractmethods__", False)):
            raise AbstractModel("")
        if not all((hasattr(model, m) for m in ["spey_requires", "name"])):
            raise MissingMetaData("")
        n = getattr(model, "name", "__unknown_model__")
        if n in _backend_entries:
            raise ValueError("")
        if Version(__version__) not in SimpleSpec(model.spey_requires):
            raise PluginError("")
        _backend_entries[n] = model
        return model
"""
REGISTER_AFTER = REGISTER.replace("return model", "return _backend_entries")

GET = """
    def f(name):
        b = _backend_entries.get(name, False)
        if not b:
            raise PluginError("")
        m = b if isinstance(b, type) else b.load()
        assert hasattr(m, "spey_requires"), ""
        if getattr(m, "name", False):
            assert m.name == name, ""
        else:
            setattr(m, "name", name)
        if Version(version()) not in SimpleSpec(m.spey_requires):
            raise PluginError("")
        if bool(getattr(m, "__abstractmethods__", False)):
            raise AbstractModel("")
        if issubclass(m, ConverterBase):
            m = m()
        return statistical_model_wrapper(m)
"""

META = """
    def f(name):
        b = _backend_entries.get(name, False)
        if not b:
            raise PluginError("")
        m = b if isinstance(b, type) else b.load()
        return {
            "name": getattr(m, "name", "__unknown_model__"),
            "author": getattr(m, "author", "__unknown_author__"),
            "version": getattr(m, "version", "__unknown_version__"),
            "spey_requires": m.spey_requires,
            "doi": list(getattr(m, "doi", [])),
            "arXiv": list(getattr(m, "arXiv", [])),
            "zenodo": list(getattr(m, "zenodo", [])),
        }
"""


@prop("S19", min=6)
def s19(ctx):
    """Decision-table equivalence of register_backend, get_backend and get_backend_metadata with their contract, the raised error class included at every exit; value-numbering of the wrapper that builds StatisticalModel from a served back end; listing of names."""
    ctx.returns("register", "spey.register_backend", REGISTER, ignore_raise=False)
    ctx.after("register-stores", "spey.register_backend", """
        def f(model):
            register_backend(model)
            return _backend_entries
    """, REGISTER_AFTER, ignore_raise=False)
    ctx.returns("serve", "spey.get_backend", GET, ignore_raise=False)
    ctx.stores("serve", "spey.get_backend", GET)
    ctx.returns("describe", "spey.get_backend_metadata", META, ignore_raise=False)
    ctx.returns("list", "spey.AvailableBackends", """
        def f():
            return [*_backend_entries.keys()]
    """)
    ctx.returns("version", "spey.version", """
        def f():
            return __version__
    """)
    wrapper(ctx)
    ctx.after("model", SM + ".__init__", """
        def f(self, backend, analysis, xsection, ntoys):
            self.__init__(backend=backend, analysis=analysis, xsection=xsection, ntoys=ntoys)
            return (self.backend, self.analysis, self.xsection, self.ntoys)
    """, """
        def f(self, backend, analysis, xsection, ntoys):
            assert isinstance(backend, BackendBase), ""
            return (backend, analysis, xsection, ntoys)
    """, inline=("__init__", "spey.interface.statistical_model.StatisticalModel.backend"), cls="spey.interface.statistical_model." + SM, ignore_raise=False)
    ctx.returns("model", SM + ".backend_type", """
        def f(self):
            return getattr(self.backend, "name", self.backend.__class__.__name__)
    """)
    ctx.defaults("model", SM + ".__init__", xsection=ctx.val("np.nan", SM + ".__init__"), ntoys=1000)


def wrapper(ctx):
    f = ctx.func("spey.interface.statistical_model.statistical_model_wrapper")
    inner = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node]
    if len(inner) != 1:
        ctx.undec("wrap", f.qual, "wrapper function not recognised")
        return
    ctx.after("wrap", f, """
        def f(func, x, **kwargs):
            return statistical_model_wrapper(func)(x, **kwargs)
    """, """
        def f(func, x, **kwargs):
            a = kwargs.pop("analysis", "__unknown_analysis__")
            c = kwargs.pop("xsection", np.nan)
            n = kwargs.pop("ntoys", 1000)
            return StatisticalModel(backend=func(x, **kwargs), analysis=a, xsection=c, ntoys=n)
    """)
    ctx.after("wrap", f, """
        def f(func, x, a, c, n):
            return statistical_model_wrapper(func)(x, y=1, analysis=a, xsection=c, ntoys=n)
    """, """
        def f(func, x, a, c, n):
            return StatisticalModel(backend=func(x, y=1), analysis=a, xsection=c, ntoys=n)
    """)
    ctx.after("wrap", f, """
        def f(func, x):
            return statistical_model_wrapper(func)(x)
    """, """
        def f(func, x):
            return StatisticalModel(backend=func(x), analysis="__unknown_analysis__", xsection=np.nan, ntoys=1000)
    """)


ASYMPTOTIC = """
    def f(self):
        b = type(self.backend)
        return b.expected_data != BackendBase.expected_data or (b.asimov_negative_loglikelihood != BackendBase.asimov_negative_loglikelihood and b.minimize_asimov_negative_loglikelihood != BackendBase.minimize_asimov_negative_loglikelihood)
"""


def flags(ctx):
    ctx.returns("available", SM + ".is_asymptotic_calculator_available", ASYMPTOTIC)
    ctx.returns("available", SM + ".is_toy_calculator_available", """
        def f(self):
            return type(self.backend).get_sampler != BackendBase.get_sampler
    """)
    ctx.returns("available", SM + ".is_chi_square_calculator_available", """
        def f(self):
            return True
    """)
    ctx.returns("listing", SM + ".available_calculators", """
        def f(self):
            return ["toy"] * self.is_toy_calculator_available + ["asymptotic"] * self.is_asymptotic_calculator_available + ["chi_square"] * self.is_chi_square_calculator_available
    """, also=["""
        def f(self):
            out = []
            if self.is_toy_calculator_available:
                out.append("toy")
            if self.is_asymptotic_calculator_available:
                out.append("asymptotic")
            if self.is_chi_square_calculator_available:
                out.append("chi_square")
            return out
    """])


@prop("S12", min=8)
def s12(ctx):
    """Value-numbers the availability flags (which optional hooks the back-end class overrides) of single models, combinations and the generic base, and requires every calculator-dispatching entry point to raise before computing when its flag is false."""
    flags(ctx)
    combiner.calculators(ctx)
    base_flags(ctx)
    rejection(ctx)


def base_flags(ctx):
    """the generic base declares the three flags abstract: every model class has to answer them"""
    c = ctx.cls("HypothesisTestingBase")
    for m in ("is_asymptotic_calculator_available", "is_toy_calculator_available", "is_chi_square_calculator_available"):
        f = c.methods.get(m)
        if f is None:
            ctx.undec("declared", f"{c.qual}.{m}", "not declared on the base class")
            continue
        ctx.functions.add(f.qual)
        names = {getattr(d, "id", getattr(d, "attr", None)) for d in f.node.decorator_list}
        ctx.check("declared", f.qual, bool(names & {"abstractmethod", "property"}), f.loc(), "the availability flag must be an (abstract) property")


OPQ = ("get_test_statistic", "compute_teststatistics", "compute_asymptotic_confidence_level", "compute_toy_confidence_level")


def rejection(ctx):
    f = ctx.func("HypothesisTestingBase.exclusion_confidence_level")
    for calc in ("asymptotic", "toy", "chi_square"):
        b = {"calculator": const(calc)}
        c = f"{f.qual}[{calc} unavailable]"
        flag = ctx.spec("""
            def f(self, calculator):
                return getattr(self, f"is_{calculator}_calculator_available", False)
        """, f, "HypothesisTestingBase", (), OPQ, b).value()
        o = ctx.run(f, "HypothesisTestingBase", (), OPQ, b)
        v = T.subst(o.value(), {flag: T.FALSE})
        ctx.same("rejected", c, v, raw("raise", "CalculatorNotAvailable"), f.loc(), ignore_raise=False)
        first = [e for e in o.events if e.kind.split("-")[-1] == "call" and e.fn in ("maximize_likelihood", "likelihood", "maximize_asimov_likelihood", "asimov_likelihood", "fixed_poi_sampler", "generate_asimov_data")]
        bad = [e for e in first if T.subst(e.guard, {flag: T.FALSE}) is T.TRUE]
        if bad:
            ctx.fail("rejected-first", c, bad[0].loc(), f"{bad[0].fn} is evaluated although the calculator is not available")
        else:
            ctx.ok("rejected-first", c, f"{len(first)} computing calls")


@prop("S34", min=4)
def s34(ctx):
    """Value-numbers excluded_cross_section and its two shorthands: limit at 95% for the requested expectation times the stored cross section, an error when there is none; and the combination's ranking by expected cross section."""
    ctx.returns("excluded", SM + ".excluded_cross_section", """
        def f(self, expected):
            if np.isnan(self.xsection):
                raise UnknownCrossSection("")
            return self.poi_upper_limit(expected=expected, confidence_level=0.95) * self.xsection
    """, ignore_raise=False)
    ctx.defaults("excluded", SM + ".excluded_cross_section", expected=ctx.val("ExpectationType.observed", SM + ".likelihood"))
    ctx.returns("expected", SM + ".s95exp", """
        def f(self):
            return self.excluded_cross_section(ExpectationType.apriori)
    """, ignore_raise=False)
    ctx.returns("observed", SM + ".s95obs", """
        def f(self):
            return self.excluded_cross_section(ExpectationType.observed)
    """, ignore_raise=False)
    ctx.returns("ranking", "UnCorrStatisticsCombiner.find_most_sensitive", """
        def f(self):
            return self[int(np.argmin([m.s95exp for m in self]))]
    """)
