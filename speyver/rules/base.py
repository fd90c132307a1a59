"""Model configuration, back-end base class, expectation types and derivative helpers."""
import re

from . import prop
from ..terms import const

MC = "ModelConfig"

FIXED = """
    def f(self, poi_value):
        if poi_value is None:
            return self.suggested_bounds
        b = copy.deepcopy(self.suggested_bounds)
        i = self.poi_index
        if b[i][0] is not None and poi_value <= b[i][0] or b[i][1] is not None and b[i][1] <= poi_value:
            low = self.minimum_poi if poi_value < 0.0 else 0.0
            b[i] = (low, max(poi_value + 1, low))
        return b
"""

FIXED_MULTI = """
    def f(self, poi_values):
        if not poi_values:
            return self.suggested_bounds
        b = copy.deepcopy(self.suggested_bounds)
        for i, v in poi_values.items():
            if b[i][0] is not None and v <= b[i][0] or b[i][1] is not None and b[i][1] <= v:
                if i == self.poi_index:
                    low = self.minimum_poi if v < 0.0 else 0.0
                    b[i] = (low, max(v + 1, low))
                else:
                    b[i] = (None if b[i][0] is None else min(b[i][0], v - 1), None if b[i][1] is None else max(b[i][1], v + 1))
        return b
"""


def fixed_bounds(ctx):
    # `not low < x` and `x <= low` differ for not-a-number only
    strict = lambda text: re.sub(r"(\w+) <= (b\[i\]\[0\])", r"not \2 < \1", re.sub(r"(b\[i\]\[1\]) <= (\w+)", r"not \2 < \1", text))
    ctx.returns("fixed-bounds", MC + ".fixed_poi_bounds", FIXED, also=[strict(FIXED)])
    ctx.returns("fixed-bounds", MC + ".fixed_poi_bounds_multi", FIXED_MULTI, also=[strict(FIXED_MULTI)])


RESCALE = """
    def f(self, allow_negative_signal, poi_upper_bound):
        b = copy.deepcopy(self.suggested_bounds)
        i = self.poi_index
        b[i] = (self.minimum_poi if allow_negative_signal else 0.0, poi_upper_bound if poi_upper_bound else b[i][1])
        return b
"""


def rescale_bounds(ctx):
    ctx.returns("rescale", MC + ".rescale_poi_bounds", RESCALE)
    ctx.defaults("rescale-default", MC + ".rescale_poi_bounds", allow_negative_signal=True, poi_upper_bound=None)


def resolve(ctx):
    ctx.returns("fixed-values", MC + ".resolve_poi_indices", """
        def f(self, poi_test):
            if not isinstance(poi_test, dict):
                return {self.poi_index: float(poi_test)}
            out = {}
            for key, val in poi_test.items():
                if isinstance(key, str):
                    if self.parameter_names is None:
                        raise ValueError("")
                    if key not in self.parameter_names:
                        raise ValueError("")
                    out[self.parameter_names.index(key)] = float(val)
                else:
                    out[int(key)] = float(val)
            return out
    """, ignore_raise=False)
    ctx.returns("nuisance", "spey.base.utils.resolve_parameter_index", """
        def f(parameter, cfg):
            if cfg.npar < 2:
                raise ValueError("")
            if isinstance(parameter, str):
                if cfg.parameter_names is None:
                    raise ValueError("")
                if parameter not in cfg.parameter_names:
                    raise ValueError("")
                return cfg.parameter_names.index(parameter)
            i = int(parameter)
            if i < 0 or i >= cfg.npar:
                raise ValueError("")
            if i == cfg.poi_index:
                raise ValueError("")
            return i
    """, ignore_raise=False)


def expectation(ctx):
    E = "ExpectationType"
    f = ctx.func(E + ".__eq__")
    ctx.returns("equality", f, """
        def f(self, other):
            if isinstance(other, ExpectationType):
                return str(self) == str(other)
            if isinstance(other, str):
                return str(self) == other
            if isinstance(other, bool):
                return self == (ExpectationType.apriori if other else ExpectationType.observed)
            if other is None:
                return False
            raise ValueError("")
    """, ignore_raise=False)
    for m in ("__str__", "__repr__"):
        ctx.returns("text", f"{E}.{m}", """
            def f(self):
                return self.name
        """)


@prop("S36", min=4)
def s36(ctx):
    """Decision-table equivalence of ExpectationType.__eq__ with the documented comparison, value-numbering of its text forms, and the hash: equality of members and their names needs a hash derived from the member name alone."""
    expectation(ctx)
    c = ctx.cls("ExpectationType")
    eq = c.methods["__eq__"]
    h = c.attrs.get("__hash__") if hasattr(c, "attrs") else None
    import ast
    node = None
    for n in c.node.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__hash__" for t in n.targets):
            node = n.value
    if "__hash__" in c.methods:
        o = ctx.returns("hash", c.methods["__hash__"], """
            def f(self):
                return hash(self.name)
        """)
    elif node is None:
        ctx.fail("hash", "ExpectationType.__hash__", eq.loc(), "__eq__ is overridden without a hash: members cannot be used as dictionary or cache keys")
    else:
        t = ctx.engine().const_expr(node, c.module)
        from .. import terms as T
        if t is T.raw("fn", "enum.Enum.__hash__"):
            ctx.ok("hash", "ExpectationType.__hash__")
        elif t is T.NONE:
            ctx.fail("hash", "ExpectationType.__hash__", eq.loc(), "__hash__ is None: members are not hashable")
        else:
            ctx.undec("hash", "ExpectationType.__hash__", "hash definition not recognised")
    ctx.check("members", "ExpectationType", {"apriori", "aposteriori", "observed"} <= {t.id for n in c.node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}, eq.loc(), "the documented members apriori, aposteriori and observed must exist")


@prop("S37", min=4)
def s37(ctx):
    """Decision-table equivalence of the name/index resolvers with their contract (own index or ValueError), of the renaming helper, and of the resolution inside maximize_likelihood / maximize_asimov_likelihood."""
    resolve(ctx)
    ctx.after("rename", MC + ".change_parameter_names", """
        def f(self, name_map):
            self.change_parameter_names(name_map)
            return self.parameter_names
    """, """
        def f(self, name_map):
            for o in name_map:
                if o not in self.parameter_names:
                    raise ValueError("")
            new = [name_map.get(n, n) for n in self.parameter_names]
            if len(set(new)) != len(new):
                raise ValueError("")
            return new
    """, ignore_raise=False)
    from .interface import MAXIMIZE, SM
    ctx.returns("reported-parameters", SM + ".maximize_likelihood", MAXIMIZE, ignore_raise=False)
    names_in_fits(ctx)


def names_in_fits(ctx):
    from .interface import SM

    f = ctx.cls(SM).methods.get("_resolve_poi_test")
    if f is not None:
        ctx.returns("names-in-fits", f, """
            def f(self, poi_test):
                return self.backend.config().resolve_poi_indices(poi_test) if isinstance(poi_test, dict) else poi_test
        """, ignore_raise=False)
