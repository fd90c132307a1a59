"""Fits: the optimiser entry point and the minimisers."""
import ast

from . import prop
from .. import terms as T
from . import base
from ..framework import short

CORE = "spey.optimizer.core.fit"
SC = "spey.optimizer.scipy_tools.minimize"
MI = "spey.optimizer.minuit_tools.minimize"

FIT = """
    def f(func, model_configuration, do_grad, hessian, initial_parameters, bounds, fixed_poi_value, logpdf, constraints, **options):
        p0 = list(initial_parameters if isinstance(initial_parameters, (list, tuple, np.ndarray)) else model_configuration.suggested_init)
        if bounds is not None:
            b = [*bounds]
        elif isinstance(fixed_poi_value, dict):
            b = model_configuration.fixed_poi_bounds_multi(fixed_poi_value)
        else:
            b = model_configuration.fixed_poi_bounds(fixed_poi_value)
        name = options.pop("minimizer", os.environ.get("SPEY_OPTIMISER", "scipy").lower())
        if name not in ["scipy", "minuit"]:
            name = "scipy"
        fixed = [False] * len(p0)
        if fixed_poi_value is not None:
            if isinstance(fixed_poi_value, dict):
                for i, v in fixed_poi_value.items():
                    p0[i] = v
                    fixed[i] = True
            else:
                p0[model_configuration.poi_index] = fixed_poi_value
                fixed[model_configuration.poi_index] = True
        if model_configuration.suggested_fixed is not None:
            for i, s in enumerate(model_configuration.suggested_fixed):
                if s:
                    fixed[i] = True
        options.update({"poi_index": model_configuration.poi_index})
        if name == "minuit" and find_spec("iminuit") is not None:
            from spey.optimizer.minuit_tools import minimize as mm
            r = mm(func=func, init_pars=p0, fixed_vals=fixed, do_grad=do_grad, hessian=hessian, bounds=b, constraints=[] if constraints is None else constraints, **options)
        else:
            from spey.optimizer.scipy_tools import minimize as sm
            r = sm(func=func, init_pars=p0, fixed_vals=fixed, do_grad=do_grad, hessian=hessian, bounds=b, constraints=[] if constraints is None else constraints, **options)
        return (r[0] if logpdf is None else logpdf(r[1]), r[1])
"""

SCIPY = """
    def f(func, init_pars, fixed_vals, do_grad, hessian, bounds, constraints, **options):
        assert "poi_index" in list(options)
        options = _scipy_opts(options)
        method = options.pop("method", "SLSQP")
        tol = options.pop("tol", 1e-06)
        n = max(options.pop("ntrials", 1), 1)
        poi = options.pop("poi_index")
        options.setdefault("maxiter", 10000)
        options.setdefault("disp", False)

        def hold(i, v):
            def c(x):
                return x[i] - v
            return c

        cons = [] if constraints is None else list(constraints)
        x0 = list(init_pars)
        b = [tuple(y) for y in bounds] if bounds is not None else None
        for i, fx in enumerate(fixed_vals):
            if fx:
                cons.append({"type": "eq", "fun": hold(i, x0[i])})
        k = 0
        while k < n:
            k += 1
            opt = scipy.optimize.minimize(func, x0, method=method, jac=do_grad, hess=hessian, bounds=b, constraints=cons, tol=tol, options=options)
            if not opt.success and k < n:
                x0 = list(opt.x)
                for j, (low, up) in enumerate(b or []):
                    if j == poi:
                        b[j] = (low, None if up is None else max(up, up * 2.0))
                    else:
                        b[j] = (None if low is None else min(low, low * 10.0), None if up is None else max(up, up * 10.0))
            elif opt.success:
                break
        return opt.fun, opt.x
"""

MINUIT = """
    def f(func, init_pars, fixed_vals, do_grad, hessian, bounds, constraints, **options):
        options = _minuit_opts(options)
        method = options.get("method", "migrad")
        if do_grad:
            obj = lambda pars: func(pars)[0]
            grad = lambda pars: func(pars)[1]
        else:
            obj = func
            grad = None
        opt = Minuit(obj, np.atleast_1d(init_pars), grad=grad)
        opt.limits = [(None, None)] * len(init_pars) if bounds is None else bounds
        opt.fixed = fixed_vals
        opt.print_level = options.get("disp", 0)
        opt.errordef = options.get("errordef", Minuit.LIKELIHOOD)
        opt.strategy = options.get("strategy", 0)
        opt.tol = options.get("tol", 1e-06)
        if method == "migrad":
            opt.migrad(ncall=options.get("maxiter", 10000))
        elif method == "simplex":
            opt.simplex(ncall=options.get("maxiter", 10000))
        else:
            raise ValueError("")
        return float(opt.fval), np.array(opt.values)
"""

FILTER = """
    def f(self, options):
        if not all(k in options for k in self.must_list):
            raise AssertionError("")
        for key in list(options):
            if key not in self.opt_list + self.must_list + self.remove_list:
                options.pop(key)
            if key in self.remove_list:
                options.pop(key)
        return options
"""


def minimisers(ctx, rule):
    ctx.calls(rule, SC, SCIPY, "scipy.optimize.minimize")



def optimum(ctx):
    """scipy's minimiser returns the value and the point of one and the same optimisation result"""
    f = ctx.func(SC)
    try:
        o = ctx.run(f)
    except Exception as e:  # noqa: BLE001
        return ctx.undec("scipy-result", f.qual, f"analysis error {e}")
    for leaf in T.leaves(o.ret):
        if leaf.op == "tuple" and len(leaf.args) == 2 and all(x.op == "attr" for x in leaf.args):
            a, b = leaf.args
            ctx.check("scipy-result", f.qual, a.args[1] == "fun" and b.args[1] == "x" and a.args[0] is b.args[0], f.loc(),
                      f"returns ({short(a)}, {short(b)}) instead of the value and the point of one optimisation result")
        else:
            ctx.undec("scipy-result", f.qual, "result not recognised: " + short(leaf, 120))


def option_filters(ctx):
    ctx.after("filter", "ValidateOpts.__call__", """
        def f(self, options):
            return self(options)
    """, FILTER, cls="ValidateOpts", inline=("__call__",), ignore_raise=False)
    for fn, name, opts, must, rem in ((SC, "_scipy_opts", {"method", "maxiter", "disp", "tol", "ntrials"}, {"poi_index"}, set()),
                                      (MI, "_minuit_opts", {"errordef", "maxiter", "disp", "tol", "strategy", "method"}, set(), {"poi_index"})):
        f = ctx.func(fn)
        c = f"{f.module.name}.{name}"
        try:
            t = ctx.val("_conf", like=fn) if False else const_call(ctx, f.module, name)
        except Exception as e:  # noqa: BLE001
            t = None
        if t is None:
            ctx.undec("filter-tables", c, "table not recognised")
            continue
        ctx.check("filter-tables", c, t.get("opt_list", set()) == opts and t.get("must_list", set()) == must and t.get("remove_list", set()) == rem, f.loc(),
                  f"accepted options {sorted(t.get('opt_list', ()))}, mandatory {sorted(t.get('must_list', ()))}, dropped {sorted(t.get('remove_list', ()))}; documented {sorted(opts)}, {sorted(must)}, {sorted(rem)}")


def const_call(ctx, module, name):
    """keyword -> set of strings of a module-level ValidateOpts(...)"""
    for n in module.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and isinstance(n.value, ast.Call):
            out = {}
            for i, a in enumerate(n.value.args):
                out[("opt_list", "must_list", "remove_list")[i]] = a
            for k in n.value.keywords:
                out[k.arg] = k.value
            return {k: set(ast.literal_eval(v) or ()) for k, v in out.items()}
    return None


@prop("S24", min=12)
def s24(ctx):
    """Value-numbers the fit entry point (arguments of the chosen minimiser, fallback, returned pair), the arguments of every scipy.optimize.minimize call (first, second and any later attempt), the minuit set-up, and the option filters."""
    ctx.returns("fit", CORE, FIT, opaque=("minimize",), ignore_raise=False)
    ctx.calls("scipy-call", SC, SCIPY, "scipy.optimize.minimize", guards=True)
    optimum(ctx)
    ctx.returns("minuit-result", MI, MINUIT, ignore_raise=False)
    ctx.stores("minuit-setup", MI, MINUIT, before=("migrad", "simplex"))
    ctx.calls("minuit-call", MI, MINUIT, "iminuit.Minuit")
    ctx.calls("minuit-call", MI, MINUIT, "migrad", guards=True)
    ctx.calls("minuit-call", MI, MINUIT, "simplex", guards=True)
    option_filters(ctx)


@prop("S03", min=8)
def s03(ctx):
    """Value-numbers the default bounds for fixed values, the fit entry point (start values, held mask, bounds), the equality constraints handed to scipy and the held mask handed to minuit."""
    with ctx.limited("fixed-values", "names-in-fits"):
        base.resolve(ctx)
        base.names_in_fits(ctx)
    base.fixed_bounds(ctx)
    ctx.returns("fit", CORE, FIT, opaque=("minimize",), ignore_raise=False)
    ctx.calls("held-scipy", SC, SCIPY, "scipy.optimize.minimize")
    ctx.stores("held-minuit", MI, """
        def f(func, init_pars, fixed_vals, do_grad, hessian, bounds, constraints, **options):
            if do_grad:
                obj = lambda pars: func(pars)[0]
                grad = lambda pars: func(pars)[1]
            else:
                obj = func
                grad = None
            opt = Minuit(obj, np.atleast_1d(init_pars), grad=grad)
            opt.limits = [(None, None)] * len(init_pars) if bounds is None else bounds
            opt.fixed = fixed_vals
    """, before=("migrad", "simplex"))
    ctx.calls("held-minuit", MI, MINUIT, "iminuit.Minuit")
