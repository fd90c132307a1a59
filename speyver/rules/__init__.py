"""Registry of the per-property checkers."""
INFO = {}
_RUN = {}


def prop(pid, min=1, explain="", assumptions=()):
    def deco(f):
        INFO[pid] = {"min": min, "explain": explain or (f.__doc__ or "").strip(), "assumptions": list(assumptions)}
        _RUN[pid] = f
        return f

    return deco


def run(pid, ctx):
    _RUN[pid](ctx)


from . import base, hypotest, interface, models, optimizer, combiner, densities, numerics, registry, cache, state, net, rng, contour, interval, inputs, failures, options, alias
