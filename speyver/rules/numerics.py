"""Signal-uncertainty modifiers, third-moment coefficients and bin-merging helpers."""
from . import prop
from .. import terms as T

U = "spey.backends.default_pdf.uncertainty_synthesizer"
M = "spey.backends.default_pdf.third_moment"
H = "spey.helper_functions"

SYNTH = """
    def f(signal_yields, modifiers, n_signal_parameters, domain_start):
        n = len(signal_yields)
        s = np.array(signal_yields, dtype=float)
        fs, cs, names = [], [], []
        k = 1 + n_signal_parameters + n if domain_start is None else int(domain_start)
        k0 = k

        def clamp(d):
            return np.clip(np.where(np.isnan(d), 1.0, d), 1.0, None)
        for i, m in enumerate(modifiers):
            kind = m.get("type")
            if kind not in ("normalization", "shape"):
                raise InvalidUncertaintyDefinition("")
            v = np.array(m["uncertainties"])
            name = m.get("name", f"mod{i}")
            if len(v) != n:
                raise InvalidUncertaintyDefinition("")
            if v.ndim == 1:
                up = 1.0 + np.where(s != 0.0, v / s, 0.0)
                dn = up
            elif v.ndim == 2:
                up = 1.0 + np.where(s != 0.0, v[:, 0] / s, 0.0)
                dn = 1.0 + np.where(s != 0.0, v[:, 1] / s, 0.0)
            else:
                raise InvalidUncertaintyDefinition("")
            lu, ld = np.log(clamp(up)), np.log(clamp(dn))
            if kind == "normalization":
                p = k
                k += 1
                names.append(f"theta_sig_{name}")
                cs.append({"distribution_type": "normal", "args": [np.zeros(1), np.ones(1)], "kwargs": {"domain": np.r_[p]}})

                def one(param, lu, ld, pidx):
                    return param[pidx] * (lu if param[pidx] > 0 else ld)
                fs.append(partial(one, lu=lu, ld=ld, pidx=p))
            else:
                idx = np.arange(k, k + n)
                k += n
                names.extend([f"theta_sig_{name}_{b}" for b in range(n)])
                for q in idx:
                    cs.append({"distribution_type": "normal", "args": [np.zeros(1), np.ones(1)], "kwargs": {"domain": np.r_[q]}})

                def many(param, lu, ld, indices):
                    return param[indices] * np.where(param[indices] >= 0, lu, ld)
                fs.append(partial(many, lu=lu, ld=ld, indices=idx))
        if not fs:
            return {"lambda": lambda _: 1.0, "constraint": [], "n_parameters": 0, "parameter_names": []}
        if len(fs) == 1:
            out = lambda x: np.exp(fs[0](x))
        else:
            def out(x):
                return np.exp(reduce(lambda a, b: a + b, (g(x) for g in fs)))
        return {"lambda": out, "constraint": cs, "n_parameters": k - k0, "parameter_names": names}
"""


def synthesizer(ctx):
    ctx.returns("modifier", U + ".signal_uncertainty_synthesizer", SYNTH)


THIRD = """
        def f(expectation_value, covariance_matrix, third_moment, return_correlation_matrix):
            v = np.diag(covariance_matrix)
            C = -np.sign(third_moment) * np.sqrt(2.0 * v) * np.cos(4.0 * np.pi / 3.0 + 1.0 / 3.0 * np.arctan(np.sqrt(8.0 * v**3 / third_moment**2 - 1.0)))
            C = np.where(np.isnan(C), 0.0, C)
            B = np.sqrt(v - 2 * C**2)
            A = expectation_value - C
            if return_correlation_matrix:
                r = np.zeros((C.shape[0], C.shape[0]))
                for i in range(r.shape[0]):
                    for j in range(r.shape[0]):
                        ci = C[i] + 1e-5 if C[i] >= 0 else C[i] - 1e-5
                        cj = C[j] + 1e-5 if C[j] >= 0 else C[j] - 1e-5
                        b = B[i] * B[j]
                        r[i, j] = (np.sqrt(abs(b**2 + 8 * ci * cj * covariance_matrix[i, j])) - b) / 4 / (ci * cj)
                        if i != j:
                            r[j, i] = r[i, j]
                return A, B, C, r
            return A, B, C
    """


def third(ctx):
    # the covariance matrix is symmetric: writing the mirrored element as well changes nothing
    mirrored = """                        if i != j:
                            r[j, i] = r[i, j]
"""
    ctx.returns("expansion", M + ".third_moment_expansion", THIRD, also=[THIRD.replace(mirrored, "")])
    ctx.returns("moments", M + ".compute_third_moments", """
        def f(absolute_upper_uncertainties, absolute_lower_uncertainties, return_integration_error):
            def g(x, upper, lower):
                w = upper if x >= 0.0 else lower
                return 2.0 / (upper + lower) * w * x**3 * norm.pdf(x, 0.0, w)
            a, b = [], []
            for u, l in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
                t, e = integrate.quad(g, -np.inf, np.inf, args=(abs(u), abs(l)))
                a.append(t)
                b.append(e)
            if return_integration_error:
                return np.array(a), np.array(b)
            return np.array(a)
    """)
    ctx.defaults("defaults", M + ".third_moment_expansion", third_moment=None, return_correlation_matrix=False)
    ctx.defaults("defaults", M + ".compute_third_moments", return_integration_error=False)


def helpers(ctx):
    ctx.returns("to-covariance", H + ".correlation_to_covariance", """
        def f(correlation_matrix, standard_deviations):
            d = np.diag(standard_deviations)
            return d @ correlation_matrix @ d
    """)
    ctx.returns("to-correlation", H + ".covariance_to_correlation", """
        def f(covariance_matrix):
            d = np.diag(1.0 / np.sqrt(np.diag(covariance_matrix)))
            return d @ covariance_matrix @ d
    """)
    ctx.returns("merge", H + ".merge_correlated_bins", """
        def f(background_yields, data, covariance_matrix, merge_groups, signal_yields, return_group_indices):
            assert len(data) == len(background_yields)
            assert len(data) == len(covariance_matrix)
            assert len(data) == len(signal_yields) if signal_yields is not None else True
            assert len(covariance_matrix) == len(covariance_matrix[0])
            merged = sorted((i for g in merge_groups for i in g))
            assert len(set(merged)) == len(merged)
            rest = sorted(set(range(covariance_matrix.shape[0])) - set(merged))
            groups = merge_groups + [[i] for i in rest]
            n = len(groups)
            v = np.zeros((n, n))
            b = np.zeros(n)
            d = np.zeros(n)
            s = np.zeros(n) if signal_yields is not None else None
            for i, g in enumerate(groups):
                b[i] = np.sum(background_yields[g])
                d[i] = np.sum(data[g])
                if signal_yields is not None:
                    s[i] = np.sum(signal_yields[g])
                for j, h in enumerate(groups):
                    v[i, j] = np.sum(covariance_matrix[np.ix_(g, h)])
            out = {"background_yields": b, "data": d, "covariance_matrix": v}
            if signal_yields is not None:
                out["signal_yields"] = s
            if return_group_indices:
                out["group_indices"] = groups
            return out
    """, ignore_raise=False)
    ctx.defaults("defaults", H + ".merge_correlated_bins", signal_yields=None, return_group_indices=False)


@prop("S28", min=6)
def s28(ctx):
    """Value-numbers the synthesised signal function, constraint terms, bounds and initial values for absolute, asymmetric and shared modifiers against the documented interpolation."""
    from .models import concrete, samplers

    synthesizer(ctx)
    concrete(ctx, ("rate", "constraint-terms"))
    samplers(ctx)


@prop("S29", min=5)
def s29(ctx):
    """Value-numbers the third-moment coefficients, the compressed third moments from bifurcated Gaussians and the effective sigma against the published formulas, and the expected rates of the third-moment and variable-Gaussian models which use them."""
    from .models import concrete

    third(ctx)
    concrete(ctx, ["rate"], ["ThirdMomentExpansion", "EffectiveSigma"])


@prop("S27", min=4)
def s27(ctx):
    """Value-numbers bin merging and the covariance/correlation helpers over all group lists (folds over the group list compared structurally), the errors of the validation included."""
    helpers(ctx)
