"""The property list: source of properties.jsonl and of the MANIFEST (run tools/gen.py)."""
HB = "src/spey/base/hypotest_base.py"
SM = "src/spey/interface/statistical_model.py"
BB = "src/spey/base/backend_base.py"
MC = "src/spey/base/model_config.py"
BU = "src/spey/base/utils.py"
DP = "src/spey/backends/default_pdf/__init__.py"
SP = "src/spey/backends/default_pdf/simple_pdf.py"
US = "src/spey/backends/default_pdf/uncertainty_synthesizer.py"
TM = "src/spey/backends/default_pdf/third_moment.py"
DI = "src/spey/backends/distributions.py"
CO = "src/spey/combiner/uncorrelated_statistics_combiner.py"
OC = "src/spey/optimizer/core.py"
OS = "src/spey/optimizer/scipy_tools.py"
OM = "src/spey/optimizer/minuit_tools.py"
TS = "src/spey/hypothesis_testing/test_statistics.py"
AC = "src/spey/hypothesis_testing/asymptotic_calculator.py"
TC = "src/spey/hypothesis_testing/toy_calculator.py"
HD = "src/spey/hypothesis_testing/distributions.py"
HU = "src/spey/hypothesis_testing/utils.py"
UL = "src/spey/hypothesis_testing/upper_limits.py"
CT = "src/spey/multiparameter/contour.py"
CA = "src/spey/system/cache.py"
LG = "src/spey/system/logger.py"
WU = "src/spey/system/webutils.py"
IN = "src/spey/__init__.py"
HF = "src/spey/helper_functions.py"
MA = "src/spey/math.py"
UT = "src/spey/utils.py"

P = []


def p(id, title, statement, over, quant, why, files, mech, observe=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe))


p("S01", "One dataset per likelihood evaluation, chosen by expected and data",
  "Every back end evaluates its objective, log-density and Hessian on the same dataset: the explicitly supplied data when there is any, otherwise the background expectation for an a-priori evaluation, otherwise the observed data. A combination passes the same choice to every one of its models.",
  ["inputs", "configurations"], "all back ends, all expectation types, data given or not, all three numerical entry points",
  "The tests evaluate a handful of (backend, expectation, data) triples and compare only final numbers; a single entry point using the wrong dataset in one mode is not sampled.",
  [DP, SP, CO, SM], [("objective/logpdf/hessian builders of the default and simple back ends", DP + ":get_objective_function,get_logpdf_func,get_hessian_logpdf_func; " + SP + ":same; " + CO + ":same")], "return values of likelihood, maximize_likelihood and the numerical back-end hooks")

p("S02", "Likelihood sign, scale and forwarding from the public interface",
  "Likelihood values handed to the user are the negative log-likelihood by default and its exponential exp(-nll) when the caller declines the logarithm, for the free, fixed, Asimov and combined forms alike, whenever the value comes from spey's own numerical optimisation (the value of a back end's own optional shortcut method is passed through unchanged). The expectation type, data and fit settings given to the public call reach the back end unchanged, the Hessian and gradient helpers carry the matching sign, and the generic objective is minus the log-density, a gradient being offered only by back ends that supply one.",
  ["inputs", "configurations"], "all public likelihood calls, backends with and without the optional fast paths, both return forms",
  "Tests check default calls; the exponentiated form of each method with each backend capability is not enumerated.",
  [SM, CO, BB, HB, MA], [("likelihood, maximize_likelihood and their Asimov forms", SM + ":StatisticalModel.likelihood etc."), ("combination", CO), ("default objective", BB + ":BackendBase.get_objective_function"), ("Hessian helper", MA + ":hessian")], "values returned by the public likelihood methods")

p("S03", "A fit at a fixed parameter of interest keeps it fixed",
  "When a fit is asked to hold the parameter of interest (or a named set of parameters) at given values, those coordinates start at the values and are excluded from variation by every available minimiser. Unless the caller supplies bounds of their own, the bounds used contain the fixed values. The free fit applies no such restriction; parameters a model declares as fixed stay fixed.",
  ["inputs", "configurations"], "all scalar and dictionary fixed values (negative, zero, outside the configured bounds), all minimisers",
  "Tests fix a few values inside the bounds with the default minimiser.",
  [OC, OS, OM, MC, SM], [("fit", OC + ":fit"), ("minimisers", OS + ":minimize; " + OM + ":minimize"), ("bounds", MC + ":fixed_poi_bounds, fixed_poi_bounds_multi")], "parameter vectors returned by fits; optimiser arguments")

p("S04", "Caller-supplied objects and shared configuration are never modified",
  "No public call modifies an array, list, dictionary or bounds object it was given, nor the stored configuration of a model: after any call, repeating the same call sees the same inputs and gives the same result. Stored per-model state changes only through the documented setters, apart from internal helpers that are filled in once.",
  ["inputs", "histories"], "every public call and every mutable argument; every sequence of calls on one model",
  "Unit tests call each method once and do not compare the arguments before and after.",
  [OC, SM, HB, CO, SP, DP, US, HF, CT, MC], [("in-place operations on values reachable from parameters or from stored configuration", "all of src/spey")], "arguments after the call; stored configuration")

p("S05", "Negative signal policy is applied consistently",
  "When negative signal is not allowed, the suggested lower bound of the parameter of interest is zero; when it is allowed, the lower bound is the smallest value for which the expected yields stay valid. The choice of test statistic in exclusion tests, upper limits and discovery follows the same flag, and bound rescaling always keeps lower and upper limits consistent with what was asked for.",
  ["inputs", "configurations"], "all models, both flag values, scalar and per-parameter upper bounds",
  "Tests assert a few results for one flag value per entry point.",
  [MC, SP, DP, CO, HB, SM], [("configuration of the back ends", SP + ":config; " + DP + ":config; " + CO), ("bound rescaling", MC + ":rescale_poi_bounds"), ("choice of statistic", HB + ":exclusion_confidence_level, poi_upper_limit")], "suggested bounds; the statistic used")

p("S06", "Test statistics follow their published definitions",
  "The one-sided test statistics equal -2 ln of the profile-likelihood ratio on their side of the best-fit signal strength and zero on the other side, never negative, with the denominator at zero signal when the best fit is negative for the bounded-domain statistic. Each documented name selects its own statistic and unknown names are rejected.",
  ["inputs"], "every ordering of tested value, best fit and zero, every likelihood value, every statistic name",
  "Tests sample a few orderings; sign and boundary cases (equal, negative best fit) of each statistic are not all covered.",
  [TS], [("statistic definitions and name table", TS + ":qmu, qmu_tilde, q0, get_test_statistic")], "returned statistic values")

p("S07", "Asymptotic transformation of the test statistic",
  "The transformed statistic equals the difference of the square roots of the observed and Asimov statistics for the unbounded and discovery statistics and in the inner region of the bounded one, and (q-qA)/(2 sqrt(qA)) beyond it. A vanishing Asimov statistic in that region is reported as such and not as a number.",
  ["inputs"], "all pairs of observed and Asimov statistics, all statistic names",
  "The outer region and the zero-Asimov region are reached by no direct test.",
  [TS], [("eq. 65-66", TS + ":compute_teststatistics")], "triple returned to the exclusion calculation")

p("S08", "p-values, CLs ratio and expected bands",
  "p-values are upper-tail probabilities of the statistic under signal+background and background-only hypotheses, CLs is their ratio and zero for a vanishing denominator, and discovery uses the signal+background value while exclusion uses the ratio. Expected values are reported in the order -2, -1, 0, +1, +2 sigma.",
  ["inputs"], "all statistic values, samples and hypotheses",
  "Tests compare a few final numbers; orientation of the tail and band order for toys is not separated.",
  [HD, HU, AC, TC], [("distributions", HD), ("ratio and bands", HU + ":pvalues, expected_pvalues"), ("selection", AC + ", " + TC)], "p-values returned by the calculators")

p("S09", "Exclusion confidence level definition",
  "The exclusion confidence level is one minus the selected p-value of the tested signal strength, for observed, a-posteriori and a-priori requests, for every calculator; an undefined p-value means no exclusion. The a-priori and a-posteriori requests give the five-entry expected band, the observed request one entry.",
  ["inputs", "configurations"], "all tested values, expectation types, calculators, flag values",
  "The tests compare a few values of one calculator; zero-Asimov, NaN and toy branches are not sampled.",
  [HB, AC, TC, TS], [("exclusion", HB + ":exclusion_confidence_level")], "returned confidence levels")

p("S10", "Asimov data and the fits on it use one hypothesis",
  "Asimov data is the expected data of a fit with the signal strength fixed to one for the discovery statistic and to zero for every other statistic, and with the same expectation, initial values, bounds and minimiser options as the test that uses it. Likelihoods on Asimov data are evaluated on exactly that dataset for the same statistic.",
  ["inputs", "configurations"], "all statistics, expectations, option sets",
  "Tests use default options, for which the alternatives coincide.",
  [SM, HB, TS, CO], [("Asimov generation and its users", SM + ":generate_asimov_data, asimov_likelihood, maximize_asimov_likelihood"), ("test preparation", HB + ":_prepare_for_hypotest"), ("combined", CO)], "Asimov data and Asimov likelihoods")

p("S11", "Upper limits solve CL = target inside a bracketing interval",
  "An upper limit is a root of one minus the exclusion confidence level at the requested level, looked for in an interval that brackets it, and a sentinel (infinite) result with a warning is given when no bracketing interval exists. Expected limits come back in ascending order of fluctuation, with one entry per fluctuation requested, and the observed or single expected limit as a plain number.",
  ["inputs", "configurations"], "all models, confidence levels, expectation types, percentile requests, and initial guesses",
  "Tests evaluate a handful of models with defaults.",
  [UL, HB], [("root finding", UL + ":find_poi_upper_limit, find_root_limits"), ("driver", HB + ":poi_upper_limit")], "returned limits")

p("S12", "Calculators are available exactly when their ingredients exist",
  "A calculator is reported available exactly when the model's back end provides what it needs: Asimov data and expected data for the asymptotic one, sampling for the toy one, always for the chi-square one; a combination has what all of its members have. Asking for an unavailable calculator is rejected before any computation.",
  ["configurations"], "all back ends (including user plug-ins implementing any subset of optional features), all calculators",
  "Tests exercise only the bundled back ends, which implement everything.",
  [SM, CO, HB], [("availability", SM + ":is_*_calculator_available; " + CO)], "availability flags; raised error")

p("S13", "Missing optional back-end features fall back or fail clearly",
  "A back end that does not implement an optional feature makes the caller either use the documented generic path or raise a not-implemented error naming the feature; no other failure of a back end is swallowed or turned into a numerical result.",
  ["configurations", "fault_sequences"], "all optional features and all exceptions a back end may raise in them",
  "The bundled back ends implement all features; failures inside them are never injected.",
  [SM, BB, HB, CO], [("optional-feature handlers", SM + ": every try block; " + HB + ": every try block")], "exceptions reaching the caller")

p("S14", "Fit options reach the optimiser exactly once and unchanged",
  "Initial values, bounds, gradient choice and minimiser options supplied to a public likelihood, Asimov, exclusion, upper-limit, chi-square or significance call reach the numerical fits of the likelihoods whose value it reports; defaults are used only for what was not supplied. A combination applies them to the parameters and models they name.",
  ["inputs", "configurations"], "all public calls and options",
  "Option forwarding changes results only in hard fits; tests use the defaults.",
  [SM, HB, CO, BU, OC], [("option plumbing", SM + ":prepare_for_fit; " + BB + "; " + HB + "; " + CO)], "arguments at the optimiser")

p("S15", "Parameter vector layout agrees between all users",
  "The position of the signal strengths, the nuisance parameters and the modifier parameters in the parameter vector is the same for initial values, bounds, names, expected yields, constraint terms, samplers and derivatives of a model. The length of every per-parameter list equals the number of parameters.",
  ["inputs", "configurations"], "models with any number of bins, signals, shared or per-bin nuisances, and modifiers",
  "Tests use one or two bins and rarely inspect derived vectors.",
  [DP, SP, TM, US], [("slices and domains", DP + ":DefaultPDFBase; " + SP + ":SimplePDFBase; " + US)], "configuration and evaluations")

p("S16", "Positivity constraints match the expected-rate model",
  "The inequality constraint given to the optimiser is the same function of the parameters as the nuisance-dependent background part of the expected rate that enters the likelihood (up to the numerical floor), with a consistent derivative, and is registered for every built-in back end whose background can turn negative.",
  ["inputs"], "all parameter vectors, all default back ends",
  "A mismatch only shows when the optimiser runs along the boundary.",
  [DP, SP], [("rates and constraints", DP + ": constructors; " + SP)], "rate and constraint values")

p("S17", "Smallest admissible signal strength",
  "The smallest admissible signal strength is minus the smallest background-to-signal ratio over the bins with positive signal, minus infinity (or the documented fallback) when no bin has signal; for several signals the most restrictive bound is used. A combination uses the largest of its models' values.",
  ["inputs"], "all yields, including zero-signal bins",
  "Tests have all-positive signals.",
  [DP, SP, CO], [("minimum_poi", DP + ":config; " + SP + ":config; " + CO + ":minimum_poi")], "configuration")

p("S18", "A combination is the sum of its models",
  "The combined log-likelihood at a signal strength is the sum of every member's log-likelihood at that strength with that member's own data, options and expectation; combined fits minimise this sum over the union of the admissible ranges. Adding, removing, indexing and iterating over members reject duplicates and unknown names and keep names and models aligned.",
  ["inputs", "histories"], "all sets of models, options per model, mutation histories",
  "Tests combine two or three models and sample one strength.",
  [CO], [("combiner", CO + ":UnCorrStatisticsCombiner")], "combined likelihood values")

p("S19", "Back-end registry only serves valid, compatible back ends",
  "Only classes that implement the required interface and declare name and compatible version requirements can be registered or served; unknown names and incompatible versions are rejected with the documented errors; and registered ones can be listed, described and constructed. Registering never alters an existing entry silently.",
  ["configurations", "histories"], "all plug-in classes, version strings and registration orders",
  "Tests register one well-formed class.",
  [IN], [("registry", IN + ":register_backend, get_backend, get_backend_metadata")], "get_backend result or error")

p("S20", "Cached results equal fresh results",
  "A cached call returns what the uncached call with the same arguments would return: arguments (positional or keyword; arrays, plain values, text and nested containers of them) that compare unequal have different entries, instances, copies of an instance included, do not share entries when per-instance caching is requested, and modifying a returned object does not affect later calls unless copies were declined. A failed computation leaves no entry behind.",
  ["inputs", "histories"], "all argument combinations, all call histories",
  "Tests probe a few argument pairs.",
  [CA, SM], [("cache decorator", CA + ":cache_results, _make_token")], "second and later results of a cached call")

p("S21", "Concurrent cached calls compute once and never deadlock",
  "Concurrent identical calls on one cached function compute once and all get that result; the cache lock is not held while the decorated function runs or while a call waits for another one; waiters are always released, also when the computation fails (they then try again); and eviction keeps the finished entries within the limit without dropping a computation in progress.",
  ["schedules", "fault_sequences"], "all interleavings of callers, evictions, clears and failing computations",
  "Tests cannot enumerate thread interleavings.",
  [CA], [("lock, entry state and waiters", CA + ":cache_results")], "results, exceptions and termination of concurrent calls")

p("S22", "Process-wide state is restored after temporary changes",
  "Temporary changes to logging level, captured log handlers, warning filters and interpreter switches are undone on every way out of the call, including exceptions.",
  ["fault_sequences", "inputs"], "all exits of all functions that change process-wide state",
  "Tests exercise the normal exit.",
  [LG, CT, SM, HB, OC, OS, OM], [("context managers", LG + "; users elsewhere")], "logging and warnings state after the call")

p("S23", "No network or file access beyond the documented calls",
  "Network access happens only in the citation helpers and the version check, always with a finite timeout. A network failure never escapes from the citation functions, which then return an empty or partial answer, nor from the version check, whatever fails in it (the low-level BibTeX helper reports a lost connection as spey's own ConnectionError and gives an empty text for any other failure). Files are written, created or removed only by the version check, in its own cache directory and only files of its own naming, and a recent cached answer is used instead of the network. Importing the package and using the statistical functions need neither; the version check at import is switched off by SPEY_CHECKUPDATE=OFF.",
  ["fault_sequences", "configurations"], "all network failures and environments",
  "Tests run with the network they happen to have.",
  [WU, IN, UT, "src/spey/about.py"], [("web helpers", WU), ("import-time update check", IN)], "exceptions and open connections/files")

p("S24", "Optimiser entry point: options, defaults and reported value",
  "A fit returns the requested function value at exactly the parameter vector it returns; option names not belonging to the chosen minimiser do not reach it, documented defaults apply, and an unavailable minimiser falls back to the default one with a message.",
  ["inputs", "configurations"], "all option dictionaries and minimisers",
  "Tests use default options.",
  [OC, OS, OM, "src/spey/optimizer/__init__.py"], [("fit", OC + ":fit"), ("minimisers", OS + ", " + OM)], "returned pair; minimiser arguments")

p("S25", "Contours lie on the requested likelihood level",
  "The contour level is the minimum negative log-likelihood plus half the chi-square quantile for the requested confidence level, which must lie strictly between zero and one, and the number of distinct contour parameters; the search is confined to the parameter bounds and evaluates the same likelihood (signal strength one, same expectation) as the minimum. Profiled contours vary only the non-contour parameters, the signal strength is never a contour parameter, and the reported names, bounds, best-fit and point coordinates use one order. Every reported point is a converged root of the likelihood level: a chain that leaves the level, the bounds or the finite numbers ends and reports no further point.",
  ["inputs", "configurations"], "all models, parameter subsets, confidence levels, bounds orders",
  "Tests compare a two-parameter ellipse.",
  [CT, "src/spey/multiparameter/multiparam.py"], [("contour finder", CT + ":find_contour")], "returned contour")

p("S26", "Randomness is explicit and reproducible",
  "Every routine that takes a seed draws only from generators built from that seed (zero included) or from draws of such a generator, and work it runs in parallel draws from a generator of its own seeded beforehand, so that neither the number of workers nor their schedule matters; routines without a seed use the library-wide random state and never reseed or replace it; nothing random runs at import.",
  ["configurations", "histories", "schedules"], "all random routines, seeds and worker counts",
  "Tests run each routine once.",
  [CT, DI, DP, SP, SM, CO], [("generators", "every use of numpy.random in src/spey")], "sequences of samples")

p("S27", "Bin merging and covariance helpers preserve the model",
  "Merging bins sums yields within each group and adds the matching block of the covariance, keeps unmerged bins in order, and rejects overlapping groups and mismatched shapes. Covariance-correlation conversion uses the outer product of the standard deviations in both directions.",
  ["inputs"], "all groupings, sizes and matrices",
  "Tests use one grouping.",
  [HF], [("helpers", HF + ":merge_correlated_bins, covariance_to_correlation, correlation_to_covariance")], "returned arrays")

p("S28", "Signal uncertainty modifiers act as documented",
  "A signal-yield modifier scales the signal by the documented exponential interpolation (1+delta)^alpha of its relative uncertainty with its nuisance parameter (with the up and down variations for asymmetric input), never below the documented numerical floor, each with its own unit-Gaussian constraint, and enters the rate, the constraint and the sampler alike.",
  ["inputs"], "all modifier inputs and parameter values",
  "Tests use symmetric uncertainties.",
  [US, DP], [("synthesizer", US + ":signal_uncertainty_synthesizer"), ("use", DP)], "expected yields; constraint terms")

p("S29", "Third-moment and variable-Gaussian coefficients follow the publications",
  "The coefficients of the third-moment expansion and the effective sigma of the variable-Gaussian model are those of arXiv:1809.05548 and arXiv:physics/0406120, and inputs outside their domain of validity are handled as documented rather than producing complex or undefined numbers.",
  ["inputs"], "all covariance, third moment and asymmetric uncertainty inputs",
  "Tests compare one published example.",
  [TM, DP], [("coefficients", TM + ":compute_third_moments, third_moment_expansion"), ("effective sigma", DP + ":EffectiveSigma")], "coefficients; rates")

p("S30", "Distributions return true normalised log-densities",
  "Each distribution returns the logarithm of its normalised density (up to the documented continuous extension), with its width entering as standard deviation or covariance consistently in density, sampling and expected data. A product of constraints and main distributions is the sum of the log-densities over their own parameter ranges.",
  ["inputs"], "all data and parameters, scalar and vector, callable and constant widths",
  "Tests check Gaussian cases at a few points.",
  [DI], [("distributions", DI)], "log densities; samples; expected data")

p("S31", "chi-square, pull and significance definitions",
  "chi-square is twice the difference of negative log-likelihoods at the tested value and at the best fit (or at the given alternative), for each element of a scan in order and in full precision. Significance uses the discovery statistic with the documented square-root and p-value relations.",
  ["inputs"], "all poi values, scan containers, alternatives",
  "Tests use scalar values.",
  [HB], [("definitions", HB + ":chi2, pull, significance")], "returned values")

p("S32", "The chi-square interval ends where the statistic crosses its level",
  "The confidence interval of the chi-square test consists of the points on the requested sides of the best fit where the chi-square equals the quantile of the requested level, found in an interval bracketed away from the best fit; a requested side without a crossing is reported as the end of the search range or as undefined, never as a point inside it.",
  ["inputs", "configurations"], "all levels, sides and models",
  "Tests use one model and the two-sided form.",
  [HB], [("interval", HB + ":chi2_test")], "returned interval")

p("S33", "Uncertainty of the signal strength",
  "The uncertainty estimated from the Hessian is the square root of the signal-strength diagonal element of the inverse of the negative log-likelihood Hessian; the one estimated from the test statistic is the tested value over the square root of the statistic. Both use the same data and settings as the fit.",
  ["inputs"], "all tested values and models",
  "Tests compare two numbers.",
  [HB], [("estimators", HB + ":sigma_mu, sigma_mu_from_hessian")], "returned uncertainty")

p("S34", "Cross-section limits are limits times cross section",
  "Excluded cross sections equal the signal-strength limit times the model's cross section, for observed and expected forms; models without a cross section are reported as not having one. A combination's cross section handling follows the same rule.",
  ["inputs", "configurations"], "all models with and without cross section",
  "Tests evaluate one model.",
  [SM, CO], [("cross-section limits", SM + ":s95exp, s95obs, excluded_cross_section")], "returned cross sections")

p("S35", "Samples at a fixed signal strength come from the fitted model",
  "Pseudo-data for a fixed signal strength are drawn from the model at the parameters of the fit constrained to that strength with the requested expectation and options, have one row per requested sample, and include auxiliary data exactly when asked for.",
  ["inputs", "configurations"], "all strengths, sizes, options and back ends",
  "Tests inspect shapes only for a few models.",
  [SM, SP, DP, DI, CO], [("sampler", SM + ":fixed_poi_sampler; " + SP + ":get_sampler; " + DP + ":get_sampler")], "returned samples")

p("S36", "Expectation types compare and hash consistently",
  "An expectation type equals its own textual value and no other text, equals True exactly for the a-priori form and False exactly for the observed form, is different from None, and comparing it with any other kind of object is a value error. Members are hashable with hashes equal to those of their names, and text forms are the names.",
  ["inputs"], "all pairs of expectation types and foreign values",
  "Tests compare two pairs.",
  [UT], [("enum", UT + ":ExpectationType")], "==, hash, str")

p("S37", "Parameters are resolved to their own index or rejected",
  "A parameter named in a fixed-value, reporting or contour request is resolved to the index of exactly that parameter; unknown names are rejected with an error and never silently ignored. Renaming parameters applies all replacements simultaneously, rejects unknown old names and keeps names unique.",
  ["inputs", "configurations"], "all names, dictionaries and lists",
  "Tests use the signal strength only.",
  [SM, MC, OC, CT], [("name resolution", SM + "; " + MC + "; " + CT)], "resolved indices or errors")

p("S38", "Malformed model inputs are rejected at construction",
  "Construction fails with the documented error when a model is given a wrong number of signal-parameter bounds, signal modifiers together with a callable signal, modifiers of an unsupported type or shape, covariance or uncertainty inputs whose dimensions do not match (where the constructor checks dimensions, as documented), or unknown distribution names or types. Well-formed inputs are stored unchanged as double-precision arrays (or the callable itself).",
  ["inputs"], "all constructor inputs of the built-in back ends",
  "Tests build well-formed models.",
  [DP, SP, DI, US, TM, SM], [("constructors", DP + "; " + SP + "; " + DI)], "constructor error or stored values")

p("S39", "A model keeps its own copy of the data it was built from",
  "The bundled likelihoods copy the yields, uncertainties, covariances, moments and modifier lists they are given: changing any of these lists, arrays or dictionaries after construction changes no result of the model (nor of anything cached for it).",
  ["inputs", "histories"], "all constructor arguments of the bundled likelihoods; all later changes of the caller's objects",
  "Tests build a model from literals and never touch the inputs again; whether an array is shared depends on its type and dtype.",
  [DP, SP, US, TM], [("constructors and the functions they build", DP + "; " + SP)], "model results after changing the caller's arrays")

p("S40", "Evaluations of one model do not influence each other",
  "The result of evaluating a model depends on the model and the arguments only, not on other evaluations before, between or during it: the functions a model hands out keep no working state in variables shared between their calls, and evaluating changes no object that belongs to a module or class (documented registries, caches and logging excepted); a value kept for later evaluations is only given to evaluations with the same inputs.",
  ["histories", "schedules"], "all interleavings of evaluations of one model, in one thread or several",
  "Tests evaluate one point after another in one thread, so a shared scratch object always holds the right value.",
  [DI, SP, US, OC, CT], [("functions that outlive the function defining them", DI + "; " + US + "; " + SP)], "values of interleaved or concurrent evaluations")

TECH = {
    "S04": "may-alias and effect analysis with interprocedural summaries",
    "S13": "abstract interpretation of exception paths: each optional back-end call is made to fail with each class of error and the outcomes on every path are classified",
    "S20": "dataflow over the key-building code (what enters the key of each type) and path rules for store, copy and lookup",
    "S21": "typestate and lock analysis of the cache's paths (lock held sets, in-flight mark, waiters) over an explored path graph",
    "S22": "typestate analysis: every temporary change of process-wide state is undone on all paths, exceptional ones included",
    "S23": "effect and call-graph analysis of network and file calls, their guards, time-outs and handlers",
    "S26": "dataflow of random generators: source of every draw, and order of seeding before parallel work",
    "S39": "may-alias analysis of constructors and of the variables their closures capture",
    "S40": "escape and effect analysis of closures, module state and parameter defaults",
}
