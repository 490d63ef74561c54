"""Generates properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["enterprise/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))
SB, GP, WS, DS = "signals/signal_base.py", "signals/gp_signals.py", "signals/white_signals.py", "signals/deterministic_signals.py"
PA, SE, UT, GB, GPR, AN = "signals/parameter.py", "signals/selections.py", "signals/utils.py", "signals/gp_bases.py", "signals/gp_priors.py", "signals/anis_coefficients.py"

prop("C01", "Results depend only on the parameters passed, never on earlier calls",
 "Whatever sequence of evaluations came before, asking a signal, a pulsar model or a PTA for its noise matrix, delay, basis, prior covariance, projected products or likelihood at given parameter values returns what a freshly built model would return for those values. In particular the small caches distinguish every varying parameter the result depends on (parameter and value, vectors included), never serve a result computed for other values, and an object handed out by one call is not altered by a later call.",
 ["histories", "inputs"], "every finite sequence of evaluations with arbitrary (repeated, alternating, partially equal) parameter dictionaries on one model",
 "Tests evaluate each model at one or two parameter points, nearly always on a fresh object; a wrong or incomplete cache key or a shared mutable result needs a specific alternating history to show.",
 [SB, GP, WS, DS, UT], [("parameter-keyed cache decorator and identity memo", SB), ("lists of parameter names each cached quantity depends on", SB), ("per-signal caching of noise, delay, basis", "gp_signals.py, white_signals.py, deterministic_signals.py")],
 [("per-object caches", "last results keyed on the values of the parameters they depend on")], ["get_ndiag", "get_delay", "get_basis", "get_phi", "get_phiinv", "get_TNT", "get_TNr", "get_rNr_logdet", "get_lnlikelihood"])
prop("C02", "Evaluating a model never modifies what the caller passed in",
 "Calling a public function, building a signal or evaluating a model leaves every argument the caller passed (arrays, lists, dictionaries of parameters, pulsar objects, sibling signals) with the contents it had before, with the exception of the functions whose documented purpose is to update an object (setting default parameters, sorting, filtering, deflating or inflating a pulsar). Arrays held by a pulsar or a model are not changed through results returned to the caller being recomputed.",
 ["inputs", "histories"], "every call of a public entry point with arguments of any supported form (scalars or arrays, shared between calls)",
 "Tests pass scalars or throw-away arrays and never look at their inputs again; in-place modification shows only when the caller reuses an array.",
 [UT, DS, GB, GPR, PA, SE, SB, GP, WS, AN], [("unit conversions and accumulations on local copies", "utils.py, deterministic_signals.py"), ("keyword dictionaries are rebuilt, not edited", PA)])
prop("C03", "One canonical parameter order for names, vectors, priors and transforms",
 "The parameter vector of a model has one layout: the distinct free parameters, including hyperparameters, sorted by name, each occupying as many consecutive slots as its size (one slot for scalars). Parameter names, the mapping from a vector to a dictionary, the log prior (sum over all free parameters of their log densities) and the unit-hypercube transform all follow that layout, so that a value at the position of a name is the value used for that name; vector and dictionary forms of the same values give the same log prior, transform and likelihood.",
 ["configurations", "inputs"], "every set of scalar and vector parameters, shared or not between signals and pulsars, and every vector of matching length",
 "Tests use a few models whose names happen to be sorted and mostly scalar parameters; misalignment depends on the mixture of sizes, names and sharing.",
 [SB, PA], [("sorted set of parameters", SB), ("slot counting by size", SB), ("prior and transform iterate over the same list", SB)], None, ["params", "param_names", "map_params", "get_lnprior", "get_hypercube_transform"])
prop("C04", "Constants are honoured; fixed and free parameters are told apart everywhere",
 "A parameter declared constant never appears among the free parameters or in the sampled vector, and wherever it is used its fixed value is used. Setting defaults on a model or pulsar assigns the given value to every constant with that name and to nothing else, and every later evaluation uses the newly assigned values, whatever was evaluated before.",
 ["configurations", "histories"], "every mixture of constant and free parameters in any signal, and every sequence of evaluations and default-setting calls",
 "Tests set defaults once before the first evaluation; staleness and leakage appear only with evaluation before setting, or with constants nested in functions.",
 [SB, PA, GP, WS, DS], [("constants filtered from parameter lists", "signal_base.py, parameter.py"), ("value look-up falls back to the constant's value", SB), ("caches dropped when constants change", SB)])
prop("C05", "User functions get each argument from the right source, in the right precedence",
 "When a declared function of parameters is evaluated, each of its arguments receives: the explicitly passed value if any; otherwise the value, in the parameter dictionary, of the very parameter bound to that argument; otherwise the bound constant; otherwise the nested function evaluated on the same parameters; otherwise the pulsar's attribute of that name (masked when a mask of that length is given); otherwise its own default. Parameters are named from signal, function and argument name so that distinct arguments and nested functions never share or lose a parameter unless the user passed the same instance, and the function reports exactly its free parameters.",
 ["programs", "inputs"], "every user function signature, every mixture of parameter classes, instances, constants, nested functions and plain values, and every call form",
 "Tests exercise two or three hand-written functions; precedence and naming errors depend on combinations (nesting, positional versus keyword, masks).",
 [PA, SE], [("keyword classification on construction", PA), ("keyword augmentation on call", PA), ("attribute injection from the pulsar", SE)])
prop("C06", "Sampling from hierarchical priors is consistent",
 "Sampling a list of parameters draws each distinct parameter, hyperparameters included, exactly once, before the parameters that depend on it, and every dependent draw and every returned value uses that one draw. The returned dictionary holds one entry per distinct free parameter of the list.",
 ["configurations", "inputs"], "every finite list of parameters with shared and nested hyperparameters, in any order",
 "Tests check one two-level hierarchy in one order; duplicated or ignored draws are invisible without comparing draws between parameters.",
 [PA], [("recursive sampling with a dictionary of earlier draws", PA)])
prop("C07", "Selections act exactly on their own TOAs, under their own label",
 "A selection splits a signal into one part per label; the parameters named with a label act on exactly the TOAs for which that label's selection is true and on no other TOA, and label, parameter name and mask always belong together. The standard selections partition or filter the TOAs as documented: half split at the mid time, by backend, frontend, band and telescope by flag value, NANOGrav backends by known names, frequency bands half-open.",
 ["inputs", "configurations"], "every pulsar (any flags, times, frequencies) and every selection function, for every signal that accepts a selection",
 "Tests use one data set with a handful of backends; swapped masks, off-by-one boundaries or wrong keys show only for particular flag values.",
 [SE, WS, GP, DS], [("labelled parameter and mask dictionaries", SE), ("masked contributions added per label", "white_signals.py, gp_signals.py")])
prop("C08", "The likelihood is the marginalised Gaussian likelihood in every branch",
 "The log likelihood equals -1/2 (sum of residual quadratic forms and noise log determinants) plus signal prior terms plus 1/2 (d^T Sigma^-1 d - log det Sigma - log det phi), with d and Sigma assembled from every pulsar's projected residuals, projected bases and inverse prior covariance; pulsars without a basis contribute only the first part. The independent-pulsar branch, the correlated sparse branch and the correlated dense branch use this same expression, residuals are data minus the total delay, and numerical failure of a factorisation yields minus infinity.",
 ["inputs", "configurations"], "every model (with or without common signals, bases and deterministic delays), every parameter point, every choice of factorisation",
 "Tests compare numbers for a few models at one point; sign, factor or missing-term errors in rarely used branches, and cross terms between pulsars, go unseen.",
 [SB], [("likelihood assembly, three branches", SB), ("projected products from noise solve", SB)], None, ["get_lnlikelihood", "get_TNT", "get_TNr", "get_rNr_logdet"])
prop("C09", "All white-noise matrix representations implement the same solve contract",
 "Each noise-matrix representation (diagonal, kernel with jitter blocks in Sherman-Morrison, block, fast Sherman-Morrison or sparse form, marginalised timing model) returns from its solve the product with the inverse of that noise matrix, with the left factor transposed when one is given and the log determinant of the matrix when asked, for one- and two-dimensional arguments, with the output shape of the corresponding matrix product. Adding a white-noise vector, from either side, gives the representation of the sum, so that the order in which signals are combined does not matter.",
 ["inputs", "configurations"], "every noise vector, every set of epochs (empty, single-TOA, interleaved), every argument shape, every order of addition",
 "Tests compare representations on one simulated data set with regular epochs and only some argument shapes.",
 [SB, WS, GP, UT], [("solve methods of each representation", "signal_base.py, gp_signals.py"), ("addition operators", SB), ("epoch quantisation", "white_signals.py, utils.py")])
prop("C10", "The prior covariance is assembled, inverted and measured as one matrix",
 "The joint prior covariance of a PTA is block diagonal in the pulsars' own covariances plus, for each pair of pulsars sharing a common process, the cross-covariance placed symmetrically at exactly the columns that process occupies in each pulsar. Every inversion method returns the inverse of that same matrix and its log determinant, mutually consistent, with contributions of overlapping basis columns added and every set of coupled indices inverted together.",
 ["configurations", "inputs"], "every number of pulsars, every set of common signals (overlapping, several classes, dense or diagonal), every inversion method",
 "Tests use two or three pulsars and one or two common signals; wrong block placement or clique merging needs particular overlaps.",
 [SB, UT], [("matrix assembly with slices per pulsar", SB), ("clique bookkeeping", "signal_base.py, utils.py"), ("kernel matrix addition and inversion", UT)])
prop("C11", "Combined basis columns keep track of which column belongs to which signal",
 "A pulsar's basis matrix contains every column of every signal's basis; identical columns are shared only between signals that allow combining, signals whose basis varies with parameters never share, and the bookkeeping maps every signal to the positions of its own columns in its own order. Basis values and prior covariances are written to, and read from, exactly those positions, whatever the order of the signals.",
 ["configurations", "inputs"], "every ordered list of signals with equal, partially equal, non-combinable or parameter-dependent bases",
 "Tests combine at most two bases in the favourable order.",
 [SB, GP], [("column hashing and index map", SB), ("basis and covariance filled through the map", SB)])
prop("C12", "All per-TOA data of a pulsar stay aligned under sorting and filtering",
 "Every per-TOA quantity a pulsar exposes (times, residuals, errors, frequencies, design matrix, flags, backend, telescope, planetary and solar-system vectors, times of day) refers to the same TOAs in the same order: exposed arrays are all permuted by the same time sort, or none when sorting is off. Filtering by a (possibly one-sided) time range keeps exactly the TOAs in that range in all of them.",
 ["inputs", "histories"], "every set of TOAs (unsorted, with ties), every combination of filters, every backend (timing package)",
 "Tests load already sorted data and compare a few attributes.",
 ["pulsar.py", "pulsar_inflate.py"], [("sort index applied in every accessor", "pulsar.py"), ("filter mask applied to every stored array", "pulsar.py")])
prop("C13", "Saved pulsars carry and restore every advertised field",
 "Every column, vector column, tensor column, flag and metadata item the feather format advertises is written from the pulsar under the name, unit and component from which the reader restores it, and reader and writer agree on all of them; metadata the pulsar lacks is skipped, never mislabelled. Noise dictionaries are written only with the entries belonging to the pulsar by name.",
 ["inputs", "configurations"], "every pulsar (any backend, with or without optional fields), every noise dictionary",
 "Tests save one pulsar and compare some fields.",
 ["pulsar.py"], [("tables of columns, vectors, tensors, metadata", "pulsar.py"), ("writer and reader loops over the tables", "pulsar.py")])
prop("C14", "Deflating and inflating a pulsar preserves every array and frees memory once",
 "Deflating a pulsar replaces its large arrays by descriptors in shared memory with the same contents, shape and type and remembers each of them; inflating yields the arrays back under the same names; destroying unlinks each segment once. Deflating an already deflated pulsar, inflating one that is not deflated, or destroying one that is not deflated, is refused or harmless, never corrupting.",
 ["histories", "inputs"], "every order of deflate, inflate, copy and destroy calls and every array shape and type",
 "Tests run one deflate/inflate/destroy cycle on one pulsar.",
 ["pulsar.py", "pulsar_inflate.py"], [("descriptor objects for shared memory", "pulsar_inflate.py"), ("state flag on the pulsar", "pulsar.py")])
prop("C15", "Loading a pulsar leaves the process where it was and picks the right loader",
 "Constructing a pulsar leaves the working directory of the process unchanged on every exit, including failures of the timing package. The loader is chosen by the given objects, file names and requested timing package as documented, passing on ephemeris, clock, planets, sorting and other options, and inconsistent requests are rejected with an error.",
 ["inputs", "fault_sequences"], "every form of argument list and every failure point inside the timing package",
 "Failure paths and most argument forms need timing packages that the tests do not always have.",
 ["pulsar.py"], [("directory change and restoration", "pulsar.py"), ("argument classification", "pulsar.py")])
prop("C16", "Prior density, sampler and percentile function describe one distribution",
 "For each built-in parameter type the density, the sampler and the percentile function use the same bounds, location and scale and describe the same normalised distribution, for scalar and vector parameters: density zero outside the support, joint density of a vector parameter the product over components, log density its logarithm.",
 ["inputs"], "every admissible bound, mean, width and size, and every argument value",
 "Tests draw samples or evaluate densities at a few points for fixed bounds.",
 [PA], [("triples of density, sampler, percentile function", PA)])
prop("C17", "Power-spectrum priors follow their documented formulas",
 "Each spectral prior (power law, turnover, turnover with knee, t-process, t-process power law, broken power law, free spectrum, flat infinite-variance and unit-variance priors, DMX-type constant prior) returns, for every mode of its basis, the documented spectral density times the frequency bin width in units of s^2, with frequency bin widths obtained from the distinct mode frequencies starting from zero and entries ordered as the basis columns.",
 ["inputs"], "every frequency vector and every hyperparameter value",
 "Tests evaluate single points or compare with a copy of the same formula.",
 [GPR, UT], [("spectral functions", GPR), ("frequency bin widths", GPR)])
prop("C18", "Basis constructors build the documented matrices, and variants agree",
 "The Fourier basis has alternating sine and cosine columns at k/T (with optional log-spaced low modes, explicit mode list, phase shifts), each frequency listed twice, all options honoured. Dispersion, chromatic, envelope, polarisation, ephemeris, popcorn and solar variants are the documented scalings of the same basis; timing-model, quantisation and interpolation bases are ordered by and aligned with the TOAs.",
 ["inputs", "configurations"], "all TOA and radio-frequency vectors, numbers of modes, time spans and options",
 "Tests check a few option combinations on one data set.",
 [GB, UT], [("Fourier basis constructor and variants", GB), ("quantisation and interpolation bases", UT)])
prop("C19", "Cross-pulsar correlations follow their documented functions and are symmetric",
 "Each overlap reduction function returns the documented function of the two sky positions, is unchanged on exchange of the two pulsars, and takes its auto-correlation value exactly when the two positions are equal. A common process gives each pulsar's own covariance as spectrum times auto-correlation and each pair's cross-covariance as the same spectrum times the pair's correlation, with the same parameters.",
 ["inputs", "configurations"], "all pairs of sky positions (also coincident) and all hyperparameter values",
 "Tests evaluate a few pairs.",
 [UT, GP], [("overlap reduction functions", UT), ("common-process covariance and cross-covariance", GP)])
prop("C20", "GP coefficients and conditional draws are attributed to the right process",
 "The conditional mean and draws of Gaussian-process coefficients use Sigma = T^T N^-1 T + phi^-1 and d = T^T N^-1 r at the given parameters, and each signal's coefficients, and the delays reconstructed from them, are taken from that signal's own columns of that pulsar, for independent and correlated pulsars. With explicit coefficients as parameters, the delay is basis times the coefficient vector and the coefficient prior is the Gaussian with the signal's prior covariance.",
 ["configurations", "inputs"], "every set of signals, number of pulsars and parameter point",
 "Tests look at one or two signals in one pulsar.",
 [UT, GP], [("conditional Gaussian process", UT), ("coefficient extraction", UT), ("coefficient-based delays", GP)])
prop("C21", "Options passed to a convenience constructor reach the signal they configure",
 "Every option accepted by a signal factory, model-building convenience function or basis/prior helper is passed on, unchanged and to the argument it is documented to control, and changes nothing else; defaults agree with the documentation. Sibling factories offering the same option treat it the same way.",
 ["configurations"], "every combination of options accepted by the factories",
 "Tests use few options away from their defaults; a dropped or crossed option is silent.",
 [GP, WS, DS, UT, PA], [("factory functions forwarding options", "gp_signals.py, white_signals.py, deterministic_signals.py, utils.py")])
prop("C22", "Model evaluation is deterministic",
 "Apart from the documented sampling functions and the randomised phase shift option, no public function draws random numbers or depends on the iteration order of unordered containers, object identities or the clock, so that the same inputs give the same parameter order, matrices and likelihood in every process. Functions that take a seed give the same result for the same seed.",
 ["histories", "inputs"], "every process, hash seed and call history",
 "A test process has one hash seed and one history.",
 [SB, PA, UT, GP, WS, SE, GB], [("who may draw random numbers", "all modules"), ("sorted iteration where order matters", "all modules")])
prop("C23", "Wideband timing: DM measurements enter the likelihood as documented",
 "With wideband data the DM of each TOA is modelled with its own DMX window and jump, DM errors scaled as dmefac^2 (err^2 + dmequad^2) per selection, DMX parameters estimated by inverse-variance weighting per window; the resulting delay, delay uncertainty (timing-model prior) and extra likelihood term use those same quantities consistently at the same parameters.",
 ["inputs", "configurations"], "all wideband data sets, selections and parameter values",
 "Tests use one data set and one parameter point.",
 [GP], [("wideband timing model", GP)])
prop("C24", "Deterministic waveforms implement the documented physics and sign conventions",
 "Ephemeris-error, continuous-wave and antenna-pattern functions compute the documented formulas in documented units (delays in seconds, positions in light seconds, angles in radians, masses in solar masses, distances in Mpc), Earth and pulsar terms entering with opposite signs, linear in the amplitude-like perturbations. A deterministic signal returns its waveform, restricted to each selection's TOAs, in the parameters' own values.",
 ["inputs"], "all times, positions and parameter values",
 "Tests evaluate a few points, often only for shape.",
 [UT, DS], [("ephemeris delays", "deterministic_signals.py, utils.py"), ("continuous-wave delay", DS), ("antenna pattern", UT)])
prop("C25", "Spherical-harmonic anisotropy routines share one convention",
 "Conversions between real and complex coefficient vectors, sky maps and correlation bases use one ordering of (l, m), one normalisation and one sign convention, inverse to each other where both directions exist; response matrices and correlation matrices of the basis are those of the documented antenna patterns, symmetric in the pulsars.",
 ["inputs"], "all maximum degrees, coefficient vectors, sky maps and pulsar positions",
 "Tests check the lowest degrees only.",
 [AN, UT], [("coefficient conversions", AN), ("correlation basis", AN)])
prop("C26", "Composing signals and pulsars keeps every component, in order, under its name",
 "Adding signals, collections, pulsar models and arrays of models in any grouping gives the same list of components in the given order; each component can be looked up by name or position, sizes and summaries count each of them, and per-pulsar results are lists in the order of the pulsars. Totals of noise, delay and prior terms over signals include each signal exactly once.",
 ["programs", "configurations"], "every expression combining signals and models",
 "Tests combine two or three signals in one grouping.",
 [SB], [("addition of signal and collection classes", SB), ("collection-level sums", SB), ("dictionary emulation", SB)])
prop("C27", "Every signal honours the contract of its declared type",
 "Whatever its construction, a signal declares its type, name and identifier, and lists for that type the names of all free parameters its noise, delay or basis depends on; quantities that its type does not provide are neutral (no basis, zero delay, no noise). White-noise signals combine measurement error, scale factors and added noise as documented, per selection, and jitter signals group TOAs of one epoch only within a selection.",
 ["configurations", "inputs"], "every signal factory of the package with every option and selection",
 "Tests check these lists for some signals and default options.",
 [WS, GP, DS, SB, UT], [("white-noise, GP and deterministic factories", "white_signals.py, gp_signals.py, deterministic_signals.py"), ("lists of relevant parameter names", "all signals")])
prop("C28", "Matrix products and factorisations are accurate to rounding for any conditioning",
 "For all admissible parameters, the computed likelihood differs from the exact value by no more than a small multiple of rounding error, and every covariance passed to a factorisation is positive definite.",
 ["inputs"], "all parameter values in the prior", "Needs bounds on run-time values.", [SB, UT], [("numerical linear algebra", "signal_base.py, utils.py")])
prop("C29", "Conditional draws follow the conditional distribution",
 "Draws from the conditional Gaussian process have exactly the conditional mean and covariance.",
 ["inputs"], "all models and random streams", "A distributional statement about run-time random numbers.", [UT], [("conditional sampling", UT)])
prop("C30", "Pulsar quantities equal those of the timing packages",
 "Residuals, design matrices, positions and ephemerides equal those computed by the timing package used for loading.",
 ["inputs"], "all par/tim files", "The values are computed outside this code base.", ["pulsar.py"], [("timing-package adapters", "pulsar.py")])
prop("C31", "Shared-memory pulsars are safe across concurrent processes",
 "Concurrent use of a deflated pulsar from several processes never sees freed or partially written memory and leaks no segment after all exit.",
 ["schedules", "crash_points"], "all interleavings and crashes of the processes", "Depends on operating-system lifetime and schedules.", ["pulsar_inflate.py", "pulsar.py"], [("shared memory segments", "pulsar_inflate.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
