PROPS = []
def P(**k):
    PROPS.append(k)
TECH = 'stateless bounded model checking of the implementation: '

P(id='C01', title='A constraint collection is a map from names to the latest constraint',
  statement='After any sequence of adding, setting, removing, copying and reloading constraints, a collection of parameter or measurement constraints (ParameterConstraints, Measurement) answers every query - names, central values, right/left errors, random draws, single and total log-probabilities with any set of excluded names, absolute or relative to the best fit - exactly as a map from each name to the most recently given constraint, with removed names absent and with the surviving members of a multivariate constraint still jointly distributed. Draws assign to every name the component of its own constraint in the requested shape, and a collection shares no state with its copies, with the distribution objects or with the name lists it was given.',
  over=['histories', 'inputs'], qtext='all operation sequences (add uni-/multivariate, set from string, remove, copy, reload, shared objects) over three symmetric names, all exclusion sets and evaluation points',
  why='The unit tests build a handful of collections; a stale index or group after overwriting/removing needs a specific sequence of several operations.',
  files=['flavio/classes.py', 'flavio/parameters.py', 'flavio/statistics/probability.py'],
  mech=[('Constraints.add_constraint/remove_constraint/set_constraint/copy', 'flavio/classes.py'), ('get_logprobability_all/get_random_all/get_1d_errors', 'flavio/classes.py')],
  technique=TECH + 'all operation sequences to a depth bound, against a last-writer-wins reference map',
  note='Exhaustive over all sequences of 15 operations to depth 3 (parameters) and 2 (measurements; thorough 4/3), 3 names; distribution kinds fixed; per-node comparison of all queries with a reference model.',
  design='''State = the real collection next to a reference map (name -> constraint, component). Every operation sequence up to the depth bound over an alphabet of 15 operations (7 distributions incl. 2- and 3-dimensional ones with permuted names, set from string, removals, continue-with-copy and damage the original, damage the copy, dump+load, one object used for two names) is executed on the real classes; after every prefix all queries are compared with the reference: names, central values, errors, draws (a deterministic draw identifying constraint, component and index), log-probabilities at several points for all 8 exclusion sets and both `delta` values. Both collection classes; measurement names include tuples.''')

P(id='C02', title='Dumping and loading preserves behaviour and modifies nothing',
  statement='Every probability distribution, collection of parameters, measurement and likelihood (ParameterLikelihood, MeasurementLikelihood, Likelihood, FastLikelihood) that is dumped to a dictionary/YAML/file and loaded again behaves like the original: same class, central values, support, errors and (joint and marginal) log-densities, same metadata, same observables, parameters, measurements used and options, same likelihood values. Dumping and loading modify neither the object nor the data they are given.',
  over=['inputs', 'configurations'], qtext='all distribution classes over a grid of constructor arguments, all measurements and parameters of the database, a product of likelihood definitions',
  why='Tests dump a few instances; every class and constructor form has its own serialisation special cases.',
  files=['flavio/io/instanceio.py', 'flavio/statistics/probability.py', 'flavio/classes.py', 'flavio/measurements.py', 'flavio/parameters.py', 'flavio/statistics/likelihood.py', 'flavio/io/yaml.py'],
  mech=[('ProbabilityDistribution.get_dict/get_yaml, dict2dist, string_to_class', 'flavio/statistics/probability.py'), ('YAMLLoadable', 'flavio/io/instanceio.py'), ('Constraints.get_yaml_dict/from_yaml_dict', 'flavio/classes.py'), ('write_file/read_file', 'flavio/measurements.py, flavio/parameters.py')],
  technique=TECH + 'complete grid of objects x dump forms, round trip compared observation by observation',
  note='Exhaustive over the stated grids and over the whole measurement/parameter database; distributions outside the grid are not covered.',
  design='''Every distribution of the grid in `lib/distgrid.py` (all classes, all argument forms, arrays/lists), every dump option, alone and as member of a collection; all measurements and default parameters of the database through files; every combination of likelihood class x observables x modified parameters x include/exclude x pseudo-measurements x nuisance setting. Oracle: the original object (state snapshots, log-densities at probe points, marginals, errors, metadata, likelihood values), twice (second generation).''')

P(id='C03', title='Value-with-uncertainty notations mean what they say or are rejected',
  statement='Every string in the documented notations for a value with uncertainties (plain number, any number of (..) / ± / +a-b uncertainties, common powers of ten and parentheses in all spellings, <x @ y% CL, [a, b], x */ y) yields exactly the distributions it denotes, at whatever scale and spacing, and a string outside of the notation raises instead of dropping a part of the input. Values and correlation matrices given in lists, dictionaries, upper-triangular or scalar form in measurement and parameter files yield the covariance they denote.',
  over=['inputs'], qtext='all words of a bounded grammar, a family of malformed words, all specification forms of correlated constraints',
  why='The parser is a set of regular expressions with many special cases; tests contain a dozen strings.',
  files=['flavio/_parse_errors.py', 'flavio/classes.py', 'flavio/measurements.py', 'flavio/parameters.py'],
  mech=[('errors_from_string, constraints_from_string, convert_to_pd...', 'flavio/_parse_errors.py'), ('_load', 'flavio/measurements.py'), ('read_file_values, _read_yaml_object_values(_correlated)', 'flavio/parameters.py')],
  technique=TECH + 'enumeration of all words of a bounded grammar with exact (rational) meaning by construction',
  note='Exhaustive for the stated grammar (two uncertainties, thorough three); numbers from a fixed list of mantissas/exponents.',
  design='''All strings of a bounded grammar (signs incl. the unicode minus, mantissas, sequences of uncertainty tokens, 12 spellings of the exponent, parentheses, blanks), with the meaning computed in exact rational arithmetic while the string is *generated* (no second parser). All strings of a malformed family must raise. Correlation forms (full, upper triangular, scalar, one per uncertainty, absent) through the YAML readers against an independently built covariance.''')

P(id='C04', title='Univariate probability distributions are coherent and as defined',
  statement='For every univariate probability distribution and every argument, the density is the one its documentation defines (in particular normalised), the log-density, CDF and quantile function are those of this density for scalars and arrays, the central value and support are correct, the left/right uncertainties at any number of standard deviations contain the stated probability or (for the limit-type error) satisfy the stated log-likelihood drop, and limits have the stated confidence level. The numerical representation of a distribution agrees with it.',
  over=['inputs'], qtext='all distribution classes x grid of constructor arguments (scales 1e-12..1e12, skewness, extreme counts, truncations) x evaluation points x nsigma x method',
  why='Tests check single instances; edge cases sit in particular ratios of the arguments.',
  files=['flavio/statistics/probability.py'],
  mech=[('all ProbabilityDistribution subclasses', 'flavio/statistics/probability.py'), ('NumericalDistribution.from_pd, get_error_left/right', 'flavio/statistics/probability.py')],
  technique=TECH + 'complete grid of distributions x points x options against independent reference densities',
  note='Exhaustive over the grid; reference densities are written independently (closed forms, mpmath-free quadrature); numerical tolerance 1e-6..1e-3 as the documented numerical grids allow.',
  design='''`lib/distgrid.py` enumerates every class with a product of constructor arguments; `lib/refdist.py` has the independent densities. For every instance: density at a grid of points (inside, at and outside the support), normalisation by quadrature, log-density = log of density, CDF = integral, quantile = inverse CDF, central value, errors (probability content for every nsigma and method), confidence levels of the limits, scalar vs array, numerical representation.''')

P(id='C05', title='Random draws follow the distribution they are drawn from',
  statement='For every probability distribution, random numbers (single or arrays of any size) are distributed according to its density, multivariate draws with the correct marginals and correlations, and the draws of a constraint collection are independent between independent constraints. They depend only on the random generator, and the requested shape is returned.',
  over=['inputs', 'schedules'], qtext='all distributions of the grid x draw sizes x systematically enumerated outcomes of the random generator',
  why='Tests compare means of pseudo-random samples loosely; tails, shapes and support cannot be settled by sampling.',
  files=['flavio/statistics/probability.py', 'flavio/classes.py', 'flavio/functions.py'],
  mech=[('get_random of all distributions', 'flavio/statistics/probability.py'), ('Constraints.get_random_all', 'flavio/classes.py')],
  technique=TECH + 'random generator replaced by a script enumerating its outcomes (Kronecker lattice of quantiles), distribution function of the outcome set compared with the reference',
  note='The generator is enumerated at a finite resolution (lattice of N quantile points per call site), so deviations of the distribution function below the lattice discrepancy are not resolved.',
  design='''The random generator is the environment: numpy.random is replaced (`lib/rng.py`) by a script that hands out the quantiles of a Kronecker lattice, a different irrational direction per call site and position. The resulting finite set of draws is deterministic; its empirical distribution function is compared with the reference CDF within the discrepancy of the lattice, in one dimension and for pairs (correlations), for single draws, arrays of several sizes and constraint collections.''')

P(id='C06', title='Convolution and combination of distributions',
  statement='Convolving several probability distributions gives the distribution of the sum of the independent deviations from their common central value, and combining several gives the normalised product of the densities, for any number and any order of the inputs, univariate and multivariate. Inputs that cannot be handled raise; the inputs are never modified.',
  over=['inputs'], qtext='all multisets up to size 3 in all orders of a set of shapes (normal, skewed, numerical, limits, delta, uniform, ...) at several scales, uni- and multivariate',
  why='Tests have few pairs; the algebra has many type-specific shortcuts and grid choices.',
  files=['flavio/statistics/probability.py'],
  mech=[('convolve_distributions, _convolve_*', 'flavio/statistics/probability.py'), ('combine_distributions, _combine_*', 'flavio/statistics/probability.py')],
  technique=TECH + 'all multisets and orders of a set of distributions against an own numerical convolution/product',
  note='Exhaustive for up to 3 distributions from the stated set; accuracy limited by the numerical grids of the code (tolerances in the check).',
  design='''All multisets (size up to 3, all permutations) over a set of shapes covering all type-dispatch branches. Reference: own FFT-free numerical convolution / product of the independently written densities. Checked: central value, density over a grid, log-density, errors; permutation invariance; NotImplementedError where not supported.''')

P(id='C07', title='Multivariate distributions: covariance forms and left-out components',
  statement='A multivariate normal distribution specified by covariance, by standard deviations and correlation (full, upper triangle, single number, absent; lists or arrays) at any mixture of scales is the same distribution with the correct density, errors and correlation; leaving out any set of components, up to all but one, gives the marginal density of the remaining ones, in construction order. For multivariate numerical distributions the density is the normalised interpolation on the grid, left-out components are profiled over, and the reduction to fewer dimensions gives the same densities.',
  over=['inputs', 'configurations'], qtext='dimensions 2-4 x scale mixtures x correlation structures x specification forms x all subsets left out x permutations x points',
  why='Tests use one 2- or 3-dimensional example at scale one.',
  files=['flavio/statistics/probability.py'],
  mech=[('MultivariateNormalDistribution, MultivariateNumericalDistribution (logpdf, exclude, reduce_dimension)', 'flavio/statistics/probability.py')],
  technique=TECH + 'complete product of specification forms, scales, left-out subsets and permutations against closed forms',
  note='Exhaustive over the stated product; dimension at most 4.',
  design='''Product of dimensions, correlation structures, scale mixtures (13 orders of magnitude), every specification form, every subset of left-out components, every permutation and a lattice of points, against scipy evaluated in rescaled variables / own multilinear interpolation.''')

P(id='C09', title='Predictions are pure functions of their inputs',
  statement='The prediction for an observable depends only on its arguments, the parameter values and the Wilson coefficients given: it is the same in a fresh process and after or between any other predictions - other observables, other parameter values (even differing in a single parameter), other Wilson coefficients - in any order. No prediction modifies the parameter dictionary, Wilson coefficients, default parameters or configuration it uses.',
  over=['histories'], qtext='histories: per parameter-reading code site the sequence base/changed/base; all observables in both directions; SM/new-physics points in all orders',
  why='Tests evaluate each observable at one point; stale caches only show when one particular input changes between two calls.',
  files=['flavio/physics', 'flavio/classes.py', 'flavio/functions.py', 'flavio/physics/eft.py', 'flavio/physics/running/running.py'],
  mech=[('lru_cache/persistent caches keyed on inputs', 'flavio/physics/running/running.py, flavio/physics/bdecays, ...'), ('WilsonCoefficients.get_wc cache', 'flavio/physics/eft.py'), ('Observable.prediction_par', 'flavio/classes.py')],
  technique=TECH + 'exhaustive call histories (fork-isolated) compared with fresh-process values',
  note='Covers every code location that reads a parameter (traced on the current tree) x that parameter, all observables in long histories, all orders of 3 (thorough 4) new-physics points for a covering set of observables.',
  design='''Reference: the value in a forked process in which nothing was evaluated. For every pair (code object reading a parameter, parameter) - found by tracing a recording dictionary on the current tree - a covering set of observables is evaluated at base point, at the point with this one parameter changed, and at the base point again. All observables are evaluated in one process forward, backward and interleaved with another parameter point; for a set of observables covering all traced code, all orders of SM / two WET points (and a SMEFT point). Inputs are compared before/after.''')

P(id='C08', title='A likelihood is the sum over the selected measurements and priors',
  statement='A MeasurementLikelihood selects exactly the registered measurements that constrain one of its observables and are allowed by the include/exclude lists and the pseudo-measurement setting, and its log-likelihood is the sum of their log-densities at the predictions, marginalised over (or restricted to) the observables left out or excluded, absolute or relative to the best fit; it is rejected if an observable is not measured. The likelihood at a parameter point is that of the predictions at this point, the total Likelihood adds the (joint) prior density of the fit parameters, numbers of observations count the constraints used, and a live likelihood follows later additions, replacements and deletions of measurements.',
  over=['configurations', 'histories', 'inputs'], qtext='subsets of six kinds of (multi-observable) measurements x observable sets and orders x include/exclude/pseudo selections x excluded observables x delta; sequences of registry operations with live likelihoods; every real observable',
  why='Tests evaluate a couple of likelihoods; double counting, wrong marginalisation or stale selection need a specific overlap of measurements and observables.',
  files=['flavio/statistics/likelihood.py', 'flavio/classes.py', 'flavio/statistics/probability.py'],
  mech=[('MeasurementLikelihood, ParameterLikelihood, Likelihood', 'flavio/statistics/likelihood.py'), ('Constraints.get_logprobability_*', 'flavio/classes.py')],
  technique=TECH + 'complete product of measurement sets, selections and exclusions in a toy world, all registry operation sequences to a depth',
  note='Exhaustive over the toy world (6 measurement kinds on 4 observables; quick: all sets of size <=2, a third of size 3, and the full set); registry sequences to depth 3 (thorough 4).',
  design='''Toy observables with closed-form predictions and six kinds of measurements (uni-/multivariate normal, asymmetric, uniform, numerical, a pseudo-measurement; overlapping observables in different orders) are registered through the public API in forked processes. For every set of measurements, ordered set of observables, include/exclude list, pseudo setting, excluded observables and `delta`, selection, number of observations and log-likelihood are compared with a sum written from the definition over independent densities (`lib/refdist.py`). Prior composition for every set of fit parameters. All sequences of adding/replacing/deleting measurements with four live likelihoods. For the real database: for every observable the likelihood equals the sum over all measurements of it.''')

P(id='C14', title='Observable names, argument formats, registries, derived observables',
  statement='For every registered observable, all documented forms of naming it with its arguments (string/tuple/list/dictionary) convert into each other without loss and malformed ones raise; get_measurements lists exactly the measurements of the observable. The registries of parameters, observables and measurements behave, after any sequence of creation, redefinition, deletion, clearing and search, as insertion-ordered maps independent of each other. An observable built from other observables by a function is that function of their predictions at any argument, parameter and Wilson coefficient point, and mismatched arguments or unknown observables are rejected.',
  over=['inputs', 'histories'], qtext='every observable x input form x output form; all operation sequences on four registries; all 1-,2-,3-tuples of three groups of observables',
  why='Tests use one or two observables of each kind and never delete or redefine in sequence.',
  files=['flavio/classes.py'],
  mech=[('Observable.argument_format, from_function, get_measurements, taxonomy', 'flavio/classes.py'), ('NamedInstanceMetaclass', 'flavio/classes.py')],
  technique=TECH + 'complete product of observables and forms; all registry operation sequences to depth 4 (thorough 5) against an ordered map',
  note='Exhaustive over all registered observables and forms; registries over three names and 11 operations; derived observables from 11 base observables.',
  design='''All registered observables x all input forms (all key orders of the dictionary) x all output forms, malformed inputs must raise; the list of measurements against a brute-force search; all operation sequences on Parameter/Observable/Measurement/plain registries against an ordered map (instances, lookup, regular-expression search, other registries untouched); all tuples of observables of equal arguments through `from_function` in all calling conventions, nested, and rejected combinations; all triples of taxonomy additions against a nested dictionary.''')

P(id='C15', title='The CKM matrix is the one its parameters denote in any parametrisation',
  statement='In each parametrisation (Standard, Tree, Wolfenstein, beta gamma) the CKM matrix computed from parameters describing the same physical matrix is that matrix in the standard phase convention, unitary, with the unitarity-triangle angles and all products of two elements (xi) following from it, in any history of switching parametrisations and parameters. Consequently the SM prediction of every observable is the same in all four parametrisations, and conjugating the CP-odd parameters conjugates the matrix.',
  over=['inputs', 'histories', 'configurations'], qtext='grid of angles and phases x parametrisation; all switching histories of length 3; all observables x parametrisation',
  why='The tests check one point of each parametrisation; other quadrants of the phase, switching, and observables bypassing the implementation are not covered.',
  files=['flavio/physics/ckm.py', 'flavio/physics/common.py', 'flavio/config.yml', 'flavio/physics'],
  mech=[('ckm_standard/tree/wolfenstein/beta_gamma, get_ckm, xi, get_ckmangle_*', 'flavio/physics/ckm.py'), ('conjugate_par', 'flavio/physics/common.py')],
  technique=TECH + 'grid over the parameter space and all switching histories against textbook formulas; all observables in all parametrisations',
  note='Exhaustive over the grid; tree and beta-gamma inputs restricted to |gamma|<pi/2 where the inversion in the dependency ckmutil is defined (beta-gamma: near the physical region).',
  design='''The matrix is written down from the textbook standard parametrisation; the parameters of all other parametrisations are computed from the matrix by their definition. Compared at a grid over angles and phases: the matrix in each parametrisation, the angles, xi for all index pairs, conversion functions; all sequences of (parametrisation, point) of length 3 (thorough 4); for every registered observable the SM prediction in all four parametrisations at equivalent parameters.''')

P(id='C10', title='The Standard Model is the limit of vanishing new physics',
  statement='For every observable and argument, "no new physics" written in any way - no coefficients, zero coefficients at any scale, in WET or SMEFT, as flavio or wilson object, or reset after having been set - gives exactly the Standard Model prediction. The deviation from the SM vanishes at least proportionally to the size of the new Wilson coefficients, and rates that are not normalised to another process are quadratic polynomials along any direction of Wilson coefficients without Delta F=2 and muon-decay contributions.',
  over=['inputs', 'configurations'], qtext='every observable x argument grid x 7 notations of no new physics x sequences of points on lines through all Wilson coefficients',
  why='Tests evaluate a handful of NP points; a cached or specially treated SM value, or a missing/wrong interference term shows up only in particular observables and coefficients.',
  files=['flavio/physics', 'flavio/physics/eft.py', 'flavio/functions.py'],
  mech=[('WilsonCoefficients.set_initial/get_wc, _wc_sm', 'flavio/physics/eft.py'), ('amplitudes and rates', 'flavio/physics')],
  technique=TECH + 'complete enumeration of observables x arguments x notations / lattice points on a generic line of Wilson coefficients',
  note='One generic direction (thorough: two) in the space of all WET coefficients; quadratic behaviour decided from five lattice points; rates only.',
  design='''All registered observables with an argument grid. Zero new physics in seven notations must equal the SM prediction. On a line through all WET Wilson coefficients at once (distinct complex values per coefficient), the deviation from the SM at 1e-7 must be at most 0.15 times that at 1e-6. For rates, third and fourth differences over a five-point lattice along the line (without Delta F=2 and muon decay coefficients) vanish exactly for |A0 + t A1|^2.''')

P(id='C11', title='All ways of asking for a prediction and its uncertainty agree',
  statement='For every observable, all conventions of passing its arguments (positional, keywords in any order, mixed) to sm_prediction, np_prediction, prediction_par and prediction_central give the same value; unknown, missing, repeated and superfluous arguments are rejected. For any set of random parameter points, sm_uncertainty/np_uncertainty/sm_covariance return the standard deviation/covariance of the predictions at exactly these points, whatever the number of points, the subset of parameters varied (par_vary), the parameter object and the number of threads.',
  over=['inputs', 'schedules', 'configurations'], qtext='every observable x calling convention; observables x number of points x par_vary x threads with scripted parameter points',
  why='The random generator makes the tests compare uncertainties at the 10% level only, with one thread count and calling convention.',
  files=['flavio/functions.py', 'flavio/classes.py'],
  mech=[('sm_prediction, np_prediction, sm_uncertainty, np_uncertainty, sm_covariance', 'flavio/functions.py'), ('Observable.prediction_par/prediction_central', 'flavio/classes.py')],
  technique=TECH + 'complete product of observables and calling conventions; scripted environment (parameter draws, process pool sizes) for uncertainties',
  note='Exhaustive over conventions; uncertainties for 8 observables, 5 par_vary sets, 1-3 threads, up to 7 points.',
  design='''All observables x SM/NP x all keyword orders/positional prefixes x entry points compared for exact equality; malformed calls must raise TypeError. For uncertainties the random parameter points are replaced by a script (deterministic points), so that the exact standard deviation/covariance is known: all combinations of observable, number of points, par_vary, parameter object and threads (real process pools).''')

P(id='C12', title='The stated dependences of predictions are complete',
  statement='For every observable and argument, the SM prediction depends only on the parameters returned by get_dependent_parameters_sm - changing all other parameters leaves it unchanged exactly - and each of these is a registered parameter that enters the calculation; new Wilson coefficients outside the sectors returned by get_dependent_wcs do not change it. The error budget sm_error_budget partitions these parameters into the jointly constrained groups and assigns each the relative standard deviation of the predictions when only this group is varied.',
  over=['inputs'], qtext='every observable x argument grid x (all non-dependent parameters / all Wilson coefficients of other sectors) changed; error budgets with scripted draws',
  why='Tests check two observables; a parameter missing from the list silently drops a part of the uncertainty.',
  files=['flavio/functions.py', 'flavio/classes.py', 'flavio/physics/eft.py'],
  mech=[('get_dependent_parameters_sm, get_dependent_wcs, AwareDict, AwareWilson', 'flavio/functions.py'), ('sm_error_budget', 'flavio/functions.py')],
  technique=TECH + 'complete enumeration of observables and arguments with simultaneous change of the complement, bisected on failure',
  note='Exhaustive over observables/arguments; one (thorough two) simultaneous changes of all non-dependent parameters; budgets for a subset of observables.',
  design='''For every observable and argument tuple the list of dependent parameters is taken from the implementation, all other (~1000) parameters are changed at once and the prediction must be bit-for-bit unchanged (on failure the culprit is found by bisection). The same with all coefficients of all WET sectors not listed. Budgets: the parameter draws are scripted, so the standard deviation of every group is known exactly.''')

P(id='C13', title='Observables have definite behaviour under CP conjugation',
  statement='Conjugating all CP-odd phases - CKM phase and all complex Wilson coefficients - leaves every CP-averaged or CP-even observable unchanged and flips the sign of every CP-odd one, in the Standard Model and with new physics. In particular CP asymmetries vanish if there is no CP-odd phase.',
  over=['inputs'], qtext='every observable (except those defined for a single CP eigenprocess) x argument grid x SM and new-physics points',
  why='Tests compare with literature values at one point; a missing conjugation in one interference term changes results by little or only with complex new physics.',
  files=['flavio/physics', 'flavio/physics/common.py'],
  mech=[('conjugate_par, conjugate_wc', 'flavio/physics/common.py'), ('CP asymmetries and averages', 'flavio/physics/bdecays, flavio/physics/mesonmixing, flavio/physics/kdecays')],
  technique=TECH + 'complete enumeration of observables x arguments x models, each executed together with its CP-conjugate',
  note='Excluded: observables defined for one decay without CP average, non-CP-averaged Lambda_b -> Lambda l l, B -> X l l, B -> l l gamma; spectator scattering without interpolation grids.',
  design='''CP conjugation is an involution on the space of models (parameters and Wilson coefficients). For every registered observable x arguments x {SM, generic complex WET/SMEFT point} the value in the model and in its conjugate are computed and must agree (even) or be opposite (odd; the list of CP-odd names is explicit).''')

P(id='C20', title='The default database is consistent and every observable computable',
  statement='Every registered observable has a finite real prediction at every argument at which it is measured and in its domain, in the Standard Model and with WET or SMEFT new physics (except in WET for observables only defined in SMEFT). Every entry of the measurement, parameter and particle data files is loaded with its value, errors and metadata; measurements refer to registered observables with the right arguments, no bin is given twice, errors and log-densities are finite, covariances positive definite; reading the defaults again, in any order or into another collection, reproduces the same state.',
  over=['inputs', 'histories'], qtext='all observables x measured and grid arguments x {SM, WET, SMEFT}; all entries of the data files; sequences of reading defaults',
  why='Only a few hundred of the >5000 observable/argument combinations and none of the ~2000 measured values are touched by tests.',
  files=['flavio/data', 'flavio/measurements.py', 'flavio/parameters.py', 'flavio/physics', 'flavio/classes.py'],
  mech=[('_load, read_default', 'flavio/measurements.py'), ('read_pdg, FlavioParticle, _read_yaml_object_*', 'flavio/parameters.py'), ('ParameterConstraints.read_default', 'flavio/classes.py'), ('Prediction instances', 'flavio/physics')],
  technique=TECH + 'complete enumeration of the database and of observables x arguments x models; all sequences of reading operations to depth 2',
  note='Exhaustive over the database; NP at one WET and one SMEFT point; proton PDFs replaced by a small analytic set on disk.',
  design='''All (observable, arguments) pairs from the argument grid and from all measurements are evaluated in the SM, at a generic WET and at a generic SMEFT point. The data files are parsed independently (plain YAML/CSV, own parser for the simplest notations) and compared with what was loaded, entry by entry. Sequences of re-reading the defaults (also after spoiling them, into another collection) must reproduce the state. The PDF set that pp observables need (not available offline) is replaced by analytic PDFs in LHAPDF format in a scratch directory.''')

P(id='C23', title='Robust optimisers continue from and return the best point found',
  statement='minimize_robust and maximize_robust try the given methods in order, at most `tries` times, each try starting from the best endpoint found so far (initially the given starting point) with the given additional arguments; the first result that converges is returned, otherwise the best endpoint found. The function value returned is that of the target function at the returned point, also for maximisation; the inputs are not modified, and the optimum of smooth convex functions is found with every method.',
  over=['schedules', 'inputs'], qtext='all sequences of outcomes of the underlying optimiser (converged or not, better/equal/worse/nan) x methods x tries x sign x arguments; functions x starting points x methods',
  why='With real functions the first method converges, so the retry logic is never exercised by the tests.',
  files=['flavio/math/optimize.py'],
  mech=[('minimize_robust, maximize_robust, minimize_migrad', 'flavio/math/optimize.py')],
  technique=TECH + 'optimiser (environment) replaced by a script enumerating all outcome sequences up to a depth, against the documented protocol',
  note='Exhaustive over outcome sequences to depth 4 (thorough 5, plus all single deviations in 12 tries); real optimisers on 480 problems.',
  design='''scipy.optimize.minimize and iminuit.Minuit are replaced by scripted stand-ins that return every possible sequence of outcomes; the observed protocol (order of methods, starting points, number of tries, returned result, sign) is compared with a reference written from the documentation. In addition four families of convex functions in 1-3 dimensions with the real optimisers.''')

P(id='C27', title='Significance, special and integration functions are exact',
  statement='confidence_level, delta_chi2, pull and pvalue give, for any number of degrees of freedom and from small to very large significance (30 sigma), the exact values defined by the chi-squared and normal distributions; pull and delta_chi2 are inverse to each other, in any order of calls. The normal density, dilogarithm (complex plane), zeta and exponential integral functions equal their definitions, and the numerical integration functions reach the requested accuracy for real and complex integrands and either order of the limits.',
  over=['inputs'], qtext='grid of numbers of sigmas x degrees of freedom x chi2; points of the complex plane; integrands x limits x accuracies',
  why='Tests check a dozen values at low significance.',
  files=['flavio/statistics/functions.py', 'flavio/math/functions.py', 'flavio/math/integrate.py'],
  mech=[('confidence_level, delta_chi2, pull, pvalue', 'flavio/statistics/functions.py'), ('normal_pdf/logpdf, li2, zeta, ei', 'flavio/math/functions.py'), ('nintegrate*', 'flavio/math/integrate.py')],
  technique=TECH + 'complete grid of arguments against closed forms (finite sums, series, functional equations, primitives)',
  note='Exhaustive over the grid (25 numbers of sigmas, 16 numbers of degrees of freedom, 18 chi2 values, 200 complex points, 6 integrands).',
  design='''Chi-squared tails from finite sums in logarithmic form, error functions, the dilogarithm from its Bernoulli series and inversion formulas, zeta from Euler-Maclaurin, Ei from its series, integrals from primitives. nsigma from 1e-3 to 30, dof 1..150.''')

P(id='C22', title='Citations are collected completely and exactly in the right scope',
  statement='Registering, clearing and resetting act on the current citation collection only; leaving a (nested) collection scope, also by an exception, restores the enclosing collection unchanged; unknown keys raise KeyError; set, iteration and string of a collection agree, and several processes registering in one collection lose nothing. Observable.theory_citations returns the same set whatever was computed before, leaves the global collection untouched, and equals what an ordinary prediction registers.',
  over=['histories', 'schedules'], qtext='all sequences of collection operations to a depth; all interleavings of two processes; all observables x {cold caches, after other computations}',
  why='Tests register one key and evaluate one observable in a fresh session; caching makes the set depend on history.',
  files=['flavio/citations.py', 'flavio/classes.py', 'flavio/physics'],
  mech=[('Citations, CitationScope', 'flavio/citations.py'), ('Observable.theory_citations', 'flavio/classes.py'), ('citations.register calls in (cached) functions', 'flavio/physics')],
  technique=TECH + 'all operation sequences to depth 5 (thorough 6) executed on the real objects against a stack-of-sets model; all interleavings of two real processes; cold/warm executions of every observable',
  note='Exhaustive to depth 5; theory_citations for every observable at one argument (thorough: all). Threads share one collection by design.',
  design='''Operations: register two keys, register by using a physics function, register in the root, register an unknown key, clear, reset, enter a scope, leave it, leave it by an exception. Every sequence is executed; all collections ever opened are compared with the model at the end. Interleavings of two processes are forced through pipes. For theory_citations each observable is evaluated in a forked process with cold caches and again in a process that computed many others.''')

P(id='C21', title='YAML files with inclusions denote their expanded content',
  statement='Reading a YAML document with !include and !include_merge_list gives exactly the document with every included file expanded in place: paths are relative to the file they are written in (or absolute), whatever the working directory and however the document is opened; merged lists are concatenated in order with all elements that are not names of existing files kept as they are; the order of keys is kept. Missing included files, cycles, malformed files, unsafe tags and relative inclusions in a text without file raise; no file is left open. Ordered mappings are dumped and loaded without change.',
  over=['inputs'], qtext='all documents of a bounded grammar over a tree of files including each other x ways of opening the document',
  why='The tests read one document with one inclusion of each kind.',
  files=['flavio/io/yaml.py', 'flavio/io/instanceio.py'],
  mech=[('SafeIncludeLoader.include, include_merge_list, _get_filename, load_include', 'flavio/io/yaml.py'), ('YAMLLoadable.load', 'flavio/io/instanceio.py')],
  technique=TECH + 'complete enumeration of documents of a bounded grammar and ways of reading, against a reference evaluator of the syntax trees',
  note='Exhaustive over the grammar (merge lists of up to 3 of 12 elements, 16 included paths, 4 positions, 8 ways of opening). Merged files contain lists.',
  design='''A scratch directory tree holds files including each other (downwards, upwards, absolutely, in chains). Every document of the grammar is read from an open file with absolute/relative name from two working directories, as path, from an unnamed temporary file, text, bytes. Dumping: all trees of mappings and lists to depth 2.''')

P(id='C28', title='Wilson coefficient objects and likelihood caches have no memory',
  statement='After any sequence of predictions, likelihood evaluations (at parameter points differing in any parameter), changes of running/matching options, new initial values, readings of coefficients, failed evaluations and modifications of returned dictionaries, every prediction, likelihood value and Wilson coefficient obtained with a wilson.Wilson or WilsonCoefficients object is the one obtained from newly created objects with the same coefficients, options and parameters; the coefficients of the object itself and the global Standard Model object are never modified.',
  over=['histories'], qtext='all operation sequences to a depth over two Wilson coefficient objects and two likelihoods',
  why='The caches of running results and of the last predictions are shared between objects; tests evaluate an object once.',
  files=['flavio/physics/eft.py', 'flavio/statistics/likelihood.py', 'flavio/classes.py'],
  mech=[('WilsonCoefficients.from_wilson, set_initial, get_wc', 'flavio/physics/eft.py'), ('MeasurementLikelihood.get_predictions_par', 'flavio/statistics/likelihood.py'), ('Prediction.get_par', 'flavio/classes.py')],
  technique=TECH + 'all operation sequences to depth 3 (thorough 4) executed on the real objects, each observation compared with new objects in the same abstract state',
  note='Exhaustive to depth 3 over 17 operations (30 operations at depth 2; thorough 4 and 3), starting in WET and in SMEFT; values chosen with equal hashes.',
  design='''The abstract state is (coefficients, options) of both objects; the expected value of an observation in a state is computed once with newly created objects. Coefficients -1/-2 and gamma = -1/-2 have equal hashes, so caches keyed by hashes are exposed.''')

P(id='C24', title='Covariances and FastLikelihood combine theory and experiment correctly',
  statement='MeasurementCovariance gives the central values and covariance of the weighted average of all included measurements, however they cover the observables and in whatever order; SMCovariance the covariance of the SM predictions due to exactly the varied parameters. After any sequence of computing (forced or not), saving and loading covariances - from files or dictionaries with the observables in another order or with additional ones; missing ones are rejected - the value in use is the latest, in the order of the observables. The FastLikelihood is the normal distribution around the experimental central values with the sum of the covariances in use, also with excluded observables.',
  over=['histories', 'inputs'], qtext='all coverings of up to 3 observables by up to 3 measurements x orders; varied parameter sets; all sequences of compute/get/save/load/make_measurement to a depth',
  why='Tests use random numbers with loose tolerances and one order of observables.',
  files=['flavio/statistics/likelihood.py', 'flavio/functions.py'],
  mech=[('SMCovariance, MeasurementCovariance, FastLikelihood', 'flavio/statistics/likelihood.py'), ('sm_covariance', 'flavio/functions.py')],
  technique=TECH + 'random generator replaced by an exact two-point design (all second moments exact); complete enumeration of coverings, orders and operation sequences against closed forms and a model of the caches',
  note='Exhaustive to depth 3 (thorough 4); normally distributed measurements, linear predictions.',
  design='''Worlds with up to three observables (one with arguments) at very different scales and a foreign one, three correlated parameters, measurements of any subset. numpy.random is replaced by Walsh functions, for which sample means and covariances are exact, so that a wrong matrix element cannot hide in statistical noise. Loaded covariances carry recognisable entries for each pair of observables.''')

P(id='C16', title='Running couplings, masses and coefficients solve their RG equations',
  statement='At every scale, number of flavours, input value and setting of the flavour thresholds: alpha_e is the one-loop running from M_Z, alpha_s and the quark masses start from their parameters and obey the three-loop equations at fixed number of flavours (given, or the one active at the scale) and are continuous at thresholds up to matching; pole, kinetic, 1S and top masses agree with the perturbative relations; transverse decay constants follow the leading-order factor from 2 GeV. rg_evolve_sm and get_wilson solve the given equations with the number of flavours changing at the thresholds, independently of the path, of earlier calls, of what the caller does with results, and of previous threshold settings; inputs are not modified and evolution below 0.1 GeV raises.',
  over=['inputs', 'histories', 'configurations'], qtext='grid of scales (both sides of every threshold) x flavours x inputs x threshold settings; all pairs of scales and intermediate scales; all call sequences to a depth',
  why='Tests compare a few numbers loosely; errors sit at thresholds, in certain flavour numbers or in caches.',
  files=['flavio/physics/running/running.py', 'flavio/physics/running/masses.py', 'flavio/physics/running/betafunctions.py'],
  mech=[('rg_evolve_sm, get_wilson, get_alpha_e, get_alpha_s, get_m*, get_f_perp', 'flavio/physics/running/running.py'), ('mMS2mKS, mKS2mMS', 'flavio/physics/running/masses.py')],
  technique=TECH + 'complete grid of scales x flavours x inputs x thresholds and all call sequences to depth 3 (thorough 4), against an independent Runge-Kutta solution and closed forms',
  note='Exhaustive over the grid and to depth 3 over 6 operations; RunDec (dependency) provides alpha_s and masses, compared to 1e-4 (alpha_s) .. 1e-2 (masses below 2 GeV).',
  design='''An own Runge-Kutta integration of the three-loop beta function and mass anomalous dimension and of a generic 3x3 flavour-dependent anomalous dimension is the oracle; alpha_e in closed form. The evolution is run for all pairs of scales, including the thresholds themselves, with output flavours between those active at the two scales, there and back and through every intermediate scale. Sequences of calls with changed thresholds in between, and with the returned arrays overwritten by the caller, must each give the value of a first call.''')

P(id='C17', title='Binned observables are the integrals of the unbinned ones',
  statement='For every observable depending on a bin of q2 or of a decay angle, at any Wilson coefficients: partial branching ratios are the integral, binned differential branching ratios the average, and binned asymmetries and flavour ratios the rate-weighted average of the corresponding unbinned observable over the part of the bin that is kinematically allowed (also for bins reaching beyond the limits; rates in bins outside vanish); narrow bins give the unbinned value (also for the optimised observables P_i); adjacent bins add up, and the whole range gives the total branching ratio (or ratio of these).',
  over=['inputs'], qtext='all observables with a bin x bins covering the physical range and its limits x Wilson coefficient points',
  why='Tests evaluate selected observables in a few bins against literature numbers with loose tolerances.',
  files=['flavio/physics/bdecays', 'flavio/physics/ddecays/dplnu.py', 'flavio/math/integrate.py'],
  mech=[('BR_binned, bvll_obs_int_*, ang. bins', 'flavio/physics/bdecays/bvlnu.py, bplnu.py, bpll.py, bvll/observables.py, lambdabll.py'), ('nintegrate', 'flavio/math/integrate.py')],
  technique=TECH + 'complete enumeration of observables x bins (x points, thorough), against an independent Gauss-Legendre integration of the unbinned observable',
  note='All 499 q2-binned and 72 angle-binned observables, up to 10 bins each; relative tolerance 4e-3 (the library integrates to 5e-3). Quick: one point, asymmetries in three bins; thorough: three points, all bins. The charmonium region and the end point of B->llgamma are not covered.',
  design='''`lib/semilep.py` derives the physical range of each process from its name and the masses. Bins: parts of the low- and high-q2 region, the photon pole, the whole range, bins starting below and ending above the limits and outside. The reference integrates the unbinned observables with 16 (or 32) Gauss-Legendre nodes clustered at the ends, weighted with the differential branching ratio for asymmetries (with the one of the denominator for flavour ratios). All Wilson coefficients of the process are non-zero and complex.''')

P(id='C19', title='Observables defined through other observables agree with them',
  statement='At any Wilson coefficients, every observable that is by definition a function of other registered observables takes exactly that value: lepton flavour ratios (differential, binned, total) and differences, averages over electrons and muons, sums over the two charge combinations of lepton flavour violating decays, longitudinal and transverse rates and polarisation fractions, angular distributions and the total asymmetries derived from them, bins normalised to the total rate, optimised angular observables, angular coefficients of baryon decays and their normalisation, ratios of (semi)leptonic and radiative branching ratios, effective lifetimes, Z-pole partial widths, ratios, asymmetries and peak cross section, W ratios, Higgs signal strengths as products of production and decay, and the parameters of meson mixing.',
  over=['inputs', 'configurations'], qtext='all definitional relations generated from the registry of observables x Wilson coefficient points (SM, WET with every coefficient complex and lepton flavour violating, SMEFT) x points in q2 and angles',
  why='Each observable has its own implementation path; tests compare single values with the literature in the SM and rarely two observables with each other, so an inconsistency (a wrong lepton, missing NP contribution, wrong normalisation) in one of two related observables shows only in specific decays and NP scenarios.',
  files=['flavio/physics/bdecays/bvlnu.py', 'flavio/physics/bdecays/bvll/observables.py', 'flavio/physics/bdecays/bplnu.py', 'flavio/physics/bdecays/bll.py', 'flavio/physics/zdecays/gammaz.py', 'flavio/physics/wdecays/gammaw.py', 'flavio/physics/higgs/signalstrength.py', 'flavio/physics/mesonmixing/observables.py', 'flavio/physics/quarkonium/Vll.py', 'flavio/physics/bdecays/lambdablambda1520ll.py'],
  mech=[('BR_L/BR_T/FL/angles', 'flavio/physics/bdecays/bvlnu.py'), ('ratio functions', 'flavio/physics/bdecays/bxll.py, bplnu.py, bpll.py, bvll/observables.py'), ('sums over charges', 'bll.py, kll.py, Vll.py, bpll_lfv.py')],
  technique=TECH + 'complete enumeration of the definitional relations between registered observables x Wilson coefficient points',
  note='About 1450 relations at up to 8 Wilson coefficient points (quick: the integrated charged-current ones at 2 points); isospin averaged ratios are only bounded by the ratios of the two charges; integrals compared within 1e-3.',
  design='''The registry of the current tree is scanned and about 1450 relations are generated (the families of the statement, each written from the definition of the observables, e.g. `BR_L+BR_T=BR`, `dBR/dcV = 3/2 BR_L cV^2 + 3/4 BR_T (1-cV^2)`, `P5' = S5/sqrt(FL(1-FL))` for electrons, `tau_eff` from `A_DeltaGamma` by the two exponentials, `|q/p|` from `x12, y12, phi12`, `sigma_had = 12 pi/mZ^2 Gamma_e Gamma_had/GammaZ^2`). Both sides are computed through the public API at every Wilson coefficient point: SM, two generic scenarios for semi-leptonic decays, one with vector operators only, every WET coefficient (also lepton flavour violating, Delta F=2) with both signs, every SMEFT coefficient with both signs. Ratios averaged over isospin must lie between those of the two charges. Exact relations are compared to 1e-9, integrals to 1e-3.''')

P(id='C25', title='Lepton flavours are nothing but labels',
  statement='Exchanging two charged leptons everywhere - their masses and lifetimes, the flavour indices of all Wilson coefficients, and the leptons in the names of the observables - leaves every prediction for meson, baryon, tau and quarkonium decays with charged leptons (also lepton flavour violating ones) unchanged, at any Wilson coefficients; and the rates of self-conjugate quarkonia to l1+ l2- (gamma) and to l2+ l1- (gamma) are equal. The decays of a quarkonium exist as observables for all pairs of flavours or for none.',
  over=['inputs', 'configurations'], qtext='all pairs of registered observables related by an exchange of two leptons x three exchanges x generic complex Wilson coefficients x points in q2 and bins',
  why='The code treats the flavours by tables, name conventions (which order of flavours names a coefficient and when it has to be conjugated) and special cases; the tests contain single decays, mostly with real coefficients one at a time.',
  files=['flavio/physics/bdecays', 'flavio/physics/kdecays', 'flavio/physics/ddecays', 'flavio/physics/taudecays', 'flavio/physics/quarkonium/Pll.py', 'flavio/physics/quarkonium/Vll.py'],
  mech=[('wctot_dict, get_wc with lepton labels', 'flavio/physics/bdecays/wilsoncoefficients.py'), ('wc_eff', 'flavio/physics/taudecays/tau3l.py'), ('getS_lfv, getVT_lfv', 'flavio/physics/quarkonium')],
  technique=TECH + 'complete enumeration of the orbits of all registered observables under the exchange of two leptons x Wilson coefficient points (symmetry of the state space checked on the implementation)',
  note='All observables whose name has an image under the exchange; coefficients without image dropped; K->l nu (chiral correction known for muons only), ratios normalised to electrons and the parametrised tau mass effects of the Z excluded. Quick: one NP point and the SM, one bin; thorough: two NP points, three bins.',
  design='''The group generated by the exchanges e-mu, mu-tau, e-tau acts on names of observables, names of parameters (`m_l`, `tau_l`, `delta_BXs..`) and names of Wilson coefficients (including the conjugation needed when the exchanged vector operator is registered as its hermitian conjugate). For every observable with an image in the registry (about 1500 pairs) the orbit is evaluated in both directions at a point where all semi-leptonic and leptonic coefficients are non-zero, complex and different, given at the scale of the process where the running would break the symmetry through the lepton masses in the anomalous dimensions. No oracle other than the symmetry is needed. This found that `P -> l1 l2` of quarkonia had a wrong relative sign and missed a complex conjugation (fixed), and that the sums over charges of `eta`, `chi` were defined for tau mu only (fixed).''')

P(id='C18', title='Rates and angular distributions are physical for any Wilson coefficients',
  statement='Every decay rate of the exclusive semi-leptonic, leptonic, radiative and lepton flavour violating decays, of quarkonium, tau and muon decays, of mu-e conversion and of inclusive B->Xc l nu, in every point of phase space, is a quadratic polynomial in the Wilson coefficients which is nowhere negative; its part of second order does not depend on a common phase of all Wilson coefficients, nor on the phase of any single lepton or neutrino field. Fractions and asymmetries of these decays respect their bounds (F_L between 0 and 1, F_H between 0 and 3, others between -1 and 1, S6c between -4/3 and 4/3), and angular distributions (B->P ll, B->V ll, Lambda_b->Lambda(1520) ll, polarised neutrons) are non-negative in every direction, for all values of the Wilson coefficients. All other observables are real, finite and, where they are rates, fractions or asymmetries, in their range.',
  over=['inputs'], qtext='all rates x complete interpolation set of the quadratic form in the Wilson coefficients (which decides the property for all values) x points in q2 x grid of directions',
  why='Tests compare the Standard Model prediction and one or two new physics points with numbers; a wrong sign, missing conjugation or factor in an interference term of two operators shows only where both are present.',
  files=['flavio/physics/bdecays', 'flavio/physics/kdecays', 'flavio/physics/taudecays', 'flavio/physics/mudecays', 'flavio/physics/betadecays', 'flavio/physics/quarkonium', 'flavio/physics/ddecays', 'flavio/physics/common.py'],
  mech=[('angularcoeffs_general_v, _p, _Gbasis_*', 'flavio/physics/bdecays/angular.py'), ('get_angularcoeff', 'flavio/physics/bdecays/lambdablambda1520ll.py'), ('C_V_A, neutron correlations', 'flavio/physics/betadecays/ft.py, n.py')],
  technique=TECH + 'complete interpolation of each rate in all real and imaginary parts of Wilson coefficients, non-negativity decided by the eigenvalues of the quadratic form, on a complete grid of directions for angular distributions',
  note='Quick: leptons e and tau, one q2 per process; thorough: all leptons, four values of q2. Angular distribution of B->V ll for vector and dipole operators (up to lepton masses). Coefficients that shift the extraction of G_F or mixing phases excluded. Range check of the remaining observables at selected points.',
  design='''A rate evaluated at the SM, at plus and minus every unit vector and at the sum of any two unit vectors in the space of the real and imaginary parts of all Wilson coefficients it depends on determines its quadratic form; evaluations at two further points confirm the degree. The form is then known for all (infinitely many) values and positive semi-definiteness is decided by an eigenvalue. The same with asymmetry times rate gives forms N, whose bounds are the semi-definiteness of D-N and D+N. Angular distributions are linear combinations of these forms in each direction. The check does not know any formula for the decays. The form must also be invariant when all coefficients are rotated according to the number of times they contain a given lepton field (phases of fields are conventions). It found wrong signs or conjugations in B->X l nu, B->ll gamma, Lambda_b->Lambda(1520) ll, P->l1 l2, K_L->pi nu nu, K_L,S->e mu (see below).''')

P(id='C31', title='Isospin partners: charged and neutral decays differ by known factors only',
  statement='If the parameters of the members of each isospin multiplet are equal (masses, lifetimes, decay constants, no isospin-breaking corrections), every prediction for a decay of a B0, D0, K_L equals that of the same decay of the B+, D+, K+ (and semi-leptonic K_S that of K_L) up to the factor 1/2 for a neutral pion or rho in the final state, at any Wilson coefficients: exactly for charged currents, neutrino and lepton flavour violating modes, and for b->s,d ll and gamma where short-distance coefficients dominate over the effects of the spectator quark; ratios, fractions and asymmetries are equal. BR(KL->pi nu nu) respects the Grossman-Nir bound relative to BR(K+->pi+ nu nu) for all Wilson coefficients.',
  over=['inputs', 'configurations'], qtext='all pairs of registered observables related by the exchange of the spectator x Wilson coefficient points x points in q2 and bins; K->pi nu nu for all values of the 36 real and imaginary parts',
  why='Charged and neutral modes are separate entries of tables (mesons, CKM factors, form factors, factors for neutral mesons), written once per module; the tests contain a few of them, usually not both partners with the same new physics.',
  files=['flavio/physics/bdecays', 'flavio/physics/kdecays', 'flavio/physics/ddecays', 'flavio/physics/bdecays/bvll/lfv.py', 'flavio/physics/kdecays/kpinunu.py'],
  mech=[('meson_quark, BR_tot, prefactors for rho0 and pi0', 'flavio/physics/bdecays'), ('br_klong_pinunu, br_kplus_pinunu', 'flavio/physics/kdecays/kpinunu.py')],
  technique=TECH + 'complete enumeration of the pairs of observables related by isospin x Wilson coefficient points; Grossman-Nir bound decided by the eigenvalues of the completely interpolated quadratic form',
  note='b->s,d ll and gamma compared at large short-distance coefficients, to 0.5 % for rates and 0.02 for asymmetries, because weak annihilation and spectator scattering depend on the spectator. Ratios of charge-averaged modes have no partner.',
  design='''The exchange of the spectator quark acts on names of observables; the expected ratio of the 477 pairs found in the registry follows from the quark content of the neutral mesons alone. Both members are evaluated at parameters made isospin symmetric, at the Standard Model and several points with all coefficients of the charged currents, the neutrino modes and the lepton flavour violating modes (thorough: and each coefficient by itself). For the neutral-current modes two points with large coefficients are used, where the difference of the spectator effects is below the tolerance on the correct tree. The Grossman-Nir relation is decided for all coefficients: kappa_L/kappa_+ times the quadratic form of K+ minus that of K_L must be positive semi-definite (and not so if scaled by 0.999, so that the bound is saturated). This found a missing factor 1/2 in B0->rho0 l1 l2 and a wrong K_L->pi0 nu nu amplitude for different neutrino flavours (both fixed).''')
