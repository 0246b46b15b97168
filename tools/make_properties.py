import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DL="gpmp/dataloader.py"
p("D01","Storing a dataset in shards is invisible to its user",
 "However the rows of a dataset are cut into shards (including empty shards), its length, single-row access (also counting from the end), row subsets and column statistics (min, max, mean, variance, standard deviation, quantiles, median) are the same as for one unsharded array of the same rows. A subset contains each requested row once per request, in dataset order, with inputs and observations still paired, and an index outside the dataset is refused by single-row access.",
 ["inputs","configurations"],"every composition of n rows into shards, every index in [-n,n) and just outside it, every index list up to a length, every statistic",
 "test_dataloader uses one array or two fixed equal shards and a few indices; shard boundaries, empty shards and indices from the end are a combinatorial family.",
 [DL],[("shard bounds and lookup",DL+":Dataset.__getitem__/_compute_shard_bounds"),("subset",DL+":Dataset.subset"),("statistics",DL+":Dataset._reduce_*")],
 ["Dataset len/getitem/subset/x_min.../z_median","DataLoader.dataset_* properties"],[("shards","ordered list of row blocks","Dataset.x_list/z_list")])
p("D02","Train/validation/test splits and folds partition the rows",
 "A random split puts every row in exactly one of the three parts, with the part sizes implied by the ratios. k-fold cross-validation with k of at least two returns exactly k pairs whose validation sets are pairwise disjoint, cover all rows and differ in size by at most one, each training set being the exact complement; repeated k-fold is a sequence of such partitions. The same seed gives the same answer whatever random numbers were drawn before.",
 ["inputs","configurations","histories"],"every (n, k, repeats, ratios, sharding, seed) up to a bound, both backends, any preceding use of the random generator",
 "existing tests check one (n,k) per function, where the sizes happen to divide conveniently; both backends use different splitting primitives.",
 [DL,"gpmp/num/numpy_backend.py","gpmp/num/torch_backend.py"],[("split",DL+":Dataset.split"),("folds",DL+":Dataset.k_fold_indices/repeated_k_fold_indices")],
 ["Dataset.split, Dataset.k_fold_indices, Dataset.repeated_k_fold_indices return values"])
p("D03","One pass of a loader delivers every row exactly once, paired, in batches",
 "A complete pass over a loader yields each dataset row exactly once with its own observation (with incomplete-batch dropping, exactly the rows beyond the last full batch are missing), every batch but the last has the requested size, and the number of batches equals the advertised length. Without shuffling the batches come in dataset order and batch indexing or slicing returns exactly the batches of a pass; collating the batches gives back the rows, and the loader's mean reduction is the mean over delivered rows.",
 ["inputs","configurations"],"every (n, batch size, sharding, shuffle, drop_last) up to a bound",
 "tests use one or two batch sizes on evenly divisible data; the interaction of batch boundaries with shard boundaries is a product space.",
 [DL],[("iteration",DL+":DataLoader.__iter__/_fetch_batch"),("length and indexing",DL+":DataLoader.__len__/__getitem__"),("reduction",DL+":DataLoader.reduce_mean"),("collate",DL+":collate_batches")],
 ["iterating the loader; len(); loader[i]; loader[a:b]; reduce_mean; collate_batches"])
p("D04","Shuffled order depends only on seed and epoch, and epochs advance per pass",
 "For a seeded loader the batches of a pass depend only on the data, the loader settings, the seed and the epoch at which the pass started: never on other loaders, other random draws, abandoned or interleaved iterators. The epoch advances by one exactly when a pass is exhausted (setting it explicitly overrides it), so successive passes use different orders, a restarted run replays them, and an infinite loader delivers the same batches as successive finite passes.",
 ["histories","schedules"],"every interleaving of opening, advancing, abandoning and exhausting iterators on several loaders, setting epochs and drawing unrelated random numbers, up to a depth",
 "test_dataloader compares two consecutive passes of one loader; interleavings of iterators and shared random state are histories no example enumerates.",
 [DL],[("epoch seeding",DL+":DataLoader.__iter__"),("epoch counter",DL+":DataLoader.set_epoch")],["sequence of batches yielded by each iterator"],
 [("epoch","number of exhausted passes, or explicitly set value","DataLoader._epoch"),("generator","global backend random state","gpmp.num seeded generator")])
p("D05","Scalers invert exactly and standardise to the advertised statistics",
 "For each scaler, inverse transform undoes transform on any data (also data outside the fitted range, constant columns, a single row), and neither changes its argument. Applied to the data it was fitted on, the transform gives per-column mean zero and unit (population) standard deviation, median zero and unit interquartile range, or minimum zero and maximum one, on both backends; constant columns become zero rather than undefined.",
 ["inputs","configurations"],"every small integer data matrix up to a size and every scaler, both backends",
 "there is one round-trip example per scaler; degenerate columns, single rows and agreement between backends are untested.",
 [DL],[("scalers",DL+":Normalizer/RobustScaler/MinMaxScaler/ObservationScaler")],["fit/transform/inverse_transform results"])
PA="gpmp/parameter/param.py"
p("P01","All ways of reading and writing named parameters agree after any edits",
 "After any history of edits (whole vector, by name, by path, by path prefix, from natural-scale values) and of slicing, indexing or concatenation, every access (value vector, by name, by path, by prefix, dictionary forms) reads the value last written to that parameter and its own path, transformation and bounds. Edits change no other parameter, and an edit that is refused (unknown name, wrong number of values) changes nothing.",
 ["histories","inputs"],"every edit history up to a depth on parameter objects with shared, nested and non-contiguous paths",
 "test_param exercises single calls on one three-parameter object; histories mixing access routes, slices and concatenation are not explored.",
 [PA],[("name/path access",PA+":Param.get_by_name/set_by_name/get_by_path/set_by_path"),("slicing, concatenation",PA+":Param.__getitem__/concat")],["Param accessors"],
 [("table","ordered list of (name, path, transformation, bounds, value)","Param._values and parallel lists")])
p("P02","Natural-scale and internal-scale parameter values are exact images",
 "For every parameter the natural-scale value is the inverse of its declared transformation applied to the internal value (identity, exponential, exponential of the negative), whichever side was written last; writing one side and reading it back returns what was written. Bounds checks report, per parameter, whether the natural-scale value lies inside its inclusive bounds, and parameters built from a covariance vector carry variance as log and range as inverse log in the given order.",
 ["inputs","histories"],"every mix of transformations, write routes and bounds up to a size",
 "tests check a fixed log/log_inv/none triple, once; bounds at the edge and after edits are not reached.",
 [PA],[("transformations",PA+":Param._normalize/_denormalize/denormalized_values/set_from_unnormalized"),("bounds",PA+":Param.check_bounds"),("builders",PA+":make_anisotropic_param/param_from_covparam_anisotropic(_noisy)")],["Param accessors"])
p("P03","Parameter reads are copies unless a view is asked for",
 "Writing into a result obtained by path without asking for a view, into a slice, into a concatenation or into a dictionary form never changes the parameter object, and later edits of the object never change those results; a view asked for explicitly aliases exactly the addressed block in both directions, and a request for a view of a non-contiguous block is refused.",
 ["histories"],"every interleaving of taking copies, views, slices, concatenations and writing through any of them, up to a depth",
 "tests look at one view; aliasing is a property of write/read histories across several handles.",
 [PA],[("copy/view",PA+":Param.get_by_path/get_by_name"),("derived objects",PA+":Param.__getitem__/concat")],["values seen through every handle after every write"],
 [("alias graph","which handle shares storage with which object","array storage")])
K="gpmp/core/kriging.py"; M="gpmp/core/model.py"; LO="gpmp/core/loo.py"; LK="gpmp/core/likelihood.py"; LA="gpmp/core/linalg.py"; SP="gpmp/core/sample_paths.py"; FI="gpmp/core/fisher.py"
p("K01","Prediction is the exact best linear unbiased predictor",
 "For every valid covariance, observations and mean model (zero, known parametric, unknown linear), the predicted mean, variance, full posterior covariance and weights solve the kriging system exactly: at a noise-free data point the prediction is the observation with zero variance, weights reproduce the trend functions in the linear case, and variance never depends on the observed values. Requesting only variance, full covariance, or weights gives mutually consistent answers.",
 ["inputs","configurations"],"every small positive definite integer Gram matrix, trend basis, data vector and target set up to a bound, three mean types, both backends",
 "example tests compare a handful of Matérn predictions to stored numbers; the linear algebra identities quantify over covariance matrices, bases and data.",
 [K,M],[("zero-mean kriging",K+":kriging_predictor_with_zero_mean"),("universal kriging",K+":kriging_predictor"),("mean handling",K+":select_predictor"),("posterior variance",K+":_compute_posterior_variance")],["Model.predict, Model.kriging_predictor*"])
p("K03","Predictions do not depend on row order, batching or input form",
 "Permuting the observations leaves predictions, leave-one-out results (up to the same permutation) and likelihoods unchanged; predicting several targets at once equals predicting them one at a time or in any grouping or order. Passing observations as a vector or a single column, as backend or plain arrays gives the same numbers.",
 ["inputs","configurations"],"every permutation of the observations and every partition of the targets on small data sets, all input forms",
 "metamorphic relations between calls; every existing test makes one call in one order and one form.",
 [K,M,"gpmp/core/utils.py",LO,LK],[("shape handling","gpmp/core/utils.py:ensure_shapes_and_type"),("prediction",M+":Model.predict")],["Model.predict/loo/likelihood results"])
p("K04","Leave-one-out equals really leaving each observation out",
 "For every observation, the leave-one-out prediction, variance and error equal those obtained by predicting that point from the remaining observations with the same model, for all three mean models; the error is the observation minus its leave-one-out prediction.",
 ["inputs"],"every small Gram matrix, trend basis and data vector up to a bound, three mean types",
 "there is no test comparing the fast formula with explicit refits across mean types.",
 [LO,LA],[("virtual cross-validation",LO+":loo and _loo_with_*"),("diagonal of the inverse",LA+":diag_Kinv_from_chol")],["Model.loo"])
p("K05","Likelihoods and norms equal their closed forms for every data set",
 "The negative log-likelihoods (zero mean, given mean) and the restricted likelihood equal the exact Gaussian expressions up to the documented constants; the restricted likelihood and the contrast norm do not change when any combination of trend functions is added to the data nor when the trend basis is replaced by an orthonormally equivalent one, and the quadratic forms returned by the different routines agree with one another. A covariance matrix with a negative eigenvalue (for the restricted likelihood, a contrast of negative variance) yields an infinite criterion or an error, never a finite number.",
 ["inputs"],"every small integer Gram matrix, trend basis and data vector up to a bound; every non positive definite matrix of that size",
 "tests evaluate the likelihood at a few points of one Matérn model; invariances and failure behaviour quantify over data and matrices.",
 [LK,LA],[("likelihood",LK+":negative_log_likelihood*/negative_log_restricted_likelihood"),("contrasts",LA+":compute_contrast_matrix/norm_k_sqrd/k_inverses")],["Model.negative_log_*; Model.norm_k_sqrd*; Model.k_inverses"])
p("K06","Model calls have no memory and no side effects",
 "Any call on a model (prediction, leave-one-out, likelihoods, norms, Fisher information, sample paths) returns what a fresh model with the same parameters would return, whatever calls were made before, on whatever data; no call changes the model's parameters or any array passed to it.",
 ["histories"],"every sequence of calls up to a depth over two data sets and parameter updates",
 "tests make one or two calls per model; hidden caches or in-place solves only show up in call histories.",
 [M,K,LO,LK,LA,FI,SP],[("overwriting solves",K+":kriging_predictor"),("facade",M+":Model")],["return values; model parameters and argument arrays after each call"],
 [("parameters","mean and covariance parameters of the model","Model.meanparam/covparam")])
p("K07","Conditional sample paths honour the data and the predictor",
 "Conditioning unconditional paths on data gives paths that pass exactly through noise-free observations, whose value at each target is the unconditional path plus the predictor applied to the data-minus-path discrepancy, for zero, linear and known parametric means; the map is affine in the data and in the unconditional path, path by path, and keeps the order of targets and paths. Unconditional paths are centred and independent, with the model's covariance, one column per requested path.",
 ["inputs"],"every small Gram matrix, index assignment of observations and targets (any order, overlapping), data vector and path matrix up to a bound",
 "examples plot conditional paths; index handling and affinity quantify over index sets, data and paths.",
 [SP],[("conditioning",SP+":conditional_sample_paths/conditional_sample_paths_parameterized_mean"),("simulation",SP+":sample_paths")],["Model.sample_paths/conditional_sample_paths*"])
p("K08","Fisher information matches the exact trace formula",
 "For covariances whose derivatives are known, the Fisher information computed for covariance parameters is symmetric and equals half the trace of the product of relative derivatives, in the plain and in the trend-filtered form, for explicit or default parameters, and the parameters are left unchanged.",
 ["inputs"],"every small covariance family linear in its parameters and every point set up to a bound",
 "untested today; the formula quantifies over covariance families.",
 [FI],[("finite-difference information",FI+":fisher_information/fisher_information_cpd"),("autodiff information",FI+":fisher_information_torch")],["Model.fisher_information*"])
MA="gpmp/kernel/matern.py"
p("C01","Covariance matrices are consistent across call forms and positive",
 "The Matérn and exponential covariances give the same value for a pair of points whichever route asks for it (full matrix, transposed roles, pairwise vector, same-points shortcut, sub-block of a larger set), depend on points only through scaled distance, equal the half-integer closed form, and scale with the variance parameter; the value at distance zero is the variance on every route, and matrices are symmetric and positive semi-definite.",
 ["inputs","configurations"],"every regularity p up to a bound, every finite point set on a small grid in one or two dimensions, several ranges, all routes, both backends",
 "tests compare a few kernel values; agreement of routes quantifies over point sets, orders and call forms.",
 [MA,"gpmp/kernel/exponential.py"],[("closed form",MA+":maternp_kernel"),("routes",MA+":maternp_covariance/_ii_or_tt/_it")],["gpmp.kernel.* return values"])
p("C02","Cached tables never change an answer",
 "The value of a kernel, or of the log-gamma table it relies on, at a given order does not depend on which orders were asked for before, in which order, or on caches having been cleared in between; a returned table can be modified by the caller without affecting later answers.",
 ["histories"],"every sequence of queries and cache clears up to a depth",
 "tests only ever grow the cache in one order.",
 ["gpmp/num/shared.py",MA,"gpmp/config.py"],[("cache","gpmp/num/shared.py:compute_gammaln"),("clear","gpmp/config.py:clear_caches")],["compute_gammaln, maternp_kernel results"],
 [("table","log-gamma values up to the largest order seen","cache in configuration")])
PS="gpmp/kernel/parameter_selection.py"
p("S01","The optimizer returns the best admissible point it evaluated",
 "Whatever the criterion does (finite values, infinities, not-a-number, numerical linear-algebra failures at arbitrary evaluations), the parameters returned by automatic selection lie within the bounds, and their criterion value is not worse than that of the starting point or of any other admissible point that was evaluated and recorded. The recorded history lists exactly the evaluations made, and the reported best value is the criterion at the returned point.",
 ["fault_sequences","inputs"],"every assignment of outcomes (finite value, infinity, not-a-number, failure) to evaluations, both optimizers, with and without bounds",
 "tests optimise one smooth criterion; failures at the n-th evaluation are a fault sequence tests cannot enumerate.",
 [PS],[("recording and fallback",PS+":autoselect_parameters")],["autoselect_parameters return values and info"],
 [("best","best value seen so far and its point","autoselect_parameters closure")])
p("S02","Selection and update procedures leave a consistent model",
 "After any parameter selection or update procedure the model's parameters are exactly those reported by the procedure, its criterion at them equals the reported value and is no worse than at the supplied initial value, supplied arrays are unchanged, and an explicitly supplied initial value is the one used. A procedure fed by a loader holding all the data in one batch selects by the same criterion as one fed by the arrays.",
 ["histories","configurations","inputs"],"every procedure family, every sequence of selections and updates up to a depth on small data sets",
 "examples call each procedure once and look at plots; consistency across procedures and histories is not checked.",
 [PS,"gpmp/kernel/prior_helpers.py"],[("generic selection",PS+":select_parameters_with_criterion/update_parameters_with_criterion"),("families",PS+":select_parameters_with_*"),("roles of the initial value","gpmp/kernel/prior_helpers.py")],["returned model/info and model.covparam/meanparam"])
p("S03","Mini-batch criteria evaluate the right batches with the right weights",
 "A criterion defined over a loader equals the size-weighted mean (times the number of rows or as documented) of the per-batch criterion over the batches of the evaluated portion; with a limit on batches per evaluation, successive evaluations walk cyclically through the loader without skipping or repeating, and value and gradient returned for one point refer to the same batches.",
 ["histories","inputs"],"every (n, batch size, batches per evaluation) and every sequence of value/gradient requests up to a depth",
 "no test covers batch cycling; it is a history property.",
 ["gpmp/num/numpy_backend.py","gpmp/num/torch_backend.py",PS],[("batch criterion","gpmp/num/*_backend.py:BatchDifferentiableSelectionCriterion"),("construction",PS+":make_selection_criterion_with_gradient")],["criterion and gradient callables"],
 [("cursor","position in the loader's batch sequence","iterator held by the criterion")])
p("S04","Prior default settings change atomically and take effect exactly",
 "The default prior settings always hold admissible values: a request with any inadmissible value is refused and changes nothing, an accepted request changes exactly the settings it names, and later computations without explicit arguments use the values currently in force while explicit arguments win over defaults.",
 ["histories","fault_sequences"],"every sequence of accepted and refused updates (including mixtures of valid and invalid fields) up to a depth",
 "no test covers the defaults; atomicity concerns sequences with rejected updates.",
 ["gpmp/kernel/prior_defaults.py","gpmp/kernel/priors.py"],[("settings","gpmp/kernel/prior_defaults.py:set_default_prior_hyperparameters"),("resolution","gpmp/kernel/prior_defaults.py:resolve_prior_defaults_for_selection; gpmp/kernel/priors.py:_resolve_prior_defaults")],["get_default_prior_hyperparameters; prior values"],
 [("defaults","gamma, sigma2_coverage, alpha, rho_min_range_factor","module-level record")])
p("S05","Posterior criteria are the likelihood plus the stated penalties",
 "Each penalised criterion equals the restricted likelihood criterion minus the log-prior it is named after, evaluated at the same parameters; each log-prior has its stated form: log-variance prior peaks at its centre with the stated coverage, the range prior is a barrier that is infinite at or below the minimum range and otherwise separable over dimensions, power-law priors add the stated exponents.",
 ["inputs"],"every small covariance parameter vector on a grid, prior setting and data set up to a bound",
 "tests run one selection per prior; decomposition and shape quantify over parameter vectors and settings.",
 ["gpmp/kernel/priors.py"],[("priors","gpmp/kernel/priors.py:log_prior_*"),("posteriors","gpmp/kernel/priors.py:neg_log_restricted_posterior_*")],["gpmp.kernel prior and posterior functions"])
p("S06","Initial guesses follow the data's units and ignore its storage",
 "Guessed ranges are the same from arrays and from any loader over the same rows, guesses never depend on sharding or row order, a loader with one batch gives exactly the guess from arrays, and with several batches the guessed variance is the size-weighted mean of the batch guesses. Rescaling observations by c multiplies the guessed variance by c squared and nothing else, and rescaling (or shifting) an input coordinate scales (or leaves) only that coordinate's guessed range. Adding a constant to the observations changes nothing when an unknown constant mean is removed, and shifts the guessed mean by that constant when the mean is a parameter.",
 ["inputs","configurations"],"every small data set, sharding, batch size, scaling and shift up to a bound",
 "examples call the guess once per data set; equivariance relates calls.",
 ["gpmp/kernel/init.py","gpmp/kernel/utils.py",DL],[("guesses","gpmp/kernel/init.py:anisotropic_parameters_initial_guess*")],["initial guess functions"])
p("G01","Backend and precision settings change atomically and are idempotent",
 "The backend in force is the last one accepted by explicit request, otherwise the one the environment names when it is first needed, otherwise the detected one; asking again never changes it and later environment changes have no effect on it. An inadmissible request is refused as a whole and leaves every setting and the environment as they were. Any precision other than double is always refused.",
 ["histories","configurations","fault_sequences"],"every sequence of valid and invalid setting requests up to a depth, every initial environment",
 "the suite runs one backend per process and never sends an invalid request after a valid one.",
 ["gpmp/config.py","gpmp/num/__init__.py"],[("settings","gpmp/config.py:_GPMPConfig.update"),("selection","gpmp/config.py:init_backend/set_backend/set_dtype")],["get_backend, get_config, environment"],
 [("config","backend, dtype, environment variable","gpmp.config")])
p("G02","Both numerical backends compute the same thing",
 "On floating-point arrays of one to three dimensions with the axis named, every elementwise, reducing, ordering, rearranging, linear-algebra, distance, derivative and Gaussian-density operation of the numerical layer returns its mathematically defined values and shape on both backends, also for single-element arrays and infinite or undefined entries. No such operation changes its arguments. The same seed gives the same draws again, and draws respect their support, weights and moments.",
 ["inputs","configurations"],"every operation of a table, every small integer array up to a shape bound, every axis",
 "the suite runs both backends but on workflows, never comparing them to each other on the same primitive.",
 ["gpmp/num/numpy_backend.py","gpmp/num/torch_backend.py","gpmp/num/shared.py"],[("numerical layer","gpmp/num/*_backend.py"),("finite differences","gpmp/num/shared.py:derivative_finite_diff")],["gpmp.num functions"])
p("G03","Arrays keep their element type, double precision and independence",
 "Arrays made or converted by the numerical layer from lists, tuples and arrays of any element type have the element type requested, or when none is requested double precision for real numbers and their own type for whole numbers and truth values; values are exact to double precision and whole-number conversion truncates towards zero. Combining, selecting and joining arrays never lowers the precision. Copies and computed arrays are independent: writing to one array changes no other.",
 ["programs","inputs"],"every program of two array operations and sampled programs of up to eight over all source forms, element types and requests, on both backends",
 "tests use double-precision arrays throughout and never write to an array after copying it; precision lost on the way is below their tolerances.",
 ["gpmp/num/numpy_backend.py","gpmp/num/torch_backend.py"],[("creation","gpmp/num/*_backend.py:array/asarray/zeros/ones/full/eye/linspace"),("conversion","gpmp/num/*_backend.py:asdouble/asint")],["type, values of every array of the program after every step"])
MH="gpmp/mcmc/mh.py"
p("G04","Seeding makes every random result a function of seed and operations",
 "After the library's generator is seeded, the results of any sequence of random operations (draws, sample paths, chains, particle starts, splits, folds, shuffles) are determined by the seed and by that sequence alone, in any session and whatever calls without randomness are made in between. The stream moves on, so that repeating an operation without seeding gives another result, and different seeds give different results. An operation given a seed of its own depends on that seed only.",
 ["histories","inputs"],"sessions mixing seeds, draws, calls without randomness and operations with their own seed; every ordered pair of random operations",
 "tests seed once and look at one operation; a call that silently draws, re-seeds or uses another generator only shows when sessions are compared.",
 ["gpmp/num/numpy_backend.py","gpmp/num/torch_backend.py","gpmp/dataloader.py","gpmp/core/sample_paths.py","gpmp/mcmc/mh.py","gpmp/mcmc/nuts.py"],[("generator","gpmp/num/numpy_backend.py:set_seed/rand/randn/choice/permutation/multivariate_normal"),("generator","gpmp/num/torch_backend.py:set_seed/rand/randn/choice/permutation/multivariate_normal"),("own seeds","gpmp/dataloader.py:Dataset.split/k_fold_indices/DataLoader.__iter__")],["results of random operations across sessions"])
p("M01","A Metropolis-Hastings chain is exactly the accept/reject walk of its proposals",
 "At every step and for every chain, the state is either the proposal or a repeat of the previous state: accepted whenever the proposal's log-target is at least the current one, never accepted when it is minus infinity, undefined or fails, and the recorded log-target, acceptance flags, counts and rates are those of the recorded states. The returned samples are the recorded states after burn-in, in order, for every chain, and chains do not influence each other's targets or records. The built-in proposals are Gaussian steps centred on the current state with the covariance set for the chain, whether given as one variance per coordinate, one matrix or one matrix per chain.",
 ["histories","inputs","schedules"],"every sequence of proposals and target values (including minus infinity and not-a-number) up to a length, every number of chains and burn-in",
 "tests run one Gaussian chain and check statistics loosely; the transition relation quantifies over proposal/target sequences.",
 [MH],[("step",MH+":MetropolisHastings.mhstep"),("recording",MH+":run_samples/scheduler"),("rates",MH+":compute_sliding_rates")],["scheduler return value; recorded states, acceptance flags, log targets"],
 [("chain","current state, log-target, acceptance record","MetropolisHastings.x/accept/log_target_values")])
p("M02","Adaptation happens only during burn-in and burn-in stops only when allowed",
 "Proposal adaptation occurs only at the configured interval and before the end of burn-in, after which proposal parameters stay fixed unless continued adaptation is requested. Step-size adaptation moves the scale up when the acceptance rate is above target and down when below, with an intensity that decreases from its initial to its final value; early stopping of burn-in never shortens or corrupts the retained samples, and convergence diagnostics use only states actually visited.",
 ["schedules","histories","configurations"],"every (total steps, burn-in, interval, number of chains, adaptation method, early-stop decision) up to a bound",
 "tests run one schedule; boundary schedules (burn-in zero, not a multiple of the interval, early stop, one chain) are not reached.",
 [MH],[("adaptation",MH+":run_adaptive*/update_proposal_covariance_from_samples"),("burn-in",MH+":run_burnin/scheduler"),("diagnostics",MH+":compute_gelman_rubin_rhat/ks_statistics")],["scheduler, proposal parameters over time, diagnostics"])
NU="gpmp/mcmc/nuts.py"
p("M03","NUTS records are those of its trajectory and its limits hold",
 "Every recorded NUTS state has the log-density recorded for it, moves only to points of finite density that its leapfrog trajectory visited before turning back or diverging, reports the depth, steps, divergences and mean acceptance of that trajectory within the allowed depth, and a transition that diverges at once leaves the state unchanged. One transition leaves the target distribution unchanged and is as likely as its reverse. Mass-adaptation windows tile the middle of the warm-up in order and leave each coordinate about the inverse of its variance as mass, and the step size keeps its limits, is tuned towards the requested acceptance and is frozen after warm-up.",
 ["histories","inputs","configurations"],"every warm-up length and window configuration up to a bound; recorded trajectories over seeds, targets and options",
 "one smoke example runs NUTS; limits and bookkeeping quantify over options and trajectories.",
 [NU],[("windows",NU+":make_warmup_windows"),("tree",NU+":build_tree/nuts_transition"),("sampling loop",NU+":nuts_sample"),("integrator",NU+":leapfrog")],["nuts_sample results; make_warmup_windows"])
SM="gpmp/mcmc/smc.py"
p("M04","SMC particle sets stay weighted, conserved and targeted",
 "Resampling keeps the number of particles, draws only existing particles of positive weight together with their log-densities and resets weights to uniform; the residual scheme keeps each particle at least the integer part of its expected number of copies. Reweighting gives weights proportional to the density ratio (zero where the new density vanishes), the effective sample size is the squared sum of the weights over the sum of their squares, moves only replace a particle by an accepted proposal drawn around it with the particles' covariance times the current scale, and at every stage stored log-densities are those of the stored positions under the current target. A stage rescales its proposals by the given factor against too low or too high an acceptance rate until the rate is in the requested window or the allowed attempts are spent, then makes exactly the remaining requested moves.",
 ["histories","inputs"],"every small weight vector, every uniform draw sequence class, every sequence of reweight/resample/move up to a depth",
 "one example runs a sampler; conservation and bookkeeping quantify over weights and histories.",
 [SM],[("particles",SM+":ParticlesSet.reweight/ess/resample/move/perturb"),("driver",SM+":SMC.step/step_with_possible_restart/restart")],["ParticlesSet.x/w/logpx, ess()"],
 [("particles","positions, weights, log-densities, target parameter","ParticlesSet")])
p("M07","Tempering and threshold sequences advance monotonically to the target",
 "Adaptive tempering moves the target parameter monotonically from its initial to exactly its final value, each step keeping the requested effective sample size (or survival fraction) within the search tolerance unless the final value already satisfies it; subset simulation's probability estimate is the product of the per-stage survival fractions, lies between zero and one, is one when every point exceeds the threshold, and its final particles all satisfy the final threshold.",
 ["histories","inputs","schedules"],"every small particle configuration and schedule of targets; recorded runs over seeds",
 "no test examines stage sequences.",
 [SM],[("next parameter",SM+":SMC.compute_next_logpdf_param_ess/_p0"),("drivers",SM+":run_smc_sampling/run_subset_simulation")],["logged stages; returned particles and estimates"])
SV="gpmp/mcmc/svgd.py"
p("M05","SVGD particles follow the exact update, schedule and box",
 "One SVGD update moves every live particle by the step size times the kernel-weighted average of gradients plus repulsion, computed from the particle positions before the update; particles of non-finite density neither move nor attract or repel others, positions are kept inside the box, the temperature follows the configured annealing schedule from its initial to its final value, and permuting particles permutes the result.",
 ["inputs","histories","configurations"],"every small particle configuration, kernel bandwidth, annealing schedule, box and pattern of dead particles up to a bound",
 "a smoke example runs SVGD; the update law quantifies over configurations.",
 [SV],[("kernel",SV+":rbf_kernel_matrix"),("update",SV+":svgd_step"),("loop and annealing",SV+":svgd_sample/_annealed_temperature")],["svgd_step, svgd_sample results"])
PP="gpmp/mcmc/param_posterior.py"
p("M06","Posterior samplers target minus the criterion, inside the box",
 "Each sampler driven by a selection criterion targets exactly minus that criterion inside the requested box and excludes everything outside it: every sample returned from a start inside the box lies in the box, initial states are those supplied in any documented shape (or drawn inside the initial box), reported log-targets are minus the criterion at the samples divided by the temperature, and points where the criterion is infinite, undefined or fails are excluded.",
 ["inputs","configurations","fault_sequences"],"every box, initial-state form and criterion with excluded regions up to a bound; recorded runs over seeds and samplers",
 "the examples run each sampler once without a box.",
 [PP],[("targets",PP+":_make_log_prob_*"),("box handling",PP+":_normalize_bounds/_normalize_initial_states"),("log targets",PP+":get_log_target_values")],["sample_from_selection_criterion_* results"])
p("M08","Plots of sampler runs show what the run recorded",
 "Trace plots show every chain's recorded states and acceptance rates for the parameters asked for with the end of the burn-in marked; plots of the course of a particle sampler show the logged parameters, effective sizes and acceptance rates of every stage with a mark where each begins; diagnostics of gradient-based samplers show the recorded statistics averaged over chains with moving averages ending at their iteration; histograms and density curves are those of exactly the retained states, those without density left out. Drawing changes none of what was recorded.",
 ["histories","configurations"],"every choice of panels, burn-in, window and bins up to a bound; recorded runs over seeds and samplers",
 "no test draws a sampler's output; a curve shifted by the burn-in or taken from a neighbouring parameter looks plausible.",
 ["gpmp/mcmc/mh.py","gpmp/mcmc/nuts.py","gpmp/mcmc/smc.py","gpmp/mcmc/svgd.py"],[("chains","gpmp/mcmc/mh.py:plot_chains/plot_empirical_distributions"),("stages","gpmp/mcmc/smc.py:plot_state/plot_empirical_distributions"),("statistics","gpmp/mcmc/nuts.py:plot_nuts_diagnostics"),("clouds","gpmp/mcmc/svgd.py:plot_svgd_empirical_distributions")],["drawn curves, histograms and marks"])
p("X01","Labelled tables keep labels and data together under any edits",
 "In a labelled table, access by row label and column label returns the cell stored there, adding rows or columns or concatenating tables keeps every existing label attached to its data, tables derived from one another are independent afterwards, and appends or concatenations whose shapes or labels do not match are refused without changing the table.",
 ["histories","inputs"],"every sequence of appends, concatenations and accesses up to a depth",
 "no test covers the table class.",
 ["gpmp/misc/dataframe.py"],[("table","gpmp/misc/dataframe.py:DataFrame")],["DataFrame access results"],
 [("table","labels and cells","DataFrame.data/rownames/colnames")])
p("X02","Scoring rules satisfy their defining identities everywhere",
 "For all means, standard deviations and observations the Gaussian CRPS is non-negative, symmetric, shift and scale equivariant, and equals the absolute error in the zero-spread limit; truncated scores over adjacent intervals add up to the untruncated score for any breakpoints; expected-improvement functions are the mean excess over the threshold of one draw (or of the larger of two), hence non-negative, monotone and equal to the positive part of the excess at zero spread.",
 ["inputs"],"every combination of means, spreads, observations and interval breakpoints on a grid including infinite and coinciding breakpoints",
 "test_scoringrules checks selected random points by quadrature; additivity at boundaries and limits is a family.",
 ["gpmp/misc/scoringrules.py"],[("scores","gpmp/misc/scoringrules.py")],["crps_gaussian, tcrps_gaussian, ei1_up, ei2_up"])
p("X03","Designs lie in their box with the advertised structure",
 "Every design has the requested number of points and dimension, all inside the requested box; grids contain each combination of levels exactly once with end points on the box faces, Latin hypercube designs put exactly one point in each of the n slices of every coordinate, and the minimum, maximum and fill distances are the true ones for any point set.",
 ["inputs","configurations"],"every dimension, size and box up to a bound; every small point set on a grid",
 "no test covers designs.",
 ["gpmp/misc/designs.py"],[("designs","gpmp/misc/designs.py")],["design functions and distance functions"])
p("X04","Model performance metrics equal their definitions",
 "Performance summaries (leave-one-out and test set) equal the metrics they name, computed from the model's own predictions on the data given: total sum of squares, residual sums, explained variance ratio, probability integral transforms; they do not change under permutation of the data, and are consistent between the precomputed-prediction and recomputation paths.",
 ["inputs","configurations"],"every small data set and prediction vector on a grid, both data paths",
 "no test covers performance metrics.",
 ["gpmp/modeldiagnosis/performance.py"],[("metrics","gpmp/modeldiagnosis/performance.py:compute_performance")],["compute_performance results"])
p("X05","One-dimensional posterior summaries are those of the density",
 "For any unnormalised one-dimensional log-density on an interval, the density integrates to one, the distribution function is monotone from zero to one, quantiles invert it, mean and variance are its moments, none depends on an additive constant of the log-density, and the fast grid version agrees with them. Tables with one row per parameter hold the other parameters at the reference, and take criterion, reference, model and points from the call where it names them, else from the record of the fit; a missing one is refused.",
 ["inputs"],"every piecewise or polynomial log-density on a grid of shapes, shifts and intervals",
 "no test covers the distribution class.",
 ["gpmp/modeldiagnosis/un1ddist.py","gpmp/modeldiagnosis/param_stats.py"],[("distribution","gpmp/modeldiagnosis/un1ddist.py"),("fast statistics","gpmp/modeldiagnosis/param_stats.py:fast_univariate_stats")],["Unnormalized1DDistribution methods; fast_univariate_stats"])
p("X06","Diagnosis reports state the fitted model, its bounds and its data",
 "For any fitted model the diagnosis report gives every covariance parameter in natural units, next to it the bounds the optimiser used for that very parameter (none where it had none), and the selection's outcome, with the criterion at the initial parameters. The displayed data summary gives, per output and input column, range, mean and standard deviation, and the range in units of the process standard deviation or of that input's own lengthscale.",
 ["inputs","configurations"],"every dimension, number of mean and covariance parameters, noise or not, bounds present, partly open, short or long; every small data table",
 "no test builds or displays a report; parameter order and offsets only go wrong for particular combinations of mean parameters, noise and open bounds.",
 ["gpmp/modeldiagnosis/report.py","gpmp/modeldiagnosis/utils.py"],[("report","gpmp/modeldiagnosis/report.py:modeldiagnosis_init"),("display","gpmp/modeldiagnosis/report.py:model_diagnosis_disp/diag")],["modeldiagnosis_init results; printed report of diag"])
p("X07","Benchmark functions give the published response of each row alone",
 "Every benchmark function returns one response per row, equal to its published expression at that row whatever the other rows, their number, order or memory layout, attains its published optimum, and leaves the points it is given unchanged.",
 ["inputs"],"every batch grown, repeated and reordered from random points of the usual domains",
 "no test evaluates the benchmark functions; a missing term only shows against the published expression.",
 ["gpmp/misc/testfunctions.py"],[("functions","gpmp/misc/testfunctions.py")],["benchmark function values"])
p("S07","Empirical parameter bounds are read off the data",
 "Bounds built from data leave mean parameters open, put the log-variance between the two stated multiples of the empirical variance, and bound each input's range from below by the stated multiple of the smallest positive spacing of that input, leaving it open for a constant input. They do not depend on the order of the rows; rescaling the observations moves only the variance bounds, and rescaling or shifting an input only (or not even) that input's bound.",
 ["inputs","configurations"],"every small data table with repeated, constant, rescaled and shifted columns, every number of mean parameters and factors",
 "no test builds empirical bounds.",
 ["gpmp/kernel/bounds.py"],[("bounds","gpmp/kernel/bounds.py:empirical_bounds_factory")],["empirical_bounds_factory results"])
p("X08","Plots show the quantities they are drawn from",
 "Drawn bands cover the stated probabilities around the drawn mean; prediction slices and criterion cross sections move exactly the named coordinate of the reference through its own interval and show the prediction or criterion there, one panel per requested coordinate and anchor in order; level maps show the criterion at the parameters on their axes; the empirical distribution function of calibration values rises by one over their number at each; leave-one-out plots set predictions with 95% bars against observations. Drawing changes none of the given arrays.",
 ["inputs","configurations"],"every choice and order of panels, anchors, boxes, criteria and levels up to a bound",
 "no test draws anything; a panel taken from a neighbouring coordinate looks plausible.",
 ["gpmp/plot/plotutils.py","gpmp/modeldiagnosis/plotting.py"],[("predictions","gpmp/plot/plotutils.py:Figure.plotgp/crosssections/plot_loo"),("criteria","gpmp/modeldiagnosis/plotting.py")],["drawn curves, outlines and markers"])
p("K09","Data that do not fit together are refused, never made to fit",
 "Prediction and leave-one-out answer exactly when points and targets are tables with the same number of columns and the observations are a vector or a single column with one entry per point; any other shapes are refused rather than cut, repeated or turned to fit. An answer has one entry per target (per observation for leave-one-out) and is the one for the same data in plain form, also after refused requests on the same model. A mean is accepted exactly when declared with what its kind needs: nothing for zero, a function for a known or an unknown linear mean.",
 ["inputs","histories"],"all shapes reached from fitting data by adding, dropping and turning rows, columns and axes to a bound; sessions of fitting and unfitting requests on every mean kind",
 "no test passes data that do not fit; broadcasting makes many of them yield plausible numbers.",
 ["gpmp/core/utils.py","gpmp/core/model.py"],[("shapes","gpmp/core/utils.py:ensure_shapes_and_type"),("mean declaration","gpmp/core/utils.py:validate_model_mean")],["Model.predict, Model.loo and Model construction"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P)); 
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
