"""Source of properties.jsonl (run: python3 tools/properties_src.py)."""
import json
import os

PT = "pyvbmc/parameter_transformer/parameter_transformer.py"
FL = "pyvbmc/function_logger/function_logger.py"
VP = "pyvbmc/variational_posterior/variational_posterior.py"
VB = "pyvbmc/vbmc/vbmc.py"
VO = "pyvbmc/vbmc/variational_optimization.py"
AS = "pyvbmc/vbmc/active_sample.py"
GT = "pyvbmc/vbmc/gaussian_process_train.py"
IS = "pyvbmc/vbmc/active_importance_sampling.py"
IH = "pyvbmc/vbmc/iteration_history.py"
OP = "pyvbmc/vbmc/options.py"
AD = "pyvbmc/vbmc/minimize_adam.py"
WH = "pyvbmc/whitening/whitening.py"
AQ = "pyvbmc/acquisition_functions/"
EN = "pyvbmc/entropy/"
ST = "pyvbmc/stats/"
PR = "pyvbmc/priors/"
DEC = "pyvbmc/decorators/handle_0D_1D_input.py"
TI = "pyvbmc/timer/timer.py"
FO = "pyvbmc/formatting/formatting.py"

P = []


def add(id, title, statement, over, text, why, files, mech, state=(),
        observe=(), hook=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [
                    dict(zip(("name", "meaning", "where"), s)) for s in state
                ],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


add(
    "C01",
    "Change of variables is an order-preserving bijection into open bounds",
    "Mapping any point strictly inside the hard bounds to the unconstrained "
    "space and back returns the same point, and every unconstrained point, "
    "however extreme, maps back strictly inside the hard bounds. Each "
    "coordinate's map is increasing and uses the advertised link function, "
    "with the plausible box becoming the unit box centred at zero before any "
    "rotation and rescaling. Two transformers compare equal only if they are "
    "the same map.",
    ["inputs", "configurations"],
    "all bounds, link functions, rotations/scales and points, including "
    "points next to a bound and huge unconstrained values",
    "The tests use a few fixed boxes and grid points; closeness to a bound, "
    "mixed coordinates and rotation combined with each link are unsampled.",
    [PT],
    [("direct/inverse with nudging off the boundary", f"{PT}:__call__, "
      "inverse, _to_unit_interval, _from_unit_interval"),
     ("equality", f"{PT}:__eq__")],
    [("mu, delta, R_mat, scale", "centring and rotoscaling", PT)],
    ["ParameterTransformer.__call__", "ParameterTransformer.inverse"],
)
add(
    "C02",
    "Jacobian correction is the log-determinant of the inverse map",
    "For every transformer and every unconstrained point, the reported "
    "log absolute Jacobian determinant equals that of the map from the "
    "unconstrained to the original space, including the effect of centring, "
    "rescaling and rotation. It is finite wherever the true value is.",
    ["inputs", "configurations"],
    "all transformers (bounds, links, plausible boxes, rotations, scales) "
    "and unconstrained points, also far in the tails",
    "Tests compare a few points of single-type transformers; every density "
    "and ELBO in original space inherits an error here silently.",
    [PT],
    [("per-coordinate log-derivatives plus scale term",
      f"{PT}:log_abs_det_jacobian")],
    observe=["ParameterTransformer.log_abs_det_jacobian"],
)
add(
    "C03",
    "Evaluation log is a faithful record of the target's history",
    "After any sequence of evaluations and additions, the log holds for each "
    "distinct point the point in both spaces, the target value in original "
    "space and the Jacobian-corrected value, with repeated points combined as "
    "documented (precision-weighted when noisy) and all earlier entries "
    "unchanged. Counters, running maximum and timing agree with the history, "
    "through growth of the storage and finalisation. A rejected evaluation "
    "(error, wrong shape, non-finite value, bad noise) raises and leaves the "
    "log as it was.",
    ["histories", "inputs", "fault_sequences"],
    "all sequences of new, repeated and externally supplied evaluations, "
    "noise levels, cache sizes and failing target calls",
    "Tests make single calls; repeated noisy points, growth and failures "
    "interleaved over a history are never compared with a model.",
    [FL],
    [("recording and duplicate merging", f"{FL}:_record, __call__, add"),
     ("growth / trim", f"{FL}:_expand_arrays, finalize")],
    [("X_orig, y_orig, S, X, y, n_evals, X_flag", "the record", FL)],
    ["FunctionLogger.__call__", "FunctionLogger.add",
     "FunctionLogger.finalize"],
)
add(
    "C04",
    "Target is only ever evaluated inside the hard bounds, within budget",
    "During a whole inference run the target is called only at points "
    "strictly inside the hard bounds (and at valid values for integer "
    "variables it declares), with arguments of the documented shape. Every "
    "value in the final log is the target's actual return value at that "
    "point, the reported number of evaluations equals the number of calls, "
    "and it respects the configured maximum up to one batch.",
    ["configurations", "inputs", "histories"],
    "all targets, bounds, starting points, noise modes, search and design "
    "options and random seeds",
    "The few end-to-end tests check final accuracy on fixed problems, not "
    "where the target was called.",
    [AS, VB, FL, PT],
    [("clipping of search candidates", f"{AS}:active_sample, "
      "_get_search_points"), ("inverse transform", PT)],
    observe=["the user's target callable", "VBMC.function_logger"],
)
add(
    "C05",
    "Posterior density is the normalised mixture in either space",
    "The posterior's density at any point equals the weighted mixture of its "
    "components, in the original space corrected by the change of variables "
    "and zero outside the hard bounds, and it integrates to one. The log "
    "density is its logarithm, gradients are those of the returned function, "
    "and the heavy-tailed variants are the corresponding Student-t mixtures. "
    "Evaluation does not modify the posterior or its argument.",
    ["inputs", "configurations"],
    "all mixtures (dimension, components, weights, scales), bounds, "
    "rotations and points including on, outside and near the bounds",
    "Tests check a few points against stored values; normalisation, bounds, "
    "batch and dtype behaviour for arbitrary mixtures are not sampled.",
    [VP, PT],
    [("density evaluation", f"{VP}:pdf, log_pdf")],
    observe=["VariationalPosterior.pdf", "VariationalPosterior.log_pdf"],
)
add(
    "C06",
    "Posterior samples follow the posterior's own density",
    "Samples have the requested number and shape, lie strictly inside the "
    "hard bounds, and are distributed according to the posterior's density, "
    "with component labels in proportion to the mixture weights. Balanced "
    "sampling gives each component at least the whole part of its share and "
    "is unbiased. Heavy-tailed sampling follows the corresponding Student-t "
    "mixture.",
    ["inputs", "configurations"],
    "all mixtures, bounds, sample sizes (including 0 and 1), balanced and "
    "heavy-tailed options and random seeds",
    "Tests compare moments of one or two mixtures at one large sample size.",
    [VP],
    [("component allocation and noise", f"{VP}:sample")],
    observe=["VariationalPosterior.sample"],
)
add(
    "C07",
    "Posterior moments are the mixture's mean and covariance",
    "In the unconstrained space the returned mean and covariance are exactly "
    "those of the mixture, and in the original space they are the moments of "
    "the transformed mixture up to Monte Carlo error. The covariance is "
    "symmetric positive semi-definite with a consistent two-dimensional "
    "shape.",
    ["inputs", "configurations"],
    "all mixtures, bounds, sample sizes",
    "Tests use one fixed mixture per space.",
    [VP],
    [("closed form and sampling", f"{VP}:moments")],
    observe=["VariationalPosterior.moments"],
)
add(
    "C08",
    "Posterior parameter vectors round-trip and reject invalid values",
    "Writing back the parameter vector read from a posterior, in either "
    "parameterisation, leaves its density unchanged; writing any valid vector "
    "stores exactly the values given, with weights normalised and the scale "
    "vector normalised without changing the density. Vectors with "
    "non-positive scales or weights are rejected in the non-log "
    "parameterisation, and valid ones, negative means included, never are.",
    ["inputs", "histories", "configurations"],
    "all mixtures, subsets of parameters being optimised, vectors, and "
    "sequences of reads and writes",
    "Tests use a single positive-valued vector per flag.",
    [VP],
    [("packing and unpacking", f"{VP}:get_parameters, set_parameters, "
      "get_bounds")],
    observe=["VariationalPosterior.get_parameters",
             "VariationalPosterior.set_parameters"],
)
add(
    "C09",
    "Posterior mode is a maximiser of the density",
    "The returned mode, in either space, is a valid point of the requested "
    "space and no component centre or random sample of the posterior has a "
    "density noticeably higher than it. A repeated request returns the same "
    "point until the posterior is changed.",
    ["inputs", "configurations"],
    "all mixtures and bounds, including one dimension",
    "Tests cover two fixed mixtures in two or more dimensions.",
    [VP],
    [("multi-start optimisation", f"{VP}:mode")],
    observe=["VariationalPosterior.mode"],
)
add(
    "C10",
    "Posterior distances are consistent divergences",
    "Divergences between two posteriors are non-negative, near zero for a "
    "posterior against itself, symmetric where defined so, and agree with "
    "reference values: the closed-form Gaussian divergence for the Gaussian "
    "option, numerical integration otherwise. The marginal total variation "
    "lies in the unit interval. Passing samples gives the same answer as "
    "passing the posterior they came from.",
    ["inputs", "configurations"],
    "all pairs of mixtures in a common space, sample sizes, Gaussian and "
    "sample-based options",
    "Tests use identical or two fixed posteriors.",
    [VP, ST + "kl_div_mvn.py", ST + "kde_1d.py"],
    [("divergences", f"{VP}:kl_div, mtv"), ("closed form",
                                            ST + "kl_div_mvn.py")],
    observe=["VariationalPosterior.kl_div", "VariationalPosterior.mtv",
             "kl_div_mvn"],
)
add(
    "C11",
    "Entropy estimates bound or match the mixture entropy, with gradients",
    "The deterministic entropy never exceeds the true entropy of the mixture "
    "and is exact for a single-component reference formula; the Monte Carlo "
    "entropy converges to the true entropy. Their gradients with respect to "
    "every optimised parameter equal the derivatives of the value returned, "
    "in the order of the parameter vector, and only for the parameters asked "
    "for.",
    ["inputs", "configurations"],
    "all mixtures and subsets of gradient parameters",
    "Tests check stored values and a few gradients at fixed mixtures.",
    [EN + "entlb_vbmc.py", EN + "entmc_vbmc.py"],
    [("lower bound", EN + "entlb_vbmc.py"),
     ("reparameterised Monte Carlo", EN + "entmc_vbmc.py")],
    observe=["entlb_vbmc", "entmc_vbmc"],
)
add(
    "C12",
    "Surrogate expected log joint matches quadrature, with its gradient",
    "The expected log joint under the posterior given the surrogate equals "
    "the integral of the surrogate mean against the mixture, averaged over "
    "surrogate samples, and its variance is non-negative and equals the "
    "double integral of the surrogate's posterior covariance. Per-component "
    "values and gradients are those of the total.",
    ["inputs", "configurations"],
    "all surrogates (mean functions, hyperparameter samples, training sets, "
    "noise), mixtures and gradient subsets",
    "Tests use one stored surrogate and mixture from another "
    "implementation.",
    [VO],
    [("Bayesian quadrature", f"{VO}:_gp_log_joint")],
    observe=["the ELBO reported with the posterior"],
)
add(
    "C13",
    "Variational objective, its gradient and its optimum are consistent",
    "The optimised objective is minus the confidence-adjusted ELBO plus the "
    "documented penalties, its gradient is its derivative, and evaluating it "
    "does not modify its arguments. The posterior returned by an optimisation "
    "has positive normalised weights and scales, the requested number of "
    "components unless pruned, bookkeeping (ELBO = expected log joint + "
    "entropy, per-component terms) matching that posterior, and is no worse "
    "than its best starting point.",
    ["inputs", "configurations"],
    "all surrogates, starting posteriors, component counts, parameter "
    "subsets, penalty and entropy settings",
    "Tests check a few stored objective values and that calls run.",
    [VO],
    [("objective", f"{VO}:_neg_elcbo, _vp_bound_loss, _soft_bound_loss"),
     ("optimisation and pruning", f"{VO}:optimize_vp")],
    [("vp.stats", "ELBO and its parts for this posterior", VO)],
    ["VariationalPosterior.stats"],
)
add(
    "C14",
    "Built-in priors are normalised densities on their support",
    "Every built-in prior's density is non-negative, integrates to one over "
    "its support, vanishes outside it, and its log is the log density; the "
    "densities have the documented shape (flat where flat, monotone "
    "shoulders, continuous). Output shapes follow the input's, in one and "
    "many dimensions, and invalid specifications are rejected.",
    ["inputs", "configurations"],
    "all parameters and dimensions of every prior and all points inside, on "
    "and outside the support",
    "Tests check a few parameter values per prior.",
    [PR],
    [("closed-form densities", PR + "{uniform_box,trapezoidal,"
      "spline_trapezoidal,smooth_box}.py")],
    observe=["Prior.log_pdf", "Prior.pdf", "Prior.support"],
)
add(
    "C15",
    "Prior samples, products and conversions agree with the density",
    "Samples of every prior lie in its support and follow its density. A "
    "product prior's density is the product of its marginals' densities and "
    "its samples have those marginals. Converting a distribution, list of "
    "marginals or function yields a prior with the same density, and "
    "unsupported objects are rejected.",
    ["inputs", "configurations", "programs"],
    "all priors, products (nested included), scipy distributions, user "
    "functions and sample sizes",
    "Tests check a few fixed compositions.",
    [PR],
    [("sampling", PR), ("composition", PR + "product.py"),
     ("conversion", PR + "convert_to_prior.py")],
    observe=["Prior.sample", "Product", "convert_to_prior"],
)
add(
    "C16",
    "Problem setup yields ordered bounds and an interior start, or an error",
    "For any combination of starting point and hard and plausible bounds, "
    "construction either raises or results in strictly ordered hard and "
    "plausible bounds and starting points inside them, equal to the user's "
    "values except for the documented small adjustments. Invalid bounds "
    "(misordered, wrong shape, non-finite plausible range, fixed or "
    "half-bounded variables) always raise. The initial posterior is centred "
    "on the starting points. The caller's arrays are never modified.",
    ["inputs", "configurations"],
    "all combinations of given/omitted bounds and starting points, scalar "
    "and vector forms, touching and near-touching bounds",
    "Tests try a list of fixed invalid combinations.",
    [VB],
    [("bounds check and adjustment", f"{VB}:__init__, _bounds_check")],
    observe=["VBMC constructor", "VBMC.lower_bounds", "VBMC.x0"],
)
add(
    "C17",
    "Options take documented precedence, reject unknown names, stay fixed",
    "The effective value of every option is the user's explicit value if "
    "given, else that of the user's options file, else the default for this "
    "dimension and noise mode; every documented option has a value. Unknown "
    "names given directly are rejected (a name declared in the user's own "
    "options file counts as known). After "
    "construction no ordinary mutation changes options, and the user's "
    "dictionary is not modified or shared.",
    ["configurations", "programs"],
    "all sets of user options, option files and mutation attempts",
    "Tests set a few options and try item assignment only.",
    [OP, VB, "pyvbmc/vbmc/option_configs/"],
    [("loading and precedence", f"{OP}:__init__, load_options_file, "
      "update_defaults, validate_option_names"),
     ("freezing", f"{OP}:__setitem__")],
    observe=["VBMC.options"],
)
add(
    "C18",
    "Iteration history keeps immutable snapshots of every iteration",
    "The history returns for each recorded iteration and key exactly the "
    "value recorded, whatever is later done to the recorded object, for any "
    "sequence of recordings; unknown keys and negative iterations are "
    "rejected and unrecorded entries read as missing. After a run, all "
    "per-iteration sequences have one entry per iteration.",
    ["histories"],
    "all sequences of single and multi-key recordings with later mutation "
    "of the recorded objects",
    "Tests record a handful of scalars in order.",
    [IH, VB],
    [("deep copies on record", f"{IH}:record, record_iteration")],
    observe=["IterationHistory.record", "IterationHistory.__getitem__"],
)
add(
    "C19",
    "Saved state reloads identically, resumes, and is never overwritten",
    "A posterior or an inference saved at any point and loaded again, in the "
    "same or a new process, gives the same densities, samples (under the same "
    "random state) and recorded history, and a resumed run continues exactly "
    "as the uninterrupted one would when the random state is restored. "
    "Saving never replaces an existing file unless asked, loading with new "
    "options applies them, and a failed save or load leaves existing files "
    "intact.",
    ["crash_points", "histories", "configurations"],
    "all stopping iterations, mixtures, file-name forms, overwrite flags "
    "and new options",
    "Tests save and load one finished object and compare attributes.",
    [VP, VB],
    [("dill serialisation", f"{VP}:save, load; {VB}:save, load")],
    observe=["VBMC.save/load", "VariationalPosterior.save/load"],
)
add(
    "C20",
    "Re-whitening the space keeps data, surrogate and posterior consistent",
    "After a rotation and rescaling of the inference space the recorded "
    "points keep their original-space values, their transformed coordinates "
    "and Jacobian-corrected values are those of the new map, and the "
    "posterior's weighted covariance in the new space is (near) the identity. "
    "The warped posterior and surrogate represent the same quantities as "
    "before, and the state needed to undo the warp is intact.",
    ["inputs", "configurations", "histories"],
    "all mixtures, bounds, training sets, surrogates and repeated warps",
    "Tests check one or two fixed Gaussian examples.",
    [WH, PT, FL],
    [("warp", f"{WH}:warp_input, warp_gp_and_vp"),
     ("unscented hyperparameter transport", f"{WH}:unscented_warp")],
    observe=["FunctionLogger.X", "FunctionLogger.y",
             "VariationalPosterior.moments"],
)
add(
    "C21",
    "Acquisition functions equal their published formulae",
    "Each acquisition function's value at a point depends only on that point "
    "and the current state and equals its defining formula computed from the "
    "surrogate's prediction and the posterior's density. Points outside the "
    "search bounds get infinite (never chosen) value, integer variables are "
    "rounded to valid values first, and values are never NaN. Evaluation "
    "leaves surrogate, posterior and state unchanged.",
    ["inputs", "configurations"],
    "all surrogates, posteriors, noise settings, batches of points in and "
    "out of bounds",
    "Tests use stored values at a few points.",
    [AQ],
    [("common wrapper", AQ + "abstract_acq_fcn.py"), ("formulae", AQ)],
    observe=["acquisition function call"],
)
add(
    "C22",
    "Candidate and initial points are valid, complete and from their source",
    "The initial design contains the provided starting points and values and "
    "otherwise points drawn from the plausible region, in the configured "
    "number and without re-evaluating provided values. Search candidates come "
    "in the requested number from the configured mix of sources, respect the "
    "search bounds, and integer coordinates are valid.",
    ["inputs", "configurations"],
    "all starting designs (size, given values), search-source fractions, "
    "bounds and sample sizes",
    "Tests check one source at a time in a fixed problem.",
    [AS],
    [("initial design and candidates", f"{AS}:active_sample, "
      "_get_search_points")],
    observe=["function log after the initial design",
             "points passed to the acquisition function"],
)
add(
    "C23",
    "Stopping and stability decisions follow the recorded history",
    "Inference stops exactly when a documented condition holds: evaluation or "
    "iteration budget exhausted or sustained stability, never before the "
    "configured minima; and the reported reason is the one that applied. "
    "Stability, reliability and warm-up decisions are functions of the "
    "recorded history only and follow their defining formulae.",
    ["histories", "configurations"],
    "all histories of ELBO, uncertainty, divergence and evaluation counts "
    "and all settings of thresholds",
    "Tests check each threshold with one constructed history.",
    [VB],
    [("termination", f"{VB}:_check_termination_conditions, "
      "_compute_reliability_index, _is_gp_sampling_finished, "
      "_check_warmup_end_conditions, _setup_vbmc_after_warmup")],
    observe=["VBMC.is_finished", "result message"],
)
add(
    "C24",
    "The reported solution is the recorded iterate selected by the rule",
    "The posterior chosen as the solution is a copy of one of the recorded "
    "iterations, selected by the documented rule (last if stable, otherwise "
    "best by safe ELBO or by rank), and the reported ELBO, uncertainty and "
    "index are those recorded with it. Changing the returned posterior does "
    "not alter the record.",
    ["histories", "configurations"],
    "all histories of ELBO, uncertainty, stability and reliability, and all "
    "selection settings",
    "Tests construct a few histories without ties or edge indices.",
    [VB],
    [("selection", f"{VB}:determine_best_vp, _create_result_dict")],
    observe=["VBMC.determine_best_vp", "results dictionary"],
)
add(
    "C25",
    "A complete run returns an accurate, self-consistent, reproducible result",
    "On targets whose posterior and normaliser are known, a complete run "
    "returns a posterior and ELBO matching them within tolerance, and a "
    "results dictionary that agrees with the returned posterior, the log and "
    "the history. Under a fixed random seed, the run is reproducible, and "
    "independent of other inference objects alive in the process.",
    ["inputs", "configurations", "histories"],
    "targets with known normaliser over bounded/unbounded spaces, options, "
    "priors and seeds",
    "End-to-end tests check accuracy on fixed targets at one seed and no "
    "agreement between the outputs.",
    [VB, VO, AS, GT],
    [("main loop", f"{VB}:optimize, final_boost, _create_result_dict")],
    observe=["VBMC.optimize return values"],
)
add(
    "C26",
    "Density estimation and high-density selection are correct",
    "The one-dimensional density estimate is non-negative, integrates to one "
    "over its mesh, covers the data and converges to the sampling density. "
    "Selecting the high-density subset returns exactly the requested fraction "
    "of points with the highest values, matched with their locations and "
    "range.",
    ["inputs"],
    "all samples (size, scale, offset, discreteness), mesh sizes, bounds and "
    "fractions",
    "Tests use three fixed distributions and one array.",
    [ST + "kde_1d.py", ST + "get_hpd.py"],
    [("diffusion kernel density", ST + "kde_1d.py"),
     ("selection", ST + "get_hpd.py")],
    observe=["kde_1d", "get_hpd"],
)
add(
    "C27",
    "Stochastic minimiser improves, stays in bounds, and reports honestly",
    "The stochastic gradient minimiser never leaves the given bounds, does "
    "not modify its starting point, uses at most the allowed iterations, and "
    "on smooth convex objectives ends no worse than it started up to the "
    "step size. The value trace holds the objective at the successive "
    "evaluated points, the returned point and value average the last "
    "iterations, and the optional early stopping only acts on stagnation.",
    ["inputs", "configurations"],
    "all convex quadratics, starting points, bounds, step sizes, iteration "
    "limits and noise levels",
    "Tests minimise four standard functions from fixed points.",
    [AD],
    [("Adam with averaging", f"{AD}:minimize_adam")],
    observe=["minimize_adam"],
)
add(
    "C28",
    "The inferred log joint is exactly likelihood plus prior",
    "Whether the user supplies a log joint, or a log likelihood with any form "
    "of prior, the quantity evaluated at every point is the sum of the two, "
    "with the likelihood's noise estimate passed through unchanged, in every "
    "accepted output format. Conflicting or invalid specifications are "
    "rejected at construction.",
    ["inputs", "configurations", "programs"],
    "all priors (objects, functions, scipy distributions, lists), noise "
    "modes, output types and points",
    "Tests check one prior form at a time.",
    [VB, PR],
    [("composition", f"{VB}:_init_log_joint")],
    observe=["VBMC.function_logger.fun", "VBMC constructor errors"],
)
add(
    "C29",
    "The surrogate is trained on exactly the recorded data",
    "After training or updating, the surrogate's data are the active "
    "recorded points, values and noise variances, its hyperparameter samples "
    "respect their bounds and configured number, and its prediction "
    "interpolates the data to within the noise. Adding one observation gives "
    "the same surrogate as rebuilding it with that observation.",
    ["inputs", "histories", "configurations"],
    "all logs (noise, repeated and deactivated points), surrogate options "
    "and dimensions",
    "Tests train on fixed sets and check shapes or a stored value.",
    [GT, AS],
    [("training data", f"{GT}:_get_training_data, reupdate_gp"),
     ("bounds, priors, sample counts", f"{GT}:_gp_hyp, train_gp, "
      "_get_hyp_cov")],
    observe=["VBMC.gp"],
)
add(
    "C30",
    "Importance-sampling sets for acquisition are normalised and consistent",
    "The importance points and weights prepared for the integrated "
    "acquisition functions are finite, normalised, and correspond to each "
    "other: each weight is the target-to-proposal density ratio of its point, "
    "and the cached kernel quantities are those of the points and surrogate. "
    "Integrals computed with them agree with direct numerical integration.",
    ["inputs", "configurations"],
    "all surrogates, posteriors, sample-size settings and random seeds",
    "Tests check one or two fixed problems against stored numbers.",
    [IS, AQ + "acq_fcn_viqr.py", AQ + "acq_fcn_imiqr.py"],
    [("importance sampling", f"{IS}:active_importance_sampling, "
      "active_sample_proposal_pdf, fess, renormalize_weights")],
    observe=["optim_state active importance sampling entries"],
)
add(
    "C31",
    "Timers, input-shape adaptation and text summaries are total",
    "Timers report the total of completed intervals under any sequence of "
    "starts, stops and resets. Functions accepting scalars, vectors or "
    "matrices give the same numbers for the same points in any of these "
    "forms, with matching output shape. Printing any object of the package "
    "in any state succeeds and does not change it.",
    ["histories", "inputs"],
    "all operation sequences, array shapes and object states",
    "Tests check single calls in each form.",
    [DEC, TI, FO, VP, VB, PT, FL, IH, OP],
    [("decorator", DEC), ("timer", TI), ("formatting", FO)],
    observe=["decorated functions", "Timer", "str/repr"],
)
add(
    "C32",
    "The number of mixture components follows the adaptive schedule",
    "Warm-up keeps the configured number of components. Afterwards each "
    "iteration asks for one more component when the ELCBO improves on the "
    "recent iterations and nothing was just pruned, plus the configured bonus "
    "when the solution is also reliable and nothing was recently pruned; never "
    "fewer than before nor more than the configured maximum for the number of "
    "evaluations. The recorded posterior has that number minus the components "
    "reported as pruned; nothing is pruned with fixed weights, and with fixed "
    "means there is one component on each training input, less the pruned.",
    ["histories", "configurations"],
    "all histories and all settings of the schedule",
    "Tests check a handful of constructed histories, none of them in a run.",
    [VO, VB],
    [("schedule", f"{VO}:update_K"), ("pruning", f"{VO}:optimize_vp"),
     ("fixed means and weights, use of the schedule", f"{VB}:optimize")],
    observe=["VBMC.iteration_history vp, pruned", "optim_state vp_K"],
)
add(
    "C33",
    "The displayed and filed log reports the run as it was recorded",
    "At the display levels that show iterations, every iteration has exactly "
    "one line, whose counts, ELBO, error, divergence, number of components, "
    "reliability and action are the recorded ones to the printed precision; "
    "the final messages give the reason, the ELBO of the returned result and "
    "a caution exactly when it is not successful. A log file receives the "
    "lines of its own run at its level and no lines of other runs, appended "
    "or started anew as configured; every documented level is accepted.",
    ["histories", "configurations"],
    "all sequences of constructions and runs and all display and log file "
    "settings",
    "Tests do not look at the log.",
    [VB, AS],
    [("logging", f"{VB}:_init_logger, _log_column_headers, "
      "_setup_logging_display_format, optimize")],
    observe=["log records", "log files"],
)
add(
    "C34",
    "Plots show the posterior, its components and its data",
    "A plot of a posterior shows in original coordinates the marginals of its "
    "samples, the centres of its components, and the training points with the "
    "highlighted ones set apart, under the given title, labels and style; it "
    "changes neither the posterior nor the surrogate. The plots of a run and "
    "the frames of its animation show each iteration's own posterior and "
    "data.",
    ["inputs", "histories"],
    "all posteriors, spaces, data, highlighted subsets and runs",
    "The only test makes one plot and reads its title.",
    [VP, VB, "pyvbmc/vbmc/create_vbmc_animation.py"],
    [("corner plot", f"{VP}:plot"), ("plots of a run", f"{VB}:optimize"),
     ("animation", "pyvbmc/vbmc/create_vbmc_animation.py")],
    observe=["artists of the returned figures", "image files"],
)
add(
    "C35",
    "An interrupted run keeps its record, saves, reloads and resumes",
    "An exception in the target or in any step of an iteration, including an "
    "interruption by the user, leaves optimize() unchanged, and the record of "
    "the completed iterations and the logged evaluations stay as they were. "
    "The object can be saved and loaded at any completed iteration, and "
    "optimize() continues, on the same or a loaded object, after the last "
    "completed iteration (or from the start if there is none). With the "
    "recorded random state the resumed run is identical to the uninterrupted "
    "one; otherwise it still ends as a run without gaps, within its limits.",
    ["crash points", "histories"],
    "all points of interruption, kinds of exceptions, repeated interruptions "
    "and ways to resume",
    "No test interrupts a run.",
    [VB, IH, FL],
    [("state of an iteration", f"{VB}:_restore_iteration, "
      "_last_complete_iteration"), ("resuming", f"{VB}:optimize, load"),
     ("record", f"{IH}:record")],
    observe=["VBMC.iteration_history", "VBMC.function_logger", "results"],
)

add(
    "C36",
    "The target's constant and the units of its variables do not matter",
    "Adding a constant to the log-density shifts the ELBO by that constant "
    "and changes nothing else in a run: not the points evaluated, not the "
    "posterior, not the decisions. Stating the problem in other units (scale "
    "and origin of each variable, its bounds and its prior included) gives "
    "the same run in the transformed space and the same posterior in the new "
    "units, with the ELBO changed by the log-Jacobian only; so does moving "
    "the prior from the target to the constructor. All of it from the same "
    "random state and up to rounding.",
    ["inputs", "configurations", "histories"],
    "all constants, scales, origins, bounds, priors, noise models and "
    "options of a run",
    "The tests run single statements of each problem, mostly with values "
    "near zero and scales near one.",
    [VB, FL, PT, GT],
    [("log joint", f"{VB}:_init_log_joint"),
     ("standardization and Jacobian", f"{PT}:__call__, log_abs_det_jacobian"),
     ("relative thresholds of values", f"{VB}:optimize, "
      "_setup_vbmc_after_warmup, _check_warmup_end_conditions")],
    observe=["VBMC.iteration_history", "returned posterior", "results"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
