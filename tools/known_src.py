"""Source of known_findings.json (run: python3 tools/known_src.py).

`fixed` lines are history only: they suppress nothing.
"""
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FINDINGS = [
    {
        "property": "C05",
        "prop": "orig-gradient",
        "key": "transformed-space gradient",
        "what": "VariationalPosterior.pdf(orig_flag=True, grad_flag=True) "
        "returns the gradient of the transformed-space density when the "
        "space is transformed (bounded, centred or rescaled variables)",
        "case": {
            "vp": {
                "D": 1, "K": 1,
                "tr": {
                    "dims": [{"k": "b", "plb": -0.5, "pub": 0.5,
                              "lb": -1.5, "ub": 1.5}],
                    "type": "logit", "center": False, "rot": None,
                    "scale": None,
                },
                "mu": [0.0], "sigma": [1.0], "lambd": [1.0], "w": [1.0],
            },
            "u": [[1.0, 0.0, 0.0, 0.0]],
        },
    },
]

# commit subject -> property
FIXED = {
    "compare both scales in ParameterTransformer.__eq__": "C01",
    "do not overflow in the log-Jacobian of the logit transform": "C02",
    "a repeated point must not corrupt the logged original value": "C03",
    "count repeated evaluations in the total evaluation time": "C03",
    "trim the evaluation counts with the rest of the function log": "C03",
    "evaluate the target on a copy of the point that is logged": "C03",
    "reject points of the wrong dimension before touching the log": "C03",
    "unbiased remainder allocation in balanced sampling": "C06",
    "validate the scales and weights, not the means, in set_parameters": "C08",
    "use the mean vector of the samples in the Gaussianized KL": "C10",
    "operator precedence when guarding infinite densities in kl_div": "C10",
    "do not truncate transformed points when the pdf's input is integer": "C05",
    "mode of one-dimensional posteriors in the original space": "C09",
    "return a 2-D covariance from moments in one dimension": "C07",
    "integer component labels also for a single component": "C06",
    "draw exactly the missing samples in balanced sampling": "C06",
    "do not hand out the cached mode itself": "C09",
    "mode returns the starting point if its optimization breaks down": "C09",
    "keep eta in step with the weights in set_parameters": "C08",
    "do not modify theta when evaluating the variational objective": "C13",
    "order of the scales in the gradient of the soft-bound loss": "C13",
    "attribute name optimize_lambd in the soft-bound loss": "C13",
    "remove both rows and columns of pruned components from J_sjk": "C13",
    "return all requested log-joint gradients without the Jacobian": "C12",
    "Gaussian KL divergence for badly scaled covariances": "C10",
    "support of shifted or scaled SciPy priors": "C15",
    "support of smooth-box priors with integer pivots": "C14",
    "prior log-densities at integer points": "C14",
    "user-defined marginals of product priors": "C15",
    "do not modify the caller's plausible bounds": "C16",
    "integer variables given as a list": "C22",
    "Gaussian KL divergence called with keywords or scalars": "C31",
    "budget no larger than the initial design": "C25",
    "do not modify the recorded history when continuing a run": "C18",
    "record the current GP hyperparameters with the optimisation state":
        "C19",
    "load with the random state an object saved before running": "C19",
    "resume from the iteration at which warm-up ended": "C19",
    "rank criterion of determine_best_vp on a recorded history": "C24",
    "report bounded problems as bounded in the results": "C25",
    "warm-up check with a large number of evaluations per iteration": "C23",
    "option entropy_switch": "C23",
    "option uncertainty_handling given as a number": "C16",
    "final boost of a run with provided function values": "C25",
    "options true_mean and true_cov given as arrays": "C25",
    "option separate_search_gp": "C25",
    "option warp_cov_reg given as a function": "C20",
    "train the GP on a history with another number of hyperparameters":
        "C25",
    "weighted covariance of the GP hyperparameter samples": "C29",
    "fixed sample numbers in updates during active sampling": "C25",
    "search optimization with unbounded active search": "C25",
    "option search_cache_frac": "C22",
    "options for the selection of the best solution": "C24",
    "a failed save must not destroy or leave behind a file": "C19",
    "no deletion or in-place union of options after initialization": "C17",
    "noise-dependent defaults when the noise is set in an options file":
        "C17",
    "do not modify the starting point in minimize_adam": "C27",
    "per-component expected log joint without its variance": "C12",
    "do not abort when the deterministic optimization stops early": "C13",
    "search optimization with integer variables": "C04",
    "round integer variables within the bounds and not in place": "C21",
    "integer variables in the initial design": "C22",
    "resampling weights of the importance sampling starting point": "C30",
    "effective sample size from a number of samples": "C30",
    "integer variables in a rotated space": "C21",
    "whitespace in the arguments of an acquisition function string": "C21",
    "regularization of two-dimensional acquisition values": "C21",
    "number of search points when only part of the cache is used": "C22",
    "apply the variance-based regularization of the acquisition functions":
        "C21",
    "evaluate the prior at the point of the likelihood": "C04",
    "final boost with fixed component means": "C04",
    "search bounds when warping from an earlier posterior": "C20",
    "unscented transform of one point with several scales": "C20",
    "warping with an unbounded search": "C20",
    "observations of unknown noise enter the surrogate with their relative "
    "precision": "C29",
    "upper bound on the length scales of the surrogate": "C29",
    "Gaussian divergence in many dimensions at extreme scales": "C10",
    "replicate scalar bounds in each dimension as documented": "C16",
    "hard bounds in column form with estimated plausible bounds": "C16",
    "centre the initial posterior on the starting points": "C16",
    "write each run's log only to its own log file": "C33",
    "accept the documented display and log file levels": "C33",
    "accept a list of data points to highlight in plots": "C34",
    "show the training data in the plots of a run": "C34",
    "show each iteration's data and action in animations": "C34",
    "resume an interrupted run from its last complete iteration": "C35",
}

log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
    capture_output=True, text=True, check=True,
).stdout.splitlines()
fixed = []
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append(f"fixed: property={FIXED[s[5:]]} {h} {s[5:]}")
with open(os.path.join(here, "known_findings.json"), "w",
          encoding="utf-8") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(FINDINGS), len(fixed))
