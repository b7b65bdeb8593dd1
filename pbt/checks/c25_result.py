"""C25: a complete run's result is accurate, self-consistent, reproducible."""
import copy
import math

import numpy as np

from pbt import gen, hist, ref, runcfg
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C25"
TECHNIQUE = (
    "complete generated runs: agreement between the outputs, differential "
    "re-runs under the same seed (alone and around another inference), and "
    "exact posteriors and normalisers as the oracle of accuracy"
)
RULE = (
    "Cases: complete runs over generated bounds, targets, noise, priors and "
    "options; pairs of runs under one seed, of which the second may build, "
    "run or save another inference inside its target; Gaussian targets "
    "(times Gaussian priors) whose posterior and normaliser are known. "
    "Non-trivial: the run went beyond its initial design."
)
ASSUMPTIONS = [
    "accuracy: errors of 0.45 in the log normaliser (0.65 with noise), 0.25 "
    "standard deviations in the mean (0.35), a factor of 1.3 in the standard "
    "deviation (1.4) and 0.3 in correlations are tolerated",
    "reproducibility: the target uses its own random generator",
]


def finite_mixture(t, vp):
    w = np.ravel(vp.w)
    K = vp.K
    t.check(vp.mu.shape == (vp.D, K) and vp.sigma.size == K
            and vp.lambd.size == vp.D and w.size == K, "shapes")
    t.check(np.all(np.isfinite(vp.mu)), "means")
    t.check(np.all(vp.sigma > 0) and np.all(np.isfinite(vp.sigma)), "sigma")
    t.check(np.all(vp.lambd > 0) and np.all(np.isfinite(vp.lambd)), "lambda")
    t.check(np.all(w > 0) and abs(w.sum() - 1) < 1e-9, f"weights {w}")


def consistent(c, t):
    R = runcfg.Run(c)
    if len(np.unique(R.x0, axis=0)) < len(R.x0):
        t.discard()
    np.random.seed(c["seed"] % 2**32)
    v = R.vbmc()
    vp, res = v.optimize()
    H = v.iteration_history
    n, g = len(R.calls), sum(c["given"])
    t.nontrivial(n + g > v.options["fun_eval_start"])
    finite_mixture(t, vp)
    its = len(H["iter"])
    b = res["best_iter"]
    t.check(0 <= b < its, f"best iteration {b} of {its}")
    t.check(res["iterations"] == H["iter"][-1] == its - 1,
            f"{res['iterations']} iterations, {its} recorded")
    t.check(list(H["iter"]) == list(range(its)), "iteration numbers")
    t.check(res["func_count"] == n, f"{res['func_count']} != {n} calls")
    t.check(res["problem_type"] == (
        "bounded" if np.isfinite(R.lb).any() else "unconstrained"),
        res["problem_type"])
    t.check(res["components"] == vp.K, "components")
    t.check(res["train_set_size"] == H["n_eff"][b], "size of training set")
    t.check(res["r_index"] == H["r_index"][b], "reliability index")
    st_ = bool(H["stable"][b])
    t.check(res["convergence_status"] == ("probable" if st_ else "no"),
            "convergence status")
    t.check(bool(res["success_flag"]) == st_, "success flag")
    t.check(bool(vp.stats["stable"]) == st_, "stable")
    for k in ("elbo", "elbo_sd"):
        t.check(res[k] == vp.stats[k], f"{k} of another posterior")
        t.check(np.isfinite(res[k]), f"{k} = {res[k]}")
    t.check(res["elbo_sd"] >= 0, "negative uncertainty")
    t.check(isinstance(res["message"], str) and res["message"], "message")
    s = vp.stats
    t.close(s["elbo"], s["e_log_joint"] + s["entropy"], "decomposition")
    for k in ("elbo", "elbo_sd", "func_count", "n_eff", "vp_K", "stable",
              "r_index", "lcb_max", "warmup", "sKL", "gp_sample_var"):
        if k in H and H[k] is not None:
            t.check(len(H[k]) == its, f"{k} recorded {len(H[k])} times")
    for i in range(its):
        q = H["vp"][i]
        finite_mixture(t, q)
        t.check(H["elbo"][i] == q.stats["elbo"]
                and H["elbo_sd"][i] == q.stats["elbo_sd"],
                f"ELBO recorded at iteration {i}")
        F = H["function_logger"][i]
        t.check(H["func_count"][i] == F.func_count, "recorded count")
        # (the training set is trimmed at the end of warm-up's last iteration)
        k = np.sum(F.n_evals[F.X_flag])
        t.check(k <= H["n_eff"][i] <= np.sum(F.n_evals), "n_eff")
        if F.X_flag.sum() == len(H["gp"][i].X):
            t.check(H["n_eff"][i] == k, f"n_eff {H['n_eff'][i]}, {k}")
        t.check(i == 0 or H["func_count"][i] >= H["func_count"][i - 1],
                "counts decrease")
    t.check(H["func_count"][-1] == n, "last recorded count")
    hist.recorded(t, H, v.options)
    # the returned posterior against the surrogate it was fitted to
    gp = H["gp"][b]
    N = 4000
    u, k = vp.sample(N, orig_flag=False, balance_flag=False)
    fm, _ = gp.predict(u, separate_samples=True, add_noise=False)
    f = fm.mean(1)
    lq = ref.mixture_logpdf(vp, u)
    e = 8 * f.std() / math.sqrt(N) + 1e-3
    # (heavy tails of the surrogate's mean)
    t.check(abs(f.mean() - s["e_log_joint"]) < e, lambda: (
        f"expected log joint {s['e_log_joint']}, {f.mean()} +- {e / 8} from "
        "samples"))
    ent = -lq.mean()
    det = v.options["det_entropy_min_d"] <= vp.D
    e = 8 * lq.std() * (1 / math.sqrt(N) + 1 / math.sqrt(200)) + 1e-3
    t.check(s["entropy"] < ent + e, lambda: (
        f"entropy {s['entropy']}, {ent} from samples"))
    if not det:
        t.check(s["entropy"] > ent - e, lambda: (
            f"entropy {s['entropy']}, {ent} from samples"))
    # returned objects are the caller's own
    vp.mu[:] = 1e6
    res["elbo"] = None
    t.check(np.all(np.abs(v.vp.mu) < 1e6) and all(
        np.all(np.abs(q.mu) < 1e6) for q in H["vp"]),
        "returned posterior shared with the record")


# ------------------------------------------------------------ reproducible
@st.composite
def rep_case(draw):
    c = draw(runcfg.spec(max_d=2, opts=4))
    c["evals"], c["iters"] = 26, 4
    c["other"] = draw(st.sampled_from(
        ["none", "build", "run", "run", "options", "logging"]))
    c["other_at"] = draw(st.integers(0, 16))
    return c


def one(c, other=None):
    R = runcfg.Run(c)
    np.random.seed(c["seed"] % 2**32)
    v = R.vbmc()
    if other:
        f = v.function_logger.fun

        def fun(x):
            if len(R.calls) == c["other_at"]:
                state = np.random.get_state()
                other(c)
                np.random.set_state(state)
            return f(x)
        v.function_logger.fun = fun
    vp, res = v.optimize()
    return R, v, vp, res


def disturb(c):
    """Another inference, with other options and another problem."""
    from pyvbmc import VBMC

    k = c["other"]
    D = 3 - len(c["dims"]) if k == "build" else 1
    o = {"display": "off", "max_fun_evals": 12, "max_iter": 2,
         "ns_ent": 10, "ns_ent_fine": 50, "gp_train_n_init": 16,
         "ns_gp_max": 2, "bounded_transform": "student4",
         "ns_search": 32, "tol_gp_var": 1.0, "elcbo_impro_weight": 7,
         "do_final_boost": False, "fun_evals_per_iter": 1,
         "min_iter": 0, "min_fun_evals": 0}
    w = VBMC(lambda x: float(-np.sum(np.asarray(x) ** 2)), None,
             np.full((1, D), -2.0), np.full((1, D), 2.0),
             np.full((1, D), -1.0), np.full((1, D), 1.0), options=o)
    if k == "run":
        w.optimize()
    elif k == "options":
        dict.__setitem__(w.options, "ns_search", 1)
    elif k == "logging":
        import logging
        logging.getLogger("VBMC").setLevel(logging.DEBUG)
        logging.getLogger("VBMC").setLevel(logging.WARNING)


def reproducible(c, t):
    R1, v1, p1, r1 = one(c)
    R2, v2, p2, r2 = one(c, disturb if c["other"] != "none" else None)
    n = min(len(R1.calls), len(R2.calls))
    t.nontrivial(n > v1.options["fun_eval_start"])
    t.label(c["other"])
    for i in range(n):
        t.check(np.array_equal(R1.calls[i], R2.calls[i]), lambda: (
            f"call {i} at {R1.calls[i]} and at {R2.calls[i]} under the same "
            f"seed ({c['other']})"))
    t.check(len(R1.calls) == len(R2.calls), "number of calls")
    for k in r1:
        if k in ("function", "overhead"):
            continue
        t.check(r1[k] == r2[k], f"{k}: {r1[k]} and {r2[k]}")
    for k in ("mu", "sigma", "lambd", "w"):
        t.check(np.array_equal(getattr(p1, k), getattr(p2, k)), k)
    t.check(list(v1.iteration_history["elbo"])
            == list(v2.iteration_history["elbo"]), "history")


# ---------------------------------------------------------------- accuracy
@st.composite
def acc_case(draw):
    c = draw(runcfg.spec(max_d=2, noise=(0, 0, 0, 2), ints=False, opts=0,
                         kinds=("gauss",)))
    c["o"] = draw(st.sampled_from([
        {}, {}, {"bounded_transform": "logit"},
        {"bounded_transform": "student4"}, {"warmup": False},
        {"gp_mean_fun": "const"}, {"search_optimizer": "Nelder-Mead"},
        {"active_sample_vp_update": True}, {"variable_weights": False},
        {"warp_rotoscaling": False}, {"active_sample_gp_update": True},
    ]))
    if not c["noise"]:
        c["o"]["search_acq_fcn"] = draw(st.sampled_from(
            [["AcqFcnLog()"], ["AcqFcn()"], ["AcqFcnLog()"]]))
    c["start"], c["evals"], c["iters"] = 10, 60, 11
    D = len(c["dims"])
    # a Gaussian inside the bounds; its scale 0.1 to 0.35 of the plausible
    c["s"] = draw(st.lists(gen.fl(0.1, 0.35), min_size=D, max_size=D))
    c["c"] = draw(st.lists(gen.fl(-0.3, 0.3), min_size=D, max_size=D))
    for d in c["dims"]:
        if d["k"] == "b":
            w = d["pub"] - d["plb"]
            d["lb"] = min(d["lb"], d["plb"] - w)
            d["ub"] = max(d["ub"], d["pub"] + w)
    c["shift"] = draw(st.sampled_from([0.0, -50.0, 1000.0]))
    c["rho"] = draw(st.sampled_from([0.0, 0.0, 0.6, -0.8]))
    c["given"] = [0] * len(c["given"])
    return c


class Gauss(runcfg.Run):
    def __init__(self, c):
        super().__init__(c)
        s = np.array(c["s"])
        Q = np.eye(self.D)
        if self.D == 2:
            Q[0, 1] = Q[1, 0] = c["rho"]
        self.S = Q * np.outer(s, s)
        self.P = np.linalg.inv(self.S)

    def log_lik(self, x):
        d = self.z(x) - np.array(self.c["c"])
        return float(-0.5 * d @ self.P @ d + self.c["shift"])


def accuracy(c, t):
    R = Gauss(c)
    D = R.D
    if len(np.unique(R.x0, axis=0)) < len(R.x0):
        t.discard()
    # exact posterior in the coordinates of the plausible box
    P, m = R.P, np.array(c["c"])
    h = P @ m
    if c["prior"] != "none":
        P = P + 0.2 * np.eye(D)
    S = np.linalg.inv(P)
    mean = S @ h
    lnz = (c["shift"] - 0.5 * m @ R.P @ m + 0.5 * h @ S @ h
           + 0.5 * np.linalg.slogdet(2 * np.pi * S)[1] + np.sum(np.log(R.w)))
    np.random.seed(c["seed"] % 2**32)
    v = R.vbmc()
    vp, res = v.optimize()
    t.nontrivial()
    for k in c["o"]:
        t.label(k)
    tol = 0.65 if c["noise"] else 0.45
    t.check(abs(res["elbo"] - lnz) < tol, lambda: (
        f"ELBO {res['elbo']} +- {res['elbo_sd']}, exact {lnz}"))
    x, _ = vp.sample(20000)
    z = (x - R.plb) / R.w - 0.5
    sd = np.sqrt(np.diag(S))
    k, m = (1.4, 0.35) if c["noise"] else (1.3, 0.25)
    t.check(np.all(np.abs(z.mean(0) - mean) < m * sd), lambda: (
        f"posterior mean {z.mean(0)}, exact {mean} (sd {sd})"))
    q = z.std(0) / sd
    t.check(np.all(q > 1 / k) and np.all(q < k), lambda: f"posterior sd {z.std(0)}, exact {sd}")
    if D == 2 and not c["noise"]:
        r = np.corrcoef(z.T)[0, 1]
        e = S[0, 1] / sd.prod()
        t.check(abs(r - e) < 0.3, lambda: f"correlation {r}, exact {e}")


PROPS = [
    Prop("consistent", runcfg.spec, consistent, 80, 1500, shrink=False,
         cpu_limit=300),
    Prop("reproducible", rep_case, reproducible, 48, 800, shrink=False,
         cpu_limit=300),
    Prop("accuracy", acc_case, accuracy, 48, 800, shrink=False,
         cpu_limit=400),
]
