"""C29: the surrogate is the conditional of exactly the recorded data."""
import copy
import math

import numpy as np

from pbt import gen, gpref, runcfg, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C29"
TECHNIQUE = (
    "property-based testing against dense linear algebra and rebuilt "
    "surrogates, also from inside complete runs (a recording acquisition "
    "function)"
)
RULE = (
    "Cases: logs with inactive, repeated and noisy points, surrogate options "
    "(mean, numbers of samples, noise, length bounds, stages of the run), "
    "histories of hyperparameter samples; complete runs whose surrogate is "
    "compared with the log at every acquisition. Non-trivial: more than two "
    "active points; for histories, more than one iteration with samples; for "
    "runs, a surrogate that was updated with a new point."
)
ASSUMPTIONS = ["the surrogate library (gpyreg) conditions correctly on the "
               "data it is given; its predictions are compared with dense "
               "linear algebra to within 1e-3 of the spread of the values"]


def hyp_of(v, D, mean):
    """A hyperparameter vector as gpref's dictionary."""
    h = {"ell": np.exp(v[:D]), "sf": np.exp(v[D]), "sn": np.exp(v[D + 1])}
    i = D + 2
    return h, i


def reference(gp, level, s2):
    """Predictor from the hyperparameters alone (D, mean, noise model)."""
    import gpyreg as gpr

    D = gp.D
    H = gp.get_hyperparameters(as_array=True)
    mean = {gpr.mean_functions.ZeroMean: "zero",
            gpr.mean_functions.ConstantMean: "const",
            gpr.mean_functions.NegativeQuadratic: "negquad"}[type(gp.mean)]
    refs = []
    for v in H:
        h = {"ell": np.exp(v[:D]), "sf": np.exp(v[D]), "sn": np.exp(v[D + 1])}
        i = D + 2
        mult = 1.0
        if level == 1:
            mult, i = np.exp(v[i]), i + 1
        if mean != "zero":
            h["m0"] = v[i]
        if mean == "negquad":
            h["xm"] = v[i + 1:i + 1 + D]
            h["omega"] = np.exp(v[i + 1 + D:i + 1 + 2 * D])
        refs.append((h, mult, mean))
    return refs


class Dense:
    def __init__(self, h, mult, mean, X, y, s2):
        self.r = gpref.Ref({"mean": mean}, h, X, y,
                           None if s2 is None else mult * np.ravel(s2))

    def __call__(self, Q):
        return self.r.mean(Q), np.diag(self.r.cov(Q))


def compare(t, gp, level, X, y, s2, Q, what):
    """Predictions at Q are those of the exact conditional on (X, y, s2)."""
    m, v = gp.predict(Q, separate_samples=True, add_noise=False)
    spread = np.ptp(y) + 1.0
    for s, (h, mult, mean) in enumerate(reference(gp, level, s2)):
        d = Dense(h, mult, mean, X, y, s2)
        if not np.isfinite(d.r.cond) or d.r.cond > 1e11:
            t.label("ill-conditioned")
            continue
        a, b = d(Q)
        e = 1e-3 * spread + 1e-13 * d.r.cond * spread
        t.check(np.all(np.abs(m[:, s] - a) < e), lambda: (
            f"{what}: predicted {m[:, s]}, the data imply {a}"))
        e = (1e-3 + 1e-13 * d.r.cond) * (h["sf"] ** 2 + 1)
        t.check(np.all(np.abs(v[:, s] - b) < e), lambda: (
            f"{what}: variance {v[:, s]}, the data imply {b}"))


# --------------------------------------------------------------- training
@st.composite
def train_case(draw):
    D = draw(st.integers(1, 3))
    noise = draw(st.sampled_from([0, 0, 1, 2, 2]))
    n = draw(st.integers(4, 14))
    o = {
        "ns_gp_max": draw(st.sampled_from([80, 6, 12, 1, 0])),
        "ns_gp_max_warmup": draw(st.sampled_from([8, 2, 3])),
        "ns_gp_max_main": draw(st.sampled_from([5, 3, 1])),
        "stable_gp_sampling": draw(st.sampled_from([200, 10, 5])),
        "stable_gp_vp_k": draw(st.sampled_from(["inf", 3, 2])),
        "stable_gp_samples": draw(st.sampled_from([0, 2, 1])),
        "gp_mean_fun": draw(st.sampled_from(["negquad", "negquad", "const"])),
        "tol_gp_noise": draw(st.sampled_from([0.0031622776601683794, 0.1,
                                              1e-5])),
        "upper_gp_length_factor": draw(st.sampled_from([0, 0, 1.0, 0.2])),
        "gp_quadratic_mean_bound": draw(st.booleans()),
        "gp_sample_thin": draw(st.sampled_from([1, 2])),
        "gp_length_prior_mean": draw(st.sampled_from([None, 0.3, 1.0])),
        "gp_length_prior_std": draw(st.sampled_from([None, 0.5])),
        "hyp_run_weight": draw(st.sampled_from([None, 0, 0.7])),
        "noise_size": draw(st.sampled_from([[], [], 0.2, 1e-9])),
        "gp_train_n_init": 32, "gp_train_n_init_final": 16,
    }
    return {
        "D": D, "noise": noise, "n": n, "o": o,
        "warmup": draw(st.booleans()), "vp_K": draw(st.integers(2, 6)),
        "stop": draw(st.sampled_from([0, 0, 0, 7])),
        "recompute": draw(st.booleans()),
        "off": draw(st.lists(st.integers(0, n - 1), max_size=4)),
        "rep": draw(st.lists(st.integers(0, n - 1), max_size=3)),
        "given": draw(st.booleans()),
        "again": draw(st.sampled_from([False, False, True])),
        "seed": draw(gen.SEED),
        "shift": draw(st.sampled_from([0.0, -300.0, 1e4])),
    }


def setup(c, fun=None):
    from pyvbmc import VBMC

    D = c["D"]
    o = runs.fast()
    for k, x in c.get("o", {}).items():
        if x is not None:
            o[k] = np.inf if x == "inf" else x
    if c["noise"] == 1:
        o["uncertainty_handling"] = True
    elif c["noise"] == 2:
        o["specify_target_noise"] = True
    r = np.random.RandomState(c["seed"] % 2**31)
    lb, ub = np.full((1, D), -4.0), np.full((1, D), 4.0)
    lb[0, 0], ub[0, 0] = -np.inf, np.inf

    def f(x):
        z = np.ravel(x)
        y = (-0.5 * np.sum(z**2) + 0.3 * np.sin(3 * z[0])
             + c.get("shift", 0.0))
        if c["noise"]:
            y += 0.3 * r.randn()
        return (y, 0.2 + 0.1 * abs(z[0])) if c["noise"] == 2 else y

    v = VBMC(fun or f, None, lb, ub, np.full((1, D), -1.5),
             np.full((1, D), 1.5), options=o)
    F = v.function_logger
    U = r.uniform(-1.2, 1.2, (c["n"], D))
    for u in U:
        F(u)
    for i in c["rep"]:
        F(U[i])
    for i in c["off"]:
        if F.X_flag.sum() > 3:
            F.X_flag[i] = False
    v.optim_state["N"] = F.Xn + 1
    v.optim_state["n_eff"] = np.sum(F.n_evals[F.X_flag])
    return v, F, U


def record(F, noise):
    """The active rows, in order, recomputed from the raw storage."""
    a = np.flatnonzero(F.X_flag[: F.Xn + 1])
    X = np.array([F.X[i] for i in a])
    y = np.array([[F.y[i, 0]] for i in a])
    s2 = np.array([[F.S[i, 0] ** 2] for i in a]) if noise else None
    return X, y, s2


def data_is(t, gp, X, y, s2, what):
    t.check(gp.X.shape == X.shape and np.array_equal(gp.X, X),
            f"{what}: inputs are not the active points")
    t.check(gp.y.shape == y.shape and np.array_equal(gp.y, y),
            f"{what}: values are not the recorded ones")
    if s2 is None:
        t.check(gp.s2 is None or np.size(gp.s2) == 0, f"{what}: noise given")
    else:
        t.check(gp.s2 is not None and gp.s2.shape == s2.shape, f"{what}: "
                "noise missing")
        t.close(gp.s2, s2, f"{what}: noise variances", rtol=1e-12)


def n_samples(c, o, st_):
    if st_["stop_sampling"] == 0:
        n = o["ns_gp_max"] / math.sqrt(st_["N"])
        n = min(n, o["ns_gp_max_warmup"] if st_["warmup"]
                else o["ns_gp_max_main"])
        if (st_["N"] >= o["stable_gp_sampling"]
                or st_["vp_K"] >= o["stable_gp_vp_k"]):
            n = o["stable_gp_samples"]
    else:
        n = o["stable_gp_samples"]
    return n


def hyperpriors(t, gp, o, S, noise):
    """The documented hyperpriors, as the surrogate has them."""
    P = gp.get_priors()
    kind, par = P["covariance_log_lengthscale"]
    w = (S["pub_tran"] - S["plb_tran"]).ravel()
    t.check(kind == "student_t", f"prior of the length scales: {kind}")
    t.close(np.ravel(par[0]) + 0 * w, np.log(o["gp_length_prior_mean"] * w),
            "prior of the length scales (centre)")
    t.close(np.ravel(par[1]) + 0 * w, o["gp_length_prior_std"] + 0 * w,
            "prior of the length scales (width)")
    size = o["tol_gp_noise"]
    given = o["noise_size"] != []
    if given and noise == 0:
        size = max(size, o["noise_size"])
    t.close(float(np.ravel(P["noise_log_scale"][1][0])[0]), math.log(size),
            "prior of the noise (centre)")
    if noise == 1:
        m = max(o["tol_gp_noise"], o["noise_size"]) if given else 1
        q = P["noise_provided_log_multiplier"][1][0]
        t.close(float(np.ravel(q)[0]), math.log(m),
                "prior of the noise multiplier (centre)", atol=1e-12)


def train(c, t):
    from pyvbmc.vbmc.gaussian_process_train import train_gp

    v, F, _ = setup(c)
    o, S, D = v.options, v.optim_state, c["D"]
    S["warmup"], S["vp_K"], S["stop_sampling"] = (
        c["warmup"], c["vp_K"], c["stop"])
    S["recompute_var_post"] = c["recompute"]
    X, y, s2 = record(F, c["noise"])
    t.nontrivial(len(X) > 2)
    before = copy.deepcopy(F)
    state = {k: copy.deepcopy(S[k]) for k in
             ("N", "stop_sampling", "plb_tran", "pub_tran", "gp_noise_fun")}
    hd, old = {}, None
    np.random.seed(c["seed"] % 2**32)
    if c["again"]:
        # once before: its running covariance is averaged in
        _, _, _, hd = train_gp(hd, S, F, v.iteration_history, o,
                               S["plb_tran"], S["pub_tran"])
        old = copy.deepcopy(hd["run_cov"])
    gp, ns, sn2, hd2 = train_gp(hd, S, F, v.iteration_history, o,
                                S["plb_tran"], S["pub_tran"])
    full = hd2["full"]
    if ns == 0 or full is None or len(full) < 2:
        # (samples of an earlier training may still be there)
        t.check(ns == 0 or hd2["run_cov"] is None, "covariance of one sample")
    else:
        want = np.cov(full.T)
        if old is not None and o["hyp_run_weight"] != 0:
            w = o["hyp_run_weight"] ** o["fun_evals_per_iter"]
            want = (1 - w) * want + w * old
            t.label("running covariance")
        t.close(hd2["run_cov"], want, "running covariance", rtol=1e-9,
                atol=1e-12)
    t.check(np.array_equal(F.X, before.X, equal_nan=True)
            and np.array_equal(F.y, before.y, equal_nan=True)
            and np.array_equal(F.X_flag, before.X_flag), "the log changed")
    for k in state:
        t.check(np.array_equal(S[k], state[k]), f"{k} changed")
    data_is(t, gp, X, y, s2, "training data")
    # number of samples
    n = n_samples(c, o, S)
    if abs(n % 1 - 0.5) > 1e-9:
        t.check(ns == round(n), f"{ns} samples reported, configured {n}")
        t.check(len(gp.posteriors) == max(1, round(n)),
                f"{len(gp.posteriors)} samples, configured {n}")
    H = gp.get_hyperparameters(as_array=True)
    t.label("samples", len(H) > 1)
    t.check(np.all(np.isfinite(H)), "hyperparameters")
    t.check(np.shape(hd2["hyp"]) == H.shape and np.array_equal(
        hd2["hyp"], H), "hyperparameters handed on")
    # bounds
    e = 1e-9
    t.check(np.all(H >= gp.lower_bounds - e)
            and np.all(H <= gp.upper_bounds + e), lambda: (
            f"hyperparameters {H} outside [{gp.lower_bounds}, "
            f"{gp.upper_bounds}]"))
    t.close(float(np.ravel(gp.get_bounds()["noise_log_scale"][0])[0]),
            math.log(o["tol_gp_noise"]), "least noise allowed")
    t.check(np.all(H[:, D + 1] >= np.log(o["tol_gp_noise"]) - e),
            f"noise {np.exp(H[:, D + 1])} below {o['tol_gp_noise']}")
    f = o["upper_gp_length_factor"]
    if f > 0:
        w = (S["pub_tran"] - S["plb_tran"]).ravel()
        t.check(np.all(H[:, :D] <= np.log(f * w) + e), lambda: (
            f"length scales {np.exp(H[:, :D])}, at most {f * w}"))
    order = np.argsort(-y.ravel(), kind="stable")
    k = max(1, round(o["hpd_frac"] * len(y)))
    hy = [np.sort(y.ravel())[::-1][: q] for q in (k - 1, k, k + 1) if q > 0]
    i0 = D + 2 + (c["noise"] == 1)
    if o["gp_mean_fun"] == "const":
        t.check(np.all(H[:, i0] <= max(q.min() for q in hy) + e),
                "constant mean above the low end of the top values")
    elif o["gp_quadratic_mean_bound"]:
        top = max(q.max() + max(o["tol_sd"], min(D, np.ptp(q))) for q in hy)
        t.check(np.all(H[:, i0] <= top + e), lambda: (
            f"mean's maximum {H[:, i0]} above {top}"))
        ub = gp.get_bounds()["mean_const"][1]
        t.check(any(abs(ub - (q.max() + max(o["tol_sd"], min(D, np.ptp(q)))))
                    < 1e-9 * (1 + abs(ub)) for q in hy), lambda: (
            f"the mean's maximum is bounded by {ub}"))
    hyperpriors(t, gp, o, S, c["noise"])
    # it conditions on the data
    Q = np.random.RandomState(3).uniform(-1.5, 1.5, (8, D))
    compare(t, gp, c["noise"], X, y, s2, Q, "trained")
    # noise at the top of the record
    k = math.ceil(0.2 * len(y))
    if len(set(y.ravel())) == len(y):
        tot = []
        for i in order[:k]:
            z = 0.0
            for h, mult, _ in reference(gp, c["noise"], s2):
                z += h["sn"] ** 2 + (mult * s2[i, 0] if c["noise"] else 0)
            tot.append(z / len(H))
        t.close(sn2, np.median(tot), "noise at the top", rtol=1e-8)
    # quick update after the record changed
    if c["off"]:
        on = np.flatnonzero(F.X_flag)
        if len(on) > 3:
            F.X_flag[on[c["off"][0] % len(on)]] = False
    F(np.full(D, 0.123))
    from pyvbmc.vbmc.gaussian_process_train import reupdate_gp

    X, y, s2 = record(F, c["noise"])
    g2 = reupdate_gp(F, gp)
    data_is(t, g2, X, y, s2, "updated data")
    t.check(np.array_equal(g2.get_hyperparameters(as_array=True), H),
            "hyperparameters changed in a quick update")
    compare(t, g2, c["noise"], X, y, s2, Q, "updated")


# ------------------------------------------------ covariance of the samples
@st.composite
def cov_case(draw):
    it = draw(st.integers(0, 8))
    P = draw(st.integers(1, 4))
    return {
        "iter": it, "P": P,
        "n": [draw(st.sampled_from([None, 1, 2, 3, 6])) for _ in range(it)],
        "skl": [draw(gen.fl(1e-3, 3)) for _ in range(it)],
        "old": draw(st.sampled_from([0, 0, 0, 2])),
        "w": draw(st.sampled_from([0.9, 0.95, 0.5])),
        "tol": draw(st.sampled_from([0, 0.1])),
        "batch": draw(st.sampled_from([1, 5])),
        "weighted": draw(st.sampled_from([True, True, True, False])),
        "seed": draw(gen.SEED),
    }


def hyp_cov(c, t):
    from pyvbmc import VBMC
    from pyvbmc.vbmc.gaussian_process_train import _get_hyp_cov

    r = np.random.RandomState(c["seed"] % 2**31)
    v = VBMC(lambda x: 0.0, np.zeros((1, 1)), plausible_lower_bounds=-np.ones(
        (1, 1)), plausible_upper_bounds=np.ones((1, 1)), options=runs.fast(
        hyp_run_weight=c["w"], tol_cov_weight=c["tol"],
        fun_evals_per_iter=c["batch"], weighted_hyp_cov=c["weighted"]))
    it = c["iter"]
    H = [None if n is None else r.randn(n, c["P"] + (1 if i < c["old"]
                                                     else 0)) * 2 + r.randn()
         for i, n in enumerate(c["n"])]
    for i in range(it):
        v.iteration_history.record_iteration(
            {"sKL": c["skl"][i], "gp_hyp_full": H[i]}, i)
    v.optim_state["iter"] = it
    run_cov = np.eye(c["P"]) * 3
    got = _get_hyp_cov(v.optim_state, v.iteration_history, v.options,
                       {"run_cov": run_cov})
    if it == 0:
        t.check(got is None, "covariance without a history")
        return
    if not c["weighted"]:
        t.check(np.array_equal(got, run_cov), "not the running covariance")
        return
    rows, ws, w, P = [], [], 1.0, None
    for b in range(it):
        if b > 0:
            d = max(1, math.log(c["skl"][it - b] / v.options["tol_skl"]
                                * c["batch"]))
            w *= c["w"] ** (c["batch"] * d)
        if w < c["tol"]:
            break
        h = H[it - 1 - b]
        if h is None:
            continue
        P = h.shape[1] if P is None else P
        if h.shape[1] == P:
            rows += list(h)
            ws += [w / len(h)] * len(h)
    t.nontrivial(it > 1 and len(rows) > 2)
    if len(rows) < 2:
        t.check(got is None, "covariance of one sample")
        return
    ws = np.array(ws) / np.sum(ws)
    rows = np.array(rows)
    # 1 - sum(w^2) and the deviations, without cancellation
    mu = ws @ rows
    top = int(np.argmax(ws))
    rest = np.delete(ws, top).sum()
    free = np.sum(np.delete(ws * (1 - ws), top)) + ws[top] * rest
    want = (rows - mu).T @ ((rows - mu) * ws[:, None]) / free
    if free < 1e-11:  # practically one sample: nothing to estimate
        t.discard()
    t.close(got, want, "weighted covariance", rtol=1e-6 + 1e-14 / free,
            atol=1e-9 + 1e-14 / free)


# ------------------------------------------------- sampler's configuration
@st.composite
def opt_case(draw):
    return {
        "start": draw(st.sampled_from([10, 5])),
        "evals": draw(st.sampled_from([100, 50, 2000])),
        "a": draw(st.sampled_from([1024, 100, 20])),
        "b": draw(st.sampled_from([64, 10, 4])),
        "n": draw(st.lists(st.integers(5, 120), min_size=2, max_size=4)),
        "ns": draw(st.integers(0, 8)), "thin": draw(st.integers(1, 5)),
        "recompute": draw(st.booleans()),
        "iter": draw(st.integers(0, 3)), "r": draw(gen.fl(0.01, 5)),
        "widths": draw(st.sampled_from([None, 0.0, 0.1, 20.0])),
        "shrink": draw(st.sampled_from([1.0, 1.0, 1e-5])),
        "weighted": draw(st.sampled_from([True, True, False])),
        "run": draw(st.booleans()),
    }


def sampler(c, t):
    from pyvbmc import VBMC
    from pyvbmc.vbmc.gaussian_process_train import _get_gp_training_options

    v = VBMC(lambda x: 0.0, np.zeros((1, 1)), plausible_lower_bounds=-np.ones(
        (1, 1)), plausible_upper_bounds=np.ones((1, 1)), options=runs.fast(
        fun_eval_start=c["start"], max_fun_evals=c["evals"],
        gp_train_n_init=c["a"], gp_train_n_init_final=c["b"],
        gp_sample_thin=c["thin"], weighted_hyp_cov=c["weighted"],
        **({} if c["widths"] is None
           else {"gp_sample_widths": c["widths"]})))
    S, H = v.optim_state, v.iteration_history
    S["iter"], S["recompute_var_post"] = c["iter"], c["recompute"]
    for i in range(c["iter"]):
        H.record_iteration({"r_index": c["r"], "sKL": 1.0,
                            "gp_hyp_full": c["shrink"]
                            * np.random.RandomState(i).randn(4, 3)}, i)
    rc = np.diag([4.0, 1e-8, 0.09]) if c["run"] else None
    cov = rc
    if c["iter"] == 0:
        cov = None
    elif c["weighted"]:
        from pyvbmc.vbmc.gaussian_process_train import _get_hyp_cov

        cov = _get_hyp_cov(S, H, v.options, {"run_cov": rc})
    wm = v.options["gp_sample_widths"]
    hi, lo = max(c["a"], 9), max(min(c["a"], c["b"]), 9)
    last = None
    top = min(c["evals"], 1000)
    for n in [c["start"]] + sorted(c["n"]) + [top]:
        S["n_eff"] = n
        o = _get_gp_training_options(S, H, v.options, {"run_cov": rc},
                                     c["ns"])
        if cov is None or wm <= 0:
            t.check(o["widths"] is None, f"widths {o['widths']}")
        else:
            t.label("widths")
            t.close(o["widths"],
                    np.maximum(np.sqrt(np.diag(cov)), 1e-3)
                    * max(wm, c["r"]), "widths of the sampler")
        t.check(o["n_samples"] == c["ns"] and o["thin"] == c["thin"],
                "number of samples")
        t.check(o["burn"] >= 0 and o["burn"] == int(o["burn"]), "burn-in")
        quick = (not c["recompute"] and c["iter"] > 1
                 and c["r"] < v.options["gp_retrain_threshold"])
        if c["recompute"]:
            t.check(o["burn"] == c["thin"] * c["ns"], "burn-in")
        if quick:
            t.check(o["init_N"] == 0, "no new starting points")
            t.check(o["opts_N"] == (0 if c["ns"] > 0 else 1), "no restarts")
            continue
        t.nontrivial()
        t.check(o["opts_N"] == (1 if c["ns"] > 0 else 2), "restarts")
        if n == c["start"]:
            t.check(o["init_N"] == hi, f"{o['init_N']} points at first")
        if n == top and c["a"] >= c["b"]:
            t.check(o["init_N"] == lo, f"{o['init_N']} points at the end")
        if c["a"] >= c["b"] and c["start"] <= n <= top:
            t.check(lo <= o["init_N"] <= hi, "out of range")
            t.check(last is None or o["init_N"] <= last, "not decreasing")
            last = o["init_N"]


# ------------------------------------------------------- from inside a run
@st.composite
def run_case(draw):
    c = draw(runcfg.spec(max_d=2, opts=3, kinds=("gauss", "banana", "edge")))
    c["o"]["search_acq_fcn"] = draw(st.sampled_from(
        runcfg.NOISY if c["noise"] else runcfg.CLEAN))
    c["o"].update(draw(st.sampled_from(
        [{}, {}, {"active_sample_gp_update": True},
         {"active_sample_vp_update": True}, {"separate_search_gp": True},
         {"warmup": False}, {"fun_evals_per_iter": 2}])))
    c["evals"], c["iters"] = 41, 7
    return c


def in_run(c, t):
    from pyvbmc.acquisition_functions.utilities import string_to_acq

    R = runcfg.Run(c)
    if len(np.unique(R.x0, axis=0)) < len(R.x0):
        t.discard()
    base = type(string_to_acq(c["o"]["search_acq_fcn"]))
    box = {"sizes": [], "key": None}

    class Spy(base):
        def __call__(self, Xs, gp, vp, F, S):
            key = (id(gp), F.func_count, gp.X.shape)
            if key != box["key"]:
                box["key"] = key
                box["sizes"].append(F.func_count)
                X, y, s2 = record(F, c["noise"])
                what = f"after {F.func_count} calls"
                data_is(t, gp, X, y, s2, what)
                lo, hi = X.min(0), X.max(0)
                Q = lo + (hi - lo) * np.random.RandomState(
                    F.func_count).uniform(-0.1, 1.1, (6, len(lo)))
                compare(t, gp, c["noise"], X, y, s2, Q, what)
                t.check(F.parameter_transformer == vp.parameter_transformer,
                        "log and posterior in different spaces")
                if "active_importance_sampling" in S and self.acq_info.get(
                        "importance_sampling"):
                    importance(t, gp, S["active_importance_sampling"])
            return super().__call__(Xs, gp, vp, F, S)

    np.random.seed(c["seed"] % 2**32)
    v = R.vbmc({"search_acq_fcn": [
        Spy(0.8) if c["o"]["search_acq_fcn"].endswith("(0.9)") else Spy()]})
    v.optimize()
    t.nontrivial(len(box["sizes"]) > 1)
    t.label("surrogates seen", len(box["sizes"]))
    t.label("noise", c["noise"] > 0)
    for i, gp in enumerate(v.iteration_history["gp"]):
        F = v.iteration_history["function_logger"][i]
        T = v.iteration_history["vp"][i].parameter_transformer
        t.check(F.parameter_transformer == T, "spaces")
        X, y, s2 = record(F, c["noise"])
        if len(gp.X) > len(X) and i and v.iteration_history["warmup"][i - 1]:
            # trimmed at the end of the iteration, after its inference:
            # before that, the active points were those of the surrogate
            G = copy.deepcopy(F)
            n = F.Xn + 1
            G.X_flag[:n] = [(q == gp.X).all(1).any() for q in F.X[:n]]
            t.check(np.all(G.X_flag >= F.X_flag), "trimming adds points")
            t.label("trimmed")
            X, y, s2 = record(G, c["noise"])
        data_is(t, gp, X, y, s2, f"recorded surrogate {i}")
        lo, hi = X.min(0), X.max(0)
        Q = lo + (hi - lo) * np.random.RandomState(i).uniform(
            -0.1, 1.1, (6, len(lo)))
        compare(t, gp, c["noise"], X, y, s2, Q, f"recorded surrogate {i}")


def importance(t, gp, A):
    """Cached quantities are those of the current surrogate."""
    X = A["X"]
    for s in range(len(gp.posteriors)):
        Xa = X[s] if X.ndim == 3 else X
        D = gp.D
        h = gp.posteriors[s].hyp
        d = (Xa[:, None, :] - gp.X[None]) / np.exp(h[:D])
        K = np.exp(2 * h[D] - 0.5 * np.sum(d**2, 2))
        t.close(A["K_Xa_X"][s], K, "cached kernel", rtol=1e-7, atol=1e-10)


PROPS = [
    Prop("train", train_case, train, 240, 6000),
    Prop("hyp_cov", cov_case, hyp_cov, 1000, 20000),
    Prop("sampler", opt_case, sampler, 400, 5000),
    Prop("in_run", run_case, in_run, 64, 1500, shrink=False, cpu_limit=300),
]
