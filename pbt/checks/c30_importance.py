"""C30: importance-sampling sets of the integrated acquisition functions."""
import warnings

import numpy as np
from scipy.special import logsumexp
from scipy.stats import norm

from pbt import gen, gpref, runcfg
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C30"
TECHNIQUE = (
    "property-based testing against a dense reference surrogate, an "
    "independent proposal density and numerical integration; complete noisy "
    "runs with a recording acquisition function"
)
RULE = (
    "Cases: surrogates (means, several hyperparameter samples, training-noise "
    "kinds), posteriors, sample sizes and seeds; noisy runs. Non-trivial: at "
    "least two training points and two importance points; for integrals, a "
    "weighted sum with at least 30 effective points; for runs, a set prepared "
    "for a surrogate updated after an evaluation."
)
ASSUMPTIONS = [
    "the proposal is the documented one (posterior smoothed with scales 0.05, "
    "0.2 and 1, mixed with boxes of two standard deviations around the "
    "training inputs)",
    "distributional comparisons reject at z > 7 or p < 1e-11",
]
SCALES = (0.0, 0.05, 0.2, 1.0)


class Opts(dict):
    def eval(self, key, extra):
        x = self[key]
        return x(**extra) if callable(x) else x


def opts(vp, box, mcmc, thin=1, fess=0.9):
    return Opts(
        active_importance_sampling_vp_samples=vp,
        active_importance_sampling_box_samples=box,
        active_importance_sampling_mcmc_samples=mcmc,
        active_importance_sampling_mcmc_thin=thin,
        active_importance_sampling_fess_thresh=fess,
    )


@st.composite
def case(draw, max_d=3, means=("zero", "const", "negquad"), max_k=4):
    v = draw(gen.vp_spec(max_d, max_k, tr=False))
    g = draw(gpref.gp_spec(v["D"], means=means))
    g["N"] = max(g["N"], 3)
    return {
        "vp": v, "gp": g,
        "q": draw(st.sampled_from([0.75, 0.9, 0.55])),
        "n": draw(st.sampled_from(
            [[20, 30], [40, 0], [0, 40], [3, 5], [1, 1], [64, 16]])),
        "mcmc": draw(st.sampled_from([5, 12, 1, 20])),
        "thin": draw(st.sampled_from([1, 2])),
        "shift": draw(st.sampled_from([0, 0, -400.0, 3000.0])),
        "seed": draw(gen.SEED),
    }


def build(c):
    vp = gen.build_vp(c["vp"])
    g = dict(c["gp"])
    gp = gpref.build(g)
    X, y, s2 = gpref.data(g)
    hyps = [dict(h) for h in g["hyps"]]
    if c.get("shift") and g["mean"] != "zero":
        y = y + c["shift"]
        H = gp.get_hyperparameters(as_array=True)
        H[:, g["D"] + 2] += c["shift"]
        for h in hyps:
            h["m0"] = h["m0"] + c["shift"]
        gp.y = y.reshape(-1, 1)
        gp.update(hyp=H)
    refs = [gpref.Ref(g, h, X, y, s2) for h in hyps]
    return vp, gp, refs


def log_q(vp, gp, n, X):
    """The documented proposal density, per row of X."""
    w = n[0] / (n[0] + n[1])
    parts = []
    if w > 0:
        for a in SCALES:
            parts.append(np.log(w / len(SCALES)) + gpref.log_mixture(
                vp.mu, np.sqrt(vp.sigma.ravel() ** 2 + a**2),
                vp.lambd.ravel(), vp.w.ravel(), X))
    if w < 1:
        d = 2 * np.std(gp.X, axis=0, ddof=1)
        inside = [(np.abs(X - x) < d).all(1) for x in gp.X]
        with np.errstate(divide="ignore"):
            parts.append(np.log(np.mean(inside, axis=0) * (1 - w)
                                / np.prod(2 * d)))
    return logsumexp(parts, axis=0)


def state(vp):
    return np.concatenate([np.ravel(x) for x in
                           (vp.mu, vp.sigma, vp.lambd, vp.w)])


def prepare(c, name, o):
    import pyvbmc.acquisition_functions as A
    from pyvbmc.vbmc.active_importance_sampling import (
        active_importance_sampling as ais,
    )

    vp, gp, refs = build(c)
    if max(r.cond for r in refs) > 1e9:
        return None
    acq = getattr(A, name)(c["q"])
    before = state(vp), vp.K, gp.X.copy(), gp.y.copy()
    np.random.seed(c["seed"] % 2**32)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        S = ais(vp, gp, acq, o)
    return vp, gp, refs, acq, S, before


def sizes(refs):
    sf2 = max(r.h["sf"] for r in refs) ** 2
    cond = max(r.cond for r in refs)
    top = max(np.max(np.abs(r.y - r.m(r.X))) for r in refs)
    return (1e-13 * cond * sf2 + 1e-12, 1e-13 * cond * (top + 1) + 1e-9)


def general(t, vp, gp, refs, S, before):
    """What every set satisfies."""
    for a, b, what in zip(before, (state(vp), vp.K, gp.X, gp.y),
                          ("posterior", "components", "inputs", "values")):
        t.check(np.array_equal(a, b), f"{what} changed")
    X, W, V = S["X"], S["ln_weights"], S["f_s2"]
    t.check(np.all(np.isfinite(X)), "points")
    t.check(np.all(np.isfinite(W)), "weights are not finite")
    t.check(abs(logsumexp(W)) < 1e-8, f"log total weight {logsumexp(W)}")
    n = X.shape[-2]
    t.nontrivial(n > 1 and len(gp.X) > 1)
    t.check(X.shape[-1] == gp.D and W.shape == (len(refs), n)
            and V.shape == (n, len(refs)), "shapes")
    ev, _ = sizes(refs)
    Z = gp.X[:2] + 0.3
    for s, r in enumerate(refs):
        Xa = X[s] if X.ndim == 3 else X
        t.close(V[:, s], r.var(Xa), "variance at the points", rtol=1e-6,
                atol=10 * ev)
        t.close(S["K_Xa_X"][s], r.k(Xa, gp.X), "kernel at the points",
                rtol=1e-8, atol=1e-12)
        sign = -1 if gp.posteriors[s].L_chol else 1
        C = r.k(Z, Xa) + sign * r.k(Z, gp.X) @ S["C_tmp"][s]
        t.close(C, r.cov(Z, Xa), "covariance with the points", rtol=1e-6,
                atol=10 * ev)


# ------------------------------------------- importance sampling-resampling
def isr(c, t):
    n = c["n"]
    p = prepare(c, "AcqFcnIMIQR", opts(n[0], n[1], 0))
    if p is None:
        t.discard()
    vp, gp, refs, acq, S, before = p
    general(t, vp, gp, refs, S, before)
    X, W = S["X"], S["ln_weights"]
    t.check(X.shape == (n[0] + n[1], gp.D), f"{X.shape} points")
    t.label("samples", len(refs) > 1)
    d = 2 * np.std(gp.X, axis=0, ddof=1)
    near = np.abs(np.abs(X[:, None] - gp.X[None]) - d).min((1, 2)) < 1e-9
    want = np.array([r.mean(X) for r in refs]) - log_q(vp, gp, n, X)
    want -= logsumexp(want)
    _, em = sizes(refs)
    err = np.abs(W - want)[:, ~near]
    t.check(np.all(err < em * 3 + 1e-7 * np.abs(want[:, ~near])), lambda: (
        f"log weights {W}, target over proposal {want}"))


# ------------------------------------------------- distribution of the set
@st.composite
def dist_case(draw):
    c = draw(case(max_d=2))
    c["shift"], c["n"] = 0, draw(st.sampled_from(
        [[3000, 3000], [6000, 0], [0, 6000], [4500, 1500]]))
    return c


def spread(c, t):
    """The set integrates functions as the proposal density says."""
    n = c["n"]
    p = prepare(c, "AcqFcnIMIQR", opts(n[0], n[1], 0))
    if p is None:
        t.discard()
    vp, gp, refs, acq, S, _ = p
    X, W, D = S["X"], S["ln_weights"], gp.D
    r = np.random.RandomState(7)
    lq = log_q(vp, gp, n, X)
    d = 2 * np.std(gp.X, axis=0, ddof=1)
    for _ in range(4):
        # a bump with a bounded ratio to the proposal
        k = r.randint(vp.K)
        if n[1] == 0:
            m, h = vp.mu[:, k], np.full(D, 0.3) * vp.lambd.ravel()
        else:
            m, h = gp.X[r.randint(len(gp.X))], d / 4
        b = np.maximum(1 - np.sum(((X - m) / h) ** 2, 1), 0)
        norm_ = np.prod(h) * (4 / 3 if D == 1 else np.pi / 2)
        x = b / np.exp(lq) / norm_
        eff = (b > 0).sum()
        if eff < 30:
            continue
        t.nontrivial()
        z = (x.mean() - 1) / (x.std(ddof=1) / np.sqrt(len(x)))
        t.check(abs(z) < 7, f"integral {x.mean()}, z = {z}")
        # and with the weights handed on, relative to another target
        if D == 1:
            q = np.linspace(m[0] - h[0], m[0] + h[0], 801)[:, None]
            g = np.maximum(1 - ((q[:, 0] - m[0]) / h[0]) ** 2, 0)
            T = [np.trapezoid(g * np.exp(a.mean(q)), q[:, 0]) for a in refs]
            for s in range(len(refs)):
                u = b * np.exp(W[s] - W[s].max())
                v = b * np.exp(W[0] - W[s].max())
                R = T[s] / T[0]
                e = u - R * v
                if s and e.std() > 0:
                    z = e.mean() / (e.std(ddof=1) / np.sqrt(len(e)))
                    t.check(abs(z) < 7, f"ratio of integrals, z = {z}")


# ------------------------------------------------------ variational (VIQR)
def viqr(c, t):
    D, K = c["vp"]["D"], c["vp"]["K"]
    m = c["mcmc"]
    o = opts(1, 1, m if c["thin"] == 1 else (
        lambda K, n_vars, D: m + K + 2 * D - 0.5))
    p = prepare(c, "AcqFcnVIQR", o)
    if p is None:
        t.discard()
    vp, gp, refs, acq, S, before = p
    general(t, vp, gp, refs, S, before)
    n = m if c["thin"] == 1 else m + K + 2 * D
    t.check(S["X"].shape == (n, D), f"{S['X'].shape}, configured {n}")
    t.close(S["ln_weights"], np.full((len(refs), n),
                                     -np.log(n * len(refs))), "equal weights")


def viqr_spread(c, t):
    p = prepare(c, "AcqFcnVIQR", opts(1, 1, 4000))
    if p is None:
        t.discard()
    vp, gp, refs, acq, S, _ = p
    t.nontrivial()
    X, N = S["X"], 4000
    for d in range(gp.D):
        u = np.sort(sum(
            w * norm.cdf(X[:, d], vp.mu[d, k],
                         vp.sigma[0, k] * vp.lambd[d, 0])
            for k, w in enumerate(vp.w.ravel())))
        ks = np.max(np.abs(u - (np.arange(N) + 0.5) / N))
        t.check(ks < np.sqrt(np.log(2 / 1e-12) / (2 * N)) + 0.5 / N,
                f"points not from the posterior: {ks}")
    # integrals against the posterior
    r = np.random.RandomState(1)
    a, b = r.randn(gp.D), r.rand()
    f = np.sin(X @ a + b)
    v = 0.0
    for k, w in enumerate(vp.w.ravel()):
        s = (vp.sigma[0, k] * vp.lambd.ravel() * a)
        v += w * np.sin(vp.mu[:, k] @ a + b) * np.exp(-0.5 * np.sum(s**2))
    z = (f.mean() - v) / (f.std(ddof=1) / np.sqrt(N) + 1e-12)
    t.check(abs(z) < 7, f"integral {f.mean()}, expected {v}")


# -------------------------------------------------------------- with MCMC
def mcmc(c, t):
    import gpyreg as gpr

    seen = []
    base = gpr.slice_sample.SliceSampler

    class Sampler(base):
        def __init__(self, log_f, x0, *a, **k):
            calls = []

            def log(x):
                y = log_f(x)
                calls.append((np.ravel(x).copy(), float(np.ravel(y)[0])))
                return y

            seen.append((calls, np.copy(x0)))
            super().__init__(log, x0, *a, **k)

    gpr.slice_sample.SliceSampler = Sampler
    try:
        n = c["n"]
        p = prepare(c, "AcqFcnIMIQR", opts(n[0], n[1], c["mcmc"], c["thin"]))
    finally:
        gpr.slice_sample.SliceSampler = base
    if p is None:
        t.discard()
    vp, gp, refs, acq, S, before = p
    general(t, vp, gp, refs, S, before)
    X, W = S["X"], S["ln_weights"]
    t.check(X.shape == (len(refs), c["mcmc"], gp.D), f"{X.shape} points")
    lo, hi = gp.X.min(0), gp.X.max(0)
    e = 0.5 * (hi - lo) + 1e-9
    t.check(np.all(X >= lo - e) and np.all(X <= hi + e), "outside the region")
    _, em = sizes(refs)
    u = norm.ppf(c["q"])
    want, ok = [], []
    for s, r in enumerate(refs):
        sn2 = r.h["sn"] ** 2
        fs = np.sqrt(r.var(X[s]) + sn2)  # the chain's density includes noise
        want.append(-(u * fs + np.log1p(-np.exp(-2 * u * fs))))
    want = np.array(want)
    want -= logsumexp(want)
    ev, _ = sizes(refs)
    rel = ev / min(r.h["sn"] for r in refs) ** 2
    t.check(np.all(np.abs(W - want) < 20 * rel + 3 * em + 1e-6), lambda: (
        f"log weights {W}, target over chain's density {want}"))
    if len(seen) == len(refs):
        for s, (calls, x0) in enumerate(seen):
            t.check(np.all(x0 >= lo - e) and np.all(x0 <= hi + e), "start")
            Z = np.array([x for x, _ in calls])
            for x in X[s]:
                t.check((Z == x).all(1).any(), "not a point of the chain")
            ok = np.isfinite([y for _, y in calls])
            Z, lp = Z[ok], np.array([y for _, y in calls])[ok]
            r = refs[s]
            fs = np.sqrt(r.var(Z) + r.h["sn"] ** 2)
            d = lp - (r.mean(Z) + u * fs + np.log1p(-np.exp(-2 * u * fs)))
            t.check(np.ptp(d) < 20 * rel + 3 * em + 1e-6,
                    f"density of chain {s} is another surrogate's")


def weigh(c, t):
    """The start of a chain is drawn with the resampling weights."""
    import gpyreg as gpr

    box = {}

    class Sampler(gpr.slice_sample.SliceSampler):
        def __init__(self, log_f, x0, *a, **k):
            box.setdefault("x0", []).append(np.copy(x0))
            super().__init__(log_f, x0, *a, **k)

    base = gpr.slice_sample.SliceSampler
    gpr.slice_sample.SliceSampler = Sampler
    n = [3, 3]
    u = norm.ppf(c["q"])
    z, var = 0.0, 0.0
    try:
        for i in range(40):
            box.clear()
            c2 = dict(c, seed=c["seed"] + i)
            p = prepare(c2, "AcqFcnIMIQR", opts(n[0], n[1], 1))
            if p is None:
                t.discard()
            q = prepare(c2, "AcqFcnIMIQR", opts(n[0], n[1], 0))
            vp, gp, refs, acq, S, _ = q
            x0 = box["x0"][0]
            d = np.abs(S["X"] - x0).max(1)
            lo, hi = gp.X.min(0), gp.X.max(0)
            e = 0.5 * (hi - lo)
            Xc = np.clip(S["X"], lo - e, hi + e)
            d = np.abs(Xc - x0).max(1)
            j = int(np.argmin(d))
            t.check(d[j] < 1e-9, "start is not one of the candidates")
            if (d < 1e-9).sum() > 1:
                continue
            fs = np.sqrt(refs[0].var(S["X"]))
            lw = S["ln_weights"][0] + u * fs + np.log1p(-np.exp(-2 * u * fs))
            w = np.exp(lw - logsumexp(lw))
            a = np.log(np.maximum(w, 1e-12))
            m = w @ a
            z += a[j] - m
            var += w @ (a - m) ** 2
    finally:
        gpr.slice_sample.SliceSampler = base
    if var < 1e-3:
        t.discard()
    t.nontrivial()
    # bounded by Chebyshev-like tails: 40 draws, allow for skewness
    t.check(abs(z) < 9 * np.sqrt(var) + 12, f"starts: {z}, sd {var**0.5}")


# ------------------------------------------------ effective sample size
@st.composite
def fess_case(draw):
    c = draw(case())
    c["N"] = draw(st.sampled_from([1, 2, 10, 57]))
    c["how"] = draw(st.sampled_from(["means", "gp", "count", "exact"]))
    c["far"] = draw(st.sampled_from([0, 0, 60.0]))
    return c


def effective(c, t):
    from pyvbmc.vbmc.active_importance_sampling import fess

    vp, gp, refs = build(c)
    if max(r.cond for r in refs) > 1e9:
        t.discard()
    N = c["N"]
    np.random.seed(c["seed"] % 2**32)
    t.nontrivial(N > 1)
    t.label(c["how"])
    if c["how"] == "count":
        k = np.random.get_state()
        a = fess(vp, gp, N)
        np.random.set_state(k)
        X, _ = vp.sample(N, orig_flag=False)
        t.check(X.shape == (N, vp.D), "sample")
    else:
        X = vp.sample(N, orig_flag=False)[0]
        if c["far"]:
            X[0] += c["far"]
    lq = np.maximum(gpref.log_mixture(
        vp.mu, vp.sigma.ravel(), vp.lambd.ravel(), vp.w.ravel(), X),
        np.log(np.finfo(float).tiny))
    m = np.array([r.mean(X) for r in refs]).T
    if c["how"] == "exact":
        m = lq[:, None] + np.array([[0.0, 50.0, -50.0]]) + 17.0
    if c["how"] == "gp":
        a = fess(vp, gp, X)
    elif c["how"] != "count":
        a = fess(vp, m, X)
        b = fess(vp, m + 123.0, X)
        t.close(a, b, "shifted values", rtol=1e-8)
    lw = m.mean(1) - lq
    lw -= logsumexp(lw)
    want = np.exp(-logsumexp(2 * lw)) / N
    _, em = sizes(refs)
    t.close(a, want, "effective fraction", rtol=1e-6 + 10 * em)
    t.check(0 < a <= 1 + 1e-9, f"fraction {a}")
    if c["how"] == "exact":
        t.close(a, 1.0, "fraction of an exact proposal", rtol=1e-9)


# ----------------------------------------------------------- complete runs
@st.composite
def run_case(draw):
    c = draw(runcfg.spec(max_d=2, opts=2, kinds=("gauss", "banana", "edge"),
                         noise=(2,)))
    c["o"]["search_acq_fcn"] = draw(st.sampled_from(
        ["AcqFcnVIQR()", "AcqFcnIMIQR()", "AcqFcnVIQR(0.9)"]))
    c["o"].update(draw(st.sampled_from([
        {}, {"active_importance_sampling_mcmc_samples": 0},
        {"active_importance_sampling_mcmc_samples": 9},
        {"active_importance_sampling_vp_samples": 0},
        {"active_importance_sampling_box_samples": 0},
        {"active_sample_gp_update": True},
        {"active_sample_vp_update": True}])))
    if c["o"]["search_acq_fcn"] != "AcqFcnIMIQR()" and c["o"].get(
            "active_importance_sampling_mcmc_samples") == 0:
        del c["o"]["active_importance_sampling_mcmc_samples"]
    c["evals"], c["iters"] = 33, 5
    return c


def in_run(c, t):
    from pyvbmc.acquisition_functions.utilities import string_to_acq

    R = runcfg.Run(c)
    if len(np.unique(R.x0, axis=0)) < len(R.x0):
        t.discard()
    base = type(string_to_acq(c["o"]["search_acq_fcn"]))
    box = {"n": 0, "key": None, "gps": 0, "shape": None}

    class Spy(base):
        def __call__(self, Xs, gp, vp, F, S):
            A = S["active_importance_sampling"]
            key = (id(gp), F.func_count)
            if key != box["key"]:
                box["key"] = key
                box["n"] += 1
                box["gps"] += gp.X.shape != box["shape"]
                box["shape"] = gp.X.shape
                current(t, gp, A)
            return super().__call__(Xs, gp, vp, F, S)

    np.random.seed(c["seed"] % 2**32)
    v = R.vbmc({"search_acq_fcn": [
        Spy(0.9) if "0.9" in c["o"]["search_acq_fcn"] else Spy()]})
    v.optimize()
    t.label("sets", box["n"])
    t.nontrivial(box["gps"] > 1)


def current(t, gp, A):
    X, W = A["X"], A["ln_weights"]
    S, n = len(gp.posteriors), X.shape[-2]
    t.check(np.all(np.isfinite(X)) and not np.any(np.isnan(W))
            and np.all(W <= 1e-9), "weights")
    t.check(abs(logsumexp(W)) < 1e-8, f"log total weight {logsumexp(W)}")
    t.check(W.shape == (S, n) and A["f_s2"].shape == (n, S)
            and A["K_Xa_X"].shape == (S, n, len(gp.X))
            and A["C_tmp"].shape == (S, len(gp.X), n), "shapes")
    for s in range(S):
        Xa = X[s] if X.ndim == 3 else X
        h = gp.posteriors[s].hyp
        d = (Xa[:, None, :] - gp.X[None]) / np.exp(h[:gp.D])
        K = np.exp(2 * h[gp.D] - 0.5 * np.sum(d**2, 2))
        t.close(A["K_Xa_X"][s], K, "kernel", rtol=1e-7, atol=1e-10)
        _, f2 = gp.predict(Xa, separate_samples=True)
        t.close(A["f_s2"][:, s], f2[:, s], "variance", rtol=1e-6,
                atol=1e-8 * np.exp(2 * h[gp.D]))


PROPS = [
    Prop("isr", case, isr, 1200),
    Prop("spread", dist_case, spread, 160, 4000),
    Prop("viqr", case, viqr, 600),
    Prop("viqr_spread", lambda: case(max_d=2), viqr_spread, 160, 4000),
    Prop("mcmc", case, mcmc, 200, 6000),
    Prop("weigh", lambda: case(max_d=2, means=("negquad",)), weigh, 40, 800),
    Prop("effective", fess_case, effective, 800),
    Prop("in_run", run_case, in_run, 24, 600, shrink=False, cpu_limit=300),
]
