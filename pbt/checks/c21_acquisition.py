"""C21: acquisition functions against their defining formulae."""
import copy
import sys

import numpy as np
from scipy.special import logsumexp
from scipy.stats import norm

from pbt import gen, gpref, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C21"
TECHNIQUE = (
    "generated surrogates, posteriors, states and batches of points against "
    "the published formulae evaluated point by point"
)
RULE = (
    "Cases: one of the seven built-in acquisition functions, a surrogate "
    "(1-3 hyperparameter samples, constant or per-point noise), a mixture "
    "over a bounded, unbounded or mixed, possibly rotated space, integer "
    "variables in some, the variance regularization on or off, and a batch "
    "of points near and far, at training points, and beyond the search "
    "bounds. Non-trivial: at least two points with finite values."
)
ASSUMPTIONS = [
    "the prediction of the surrogate (a library) at one point is right up "
    "to rounding; the posterior covariance is recomputed densely",
]

NAMES = ["AcqFcn", "AcqFcnLog", "AcqFcnNoisy", "AcqFcnVanilla"]
INT = ["AcqFcnVIQR", "AcqFcnIMIQR"]
LOG = ("AcqFcnLog", "AcqFcnVIQR", "AcqFcnIMIQR")


class Opts(dict):
    def eval(self, k, _):
        return self[k]


class Log:
    def __init__(self, y_max):
        self.y_max = y_max


@st.composite
def case(draw, names=NAMES, min_n=1):
    v = draw(gen.vp_spec(max_d=3, max_k=4))
    D = v["D"]
    ints = [0] * D
    if draw(st.integers(0, 3)) == 0:
        ints = draw(st.lists(st.integers(0, 1), min_size=D, max_size=D))
    for d in range(D):
        if ints[d]:
            n = draw(st.integers(2, 30))
            a = draw(st.integers(-20, 20))
            v["tr"]["dims"][d] = {
                "k": "b", "lb": a - 0.5, "ub": a + n + 0.5,
                "plb": a + 0.2 * n, "pub": a + 0.8 * n,
            }
    g = draw(gpref.gp_spec(D))
    g["N"] = max(g["N"], min_n)
    return {
        "acq": draw(st.sampled_from(names)),
        "q": draw(st.sampled_from([None, 0.6, 0.75, 0.9, 0.95])),
        "vp": v, "gp": g, "ints": ints,
        "reg": draw(st.booleans()),
        "tol_var": draw(st.sampled_from([1e-4, 1e-2, 0.3])),
        "tol_x": draw(st.sampled_from([1e-5, 1e-3, 1e-2])),
        "n": draw(st.integers(1, 8)),
        "far": draw(st.sampled_from([1.0, 2.0, 6.0, 40.0])),
        "seed": draw(gen.SEED),
        "ymax": draw(gen.fl(-5, 5)),
        "mcmc": draw(st.sampled_from([0, 0, 0, 3])),
        "mix": draw(st.sampled_from([[4, 6], [8, 0], [0, 8]])),
    }


def build(c):
    import pyvbmc.acquisition_functions as A

    vp, gp = gen.build_vp(c["vp"]), gpref.build(c["gp"])
    r = np.random.RandomState(c["seed"] % 2**31)
    cls = getattr(A, c["acq"])
    if c["acq"] in INT and c["q"] is not None:
        acq = cls(c["q"])
    else:
        acq = cls()
    lb, ub = gen.bounds_of(c["vp"]["tr"]["dims"])[:2]
    eps = (ub - lb) * c["tol_x"]
    with np.errstate(invalid="ignore"):
        lo, hi = lb + eps, ub - eps
    ell = np.exp(np.mean([p.hyp[: vp.D] for p in gp.posteriors], axis=0))
    gp.temporary_data["X_rescaled"] = gp.X / ell
    gp.temporary_data["sn2_new"] = np.exp(r.uniform(-7, 1, len(gp.X)))
    os = {
        "integer_vars": np.array(c["ints"], dtype=bool),
        "variance_regularized_acq_fcn": c["reg"],
        "tol_gp_var": c["tol_var"],
        "lb_eps_orig": lo, "ub_eps_orig": hi,
        "gp_length_scale": ell,
    }
    X = r.uniform(-1, 1, (c["n"], vp.D)) * r.choice(
        [1.0, c["far"]], (c["n"], 1)
    )
    k = r.randint(0, 4, c["n"])
    X[k == 0] = gp.X[r.randint(len(gp.X), size=(k == 0).sum())]
    j = r.randint(vp.K, size=(k == 1).sum())
    X[k == 1] = vp.mu[:, j].T + 0.1 * X[k == 1]
    return vp, gp, acq, Log(c["ymax"]), os, X, r


def mapped(c, X):
    """Points with the integer coordinates rounded within the bounds."""
    if not any(c["ints"]):
        return X
    T = ref.ref_transform(c["vp"]["tr"])
    O = T.inverse(X)
    i = np.array(c["ints"], dtype=bool)
    O[:, i] = np.clip(np.round(O[:, i]), T.lb[:, i] + 0.5, T.ub[:, i] - 0.5)
    if c["vp"]["tr"]["rot"] is None:
        O[:, ~i] = (0.5 * (T.lb + T.ub))[:, ~i]
        O[~np.isfinite(O)] = 0.0
        U = T.direct(O)
        out = np.array(X)
        out[:, i] = U[:, i]
        return out
    with np.errstate(all="ignore"):
        U = T.direct(O)
    ok = np.all(np.isfinite(U), axis=1)
    return np.where(ok[:, None], U, X)


def half_way(c, X):
    """Rows on which the rounding of an integer is decided by an ulp."""
    i = np.array(c["ints"], dtype=bool)
    O = ref.ref_transform(c["vp"]["tr"]).inverse(X)[:, i]
    f = np.abs(O - np.floor(O) - 0.5) < 1e-6
    T = ref.ref_transform(c["vp"]["tr"])
    inside = (O > T.lb[:, i] + 0.25) & (O < T.ub[:, i] - 0.25)
    return np.any(f & inside, axis=1)


def bounds_flag(c, os, X):
    """(outside, undecided) by the original coordinates of X."""
    with np.errstate(invalid="ignore"):
        O = ref.ref_transform(c["vp"]["tr"]).inverse(X)
        lo, hi = os["lb_eps_orig"], os["ub_eps_orig"]
        w = np.where(np.isfinite(hi - lo), hi - lo, 1.0)
        out = np.any((O < lo) | (O > hi), axis=1)
        und = np.any(
            (np.abs(O - lo) < 1e-9 * w) | (np.abs(O - hi) < 1e-9 * w), axis=1
        )
    return out, und


def neighbours(gp, ell, x):
    """Noise of the nearest training points (all those within rounding)."""
    d = np.sum((x / ell - gp.X / ell) ** 2, axis=1)
    m = d.min()
    near = d <= m + 1e-9 * (1 + m)
    s = gp.temporary_data["sn2_new"][near]
    return s.min(), s.max()


def snap(vp, gp, log, os):
    o = copy.deepcopy(os)
    return (
        [np.copy(a) for a in (vp.mu, vp.sigma, vp.lambd, vp.w, vp.eta)],
        [np.copy(gp.X), np.copy(gp.y)]
        + [np.copy(getattr(p, k)) for p in gp.posteriors
           for k in ("hyp", "alpha", "L", "sW")],
        [np.copy(gp.temporary_data[k]) for k in ("X_rescaled", "sn2_new")],
        [log.y_max], o,
    )


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b, equal_nan=True)
    return a == b


def regularize(c, a, v):
    """a: value; v: variance."""
    if not c["reg"] or not v < c["tol_var"]:
        return a
    if v <= 0:
        return np.inf if c["acq"] in LOG else a * 0.0
    e = c["tol_var"] / v - 1
    return a + e if c["acq"] in LOG else a * np.exp(-e)


def moments(gp, x):
    m, v = gp.predict(x[None, :], separate_samples=True)
    m, v = m[0], v[0]
    fb = m.mean()
    vt = v.mean() + (np.var(m, ddof=1) if len(m) > 1 else 0.0)
    return fb, vt, m, v


def run(c, t, acq, X, vp, gp, log, os):
    s0, X0 = snap(vp, gp, log, os), np.copy(X)
    with np.errstate(all="ignore"):
        a = acq(X, gp, vp, log, os)
    t.check(a.shape == (len(X),), f"shape {a.shape}")
    t.check(same(s0, snap(vp, gp, log, os)), "the state changed")
    t.check(np.array_equal(X, X0), "the points changed")
    t.check(not np.any(np.isnan(a)), lambda: f"NaN: {a!r}")
    return a


def verdict(c, t, os, X, Xi, a, lohi):
    """Compare a with intervals; lohi(x) -> (low, high) of one point."""
    out, und = bounds_flag(c, os, Xi)
    skip = half_way(c, X) | und
    n = 0
    for i in np.flatnonzero(~skip):
        if out[i]:
            t.check(a[i] == np.inf, f"outside the bounds: {a[i]!r}")
            t.label("outside")
            continue
        with np.errstate(all="ignore"):
            lo, hi = lohi(Xi[i])
        big = sys.float_info.max
        lo, hi = max(lo, -big), max(hi, -big)
        tol = 1e-7 * (
            1.0 if c["acq"] in LOG else 1e-290
        ) + 1e-7 * max(abs(lo), abs(hi))
        if not np.isfinite(tol):
            tol = 0.0
        t.check(
            lo - tol <= a[i] <= hi + tol,
            f"value {a[i]!r} of point {i} not in [{lo!r}, {hi!r}]",
        )
        n += np.isfinite(a[i])
    t.nontrivial(n > 1)
    t.label("regularized" if c["reg"] else "plain")


def size(gp, c):
    """Rounding of the surrogate's mean and variance."""
    refs = [gpref.Ref(c["gp"], h) for h in c["gp"]["hyps"]]
    sf2 = max(h["sf"] for h in c["gp"]["hyps"]) ** 2
    k = max(r.cond for r in refs)
    dm = 1e-13 * max(
        np.abs(r.alpha).sum() * sf2 + np.abs(r.m(gp.X)).max() for r in refs
    ) + 1e-10
    return refs, dm, 1e-15 * sf2 * (10 + k), k


def simple(c, t):
    vp, gp, acq, log, os, X, r = build(c)
    a = run(c, t, acq, X, vp, gp, log, os)
    refs, dm, dv, _ = size(gp, c)
    Xi = mapped(c, X)
    t.label(c["acq"])
    tiny = sys.float_info.min

    def lohi(x):
        fb, vt, m, v = moments(gp, x)
        dm_ = dm + 1e-10 * abs(fb)
        lp = max(ref.mixture_logpdf(vp, x)[0], np.log(tiny))
        n_lo, n_hi = neighbours(gp, os["gp_length_scale"], x)
        vals = []
        for f, w in ((fb - dm_, vt - dv), (fb + dm_, vt + dv)):
            w = max(w, 0.0)
            for sn in (n_lo, n_hi):
                if c["acq"] == "AcqFcnLog":
                    b = -(np.log(w) + f - c["ymax"] + lp)
                elif c["acq"] == "AcqFcn":
                    b = -w * np.exp(f - c["ymax"] + lp)
                elif c["acq"] == "AcqFcnNoisy":
                    b = -(w**2 / (w + sn)) * np.exp(f - c["ymax"] + lp)
                else:
                    b = -w * np.exp(2 * lp)
                vals.append(regularize(c, b, w))
        vals = [x for x in vals if not np.isnan(x)]
        # rounding of the density and the exponent
        return min(vals), max(vals)

    verdict(c, t, os, X, Xi, a, lohi)
    # the value of a point does not depend on the batch
    if len(X) > 1:
        t.label("batch")
    b = acq(np.copy(X[0]), gp, vp, log, os)
    t.check(b.shape == (1,), f"shape {b.shape} for one point")


def integrated(c, t):
    from pyvbmc.vbmc.active_importance_sampling import (
        active_importance_sampling,
    )

    vp, gp, acq, log, os, X, r = build(c)
    o = Opts(
        active_importance_sampling_mcmc_samples=(
            12 if c["acq"] == "AcqFcnVIQR" else c["mcmc"]
        ),
        active_importance_sampling_vp_samples=c["mix"][0],
        active_importance_sampling_box_samples=c["mix"][1],
        active_importance_sampling_mcmc_thin=1,
        active_importance_sampling_fess_thresh=0.9,
    )
    with np.errstate(all="ignore"):
        S = active_importance_sampling(vp, gp, acq, o)
    os["active_importance_sampling"] = S
    a = run(c, t, acq, X, vp, gp, log, os)
    refs, dm, dv, cond = size(gp, c)
    if cond > 1e9:
        t.discard()
    Xi = mapped(c, X)
    t.label(c["acq"])
    t.label("own points" if S["X"].ndim == 3 else "shared points")
    u = norm.ppf(0.75 if c["q"] is None else c["q"])
    sf2 = max(h["sf"] for h in c["gp"]["hyps"]) ** 2
    e = 1e-14 * cond * sf2 + 1e-13

    def lohi(x):
        _, vt, _, v = moments(gp, x)
        n_lo, n_hi = neighbours(gp, os["gp_length_scale"], x)
        vals = []
        for sn, sign in ((n_lo, -1), (n_hi, 1)):
            per = []
            for s, q in enumerate(refs):
                Xa = S["X"][s] if S["X"].ndim == 3 else S["X"]
                C = q.cov(Xa, x[None, :])[:, 0]
                fa = q.var(Xa)
                dy = v[s] + sn
                dt = 2 * np.abs(C) * e / dy + e**2 / dy + (
                    C**2 / dy * min(1.0, e / dy)
                )
                sp = np.sqrt(
                    np.maximum(fa - C**2 / dy + sign * (dt + e), 0)
                )
                z = u * sp + np.log1p(-np.exp(-2 * u * sp))
                if c["acq"] == "AcqFcnIMIQR":
                    z = z + S["ln_weights"][s]
                per.append(logsumexp(z))
            b = logsumexp(per) - np.log(len(per))
            for w in (max(vt - dv, 0), vt + dv):
                vals.append(regularize(c, b, w))
        return min(vals), max(vals)

    verdict(c, t, os, X, Xi, a, lohi)


def names():
    return gen.obj(
        name=st.sampled_from(NAMES + INT),
        q=st.sampled_from([0.55, 0.75, 0.9]),
        style=st.integers(0, 7),
    )


def spelled(c, t):
    from pyvbmc.acquisition_functions import utilities
    import pyvbmc.acquisition_functions as A

    q = c["q"]
    forms = [
        "{n}", "{n}()", " {n}()".strip(), "{n}( )",
        "{n}({q})", "{n}(quantile={q})", "{n}(quantile = {q}) ",
        "{n}( {q} )",
    ]
    f = forms[c["style"]]
    if "{q}" in f and c["name"] not in INT:
        t.discard()
    a = utilities.string_to_acq(f.format(n=c["name"], q=q))
    cls = getattr(A, c["name"])
    t.check(type(a) is cls, f"type {type(a)}")
    b = cls(q) if "{q}" in f else cls()
    t.nontrivial("{q}" in f)
    t.check(a.acq_info == b.acq_info, "settings")
    t.check(a.get_info() is a.acq_info, "get_info")
    if c["name"] in INT:
        want = norm.ppf(q if "{q}" in f else 0.75)
        t.close(a.u, want, "quantile")
    t.check(
        bool(a.acq_info.get("log_flag")) == (c["name"] in LOG), "log_flag"
    )


PROPS = [
    Prop("simple", case, simple, 2400),
    Prop("integrated", lambda: case(names=INT, min_n=2), integrated, 1200),
    Prop("spelled", names, spelled, 60, 60),
]
