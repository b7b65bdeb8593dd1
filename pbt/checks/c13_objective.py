"""C13: the variational objective, its gradient and its optimisation."""
import itertools

import numpy as np

from pbt import gen, gpref, ref, runs
from pbt.core import Prop
from pbt.gen import st
from pbt.checks.c11_entropy import gaussian_entropy, jensen, num_grad
from pbt.checks.c12_quadrature import parts, same, snap

PROPERTY = "C13"
TECHNIQUE = (
    "generated surrogates, mixtures and parameter vectors against a "
    "reference objective (numerical integration, closed-form bound, "
    "re-derived penalties) with numerical derivatives; invariants of whole "
    "optimisations"
)
RULE = (
    "Cases: surrogates as in C12; parameter vectors for every subset of "
    "optimised parameters, not normalised; with and without soft bounds and "
    "weight penalty, inside and outside them; whole optimisations with "
    "1-4 components, up to two more asked for, in and out of warm-up, with "
    "deterministic and Monte Carlo entropy. Non-trivial: a penalty is active "
    "or more than one component is used."
)
ASSUMPTIONS = [
    "points within 1e-4 of a kink of the weight penalty are skipped when "
    "comparing gradients",
    "Monte Carlo entropies are accepted within seven standard errors",
]


@st.composite
def obj_case(draw):
    v = draw(gen.vp_spec(max_d=3, max_k=4, tr=False))
    D, K = v["D"], v["K"]
    # writing lambda rescales sigma, so lambda is only optimised with sigma
    flags = draw(
        st.lists(st.booleans(), min_size=4, max_size=4).filter(
            lambda f: any(f) and (f[1] or not f[2])
        )
    )
    bnd = None
    if draw(st.booleans()):
        bnd = {
            "c": draw(gen.flist(-1.5, 1.5, D * K + D * K + K)),
            "h": draw(gen.flist(0.05, 3.0, D * K + D * K + K)),
            "tol_con": draw(st.sampled_from([0.01, 0.1, 1.0])),
            "thr": draw(st.sampled_from([0.0, 0.1, 0.25, 0.5])),
            "pen": draw(st.sampled_from([0.0, 0.1, 2.0])),
        }
    return {
        "vp": v,
        "gp": draw(gpref.gp_spec(D, max_n=8, max_s=2)),
        "flags": flags,
        "mu": draw(gen.flist(-2, 2, D * K)),
        "ls": draw(gen.flist(-2, 1, K)),
        "ll": draw(gen.flist(-1, 1, D)),
        "eta": draw(gen.flist(-3, 3, K)),
        "bnd": bnd,
        "beta": draw(st.sampled_from([0.0, 0.0, 1.0, 3.0, float("inf")])),
        "Ns": draw(st.sampled_from([0, 0, 0, 5])),
        "seed": draw(gen.SEED),
    }


def soft_loss(x, lb, ub, tol):
    ell = (ub - lb) * tol
    return 0.5 * np.sum(
        (np.maximum(lb - x, 0) / ell) ** 2 + (np.maximum(x - ub, 0) / ell) ** 2
    )


class Model:
    """The objective as a function of the parameter vector."""

    def __init__(self, c, refs, theta_bnd):
        v = c["vp"]
        self.D, self.K = v["D"], v["K"]
        self.fl, self.refs, self.bnd = c["flags"], refs, theta_bnd
        vp = gen.build_vp(v)
        self.mu0 = vp.mu.copy()
        self.ls0 = np.log(np.ravel(vp.sigma))
        self.ll0 = np.log(np.ravel(vp.lambd))
        self.w0 = np.ravel(vp.w)

    def unpack(self, th):
        D, K, fl = self.D, self.K, self.fl
        mu, ls, ll, w = self.mu0, self.ls0, self.ll0, self.w0
        eta, p = None, 0
        if fl[0]:
            mu, p = th[:D * K].reshape(K, D).T, D * K
        if fl[1]:
            ls, p = th[p:p + K], p + K
        if fl[2]:
            ll, p = th[p:p + D], p + D
        if fl[3]:
            eta = th[p:p + K]
            w = np.exp(eta - eta.max())
            w = w / w.sum()
        return mu, ls, ll, w, eta

    def ex(self, th):
        mu, ls, ll, w, _ = self.unpack(th)
        s = np.exp(ll[:, None] + ls[None, :])
        return np.array(
            [[gpref.comp_mean(r, mu[:, k], s[:, k]) for k in range(self.K)]
             for r in self.refs]
        ) @ w

    def G(self, th):
        return float(np.mean(self.ex(th)))

    def var(self, th):
        mu, ls, ll, w, _ = self.unpack(th)
        s = np.exp(ll[:, None] + ls[None, :])
        K = self.K
        v = [
            sum(
                w[j] * w[k] * gpref.pair_cov(
                    r, mu[:, j], s[:, j], mu[:, k], s[:, k]
                ) for j in range(K) for k in range(K)
            ) for r in self.refs
        ]
        e = self.ex(th)
        return np.mean(np.maximum(v, 0)) + (
            np.var(e, ddof=1) if len(e) > 1 else 0.0
        )

    def H(self, th):
        mu, ls, ll, w, _ = self.unpack(th)
        s = np.exp(ll[:, None] + ls[None, :])
        if self.K == 1:
            return gaussian_entropy(s[:, 0])
        return jensen(mu, s, w)

    def penalty(self, th):
        b = self.bnd
        if b is None:
            return 0.0
        mu, ls, ll, w, eta = self.unpack(th)
        x = []
        if self.fl[0]:
            x.append(mu.ravel(order="F"))
        if self.fl[1] or self.fl[2]:
            x.append((ll[:, None] + ls[None, :]).ravel(order="F"))
        if self.fl[3]:
            x.append(eta)
        out = soft_loss(np.concatenate(x), b["lb"], b["ub"], b["tol_con"])
        if self.fl[3]:
            out += b["weight_penalty"] * np.sum(
                np.minimum(w, b["weight_threshold"])
            )
        return out


def make(c):
    vp = gen.build_vp(c["vp"])
    (vp.optimize_mu, vp.optimize_sigma, vp.optimize_lambd,
     vp.optimize_weights) = c["flags"]
    # lambda has unit root-mean-square in a stored posterior
    nl = np.sqrt(np.mean(vp.lambd**2))
    vp.lambd, vp.sigma = vp.lambd / nl, vp.sigma * nl
    c["vp"] = dict(
        c["vp"], sigma=[float(x) for x in np.ravel(vp.sigma)],
        lambd=[float(x) for x in np.ravel(vp.lambd)],
    )
    fl = c["flags"]
    th = np.concatenate(
        [np.array(c[n], dtype=float)
         for n, f in zip(("mu", "ls", "ll", "eta"), fl) if f]
    )
    D, K = vp.D, vp.K
    b = c["bnd"]
    if b is not None:
        n = (D * K if fl[0] else 0) + (D * K if fl[1] or fl[2] else 0) + (
            K if fl[3] else 0)
        ctr, hw = np.array(b["c"][:n]), np.array(b["h"][:n])
        b = {"lb": ctr - hw, "ub": ctr + hw, "tol_con": b["tol_con"],
             "weight_threshold": b["thr"], "weight_penalty": b["pen"]}
    return vp, th, b


def objective(c, t):
    from pyvbmc.entropy import entmc_vbmc
    from pyvbmc.vbmc.variational_optimization import _neg_elcbo

    c = dict(c)
    vp, th, bnd = make(c)
    gp = gpref.build(c["gp"])
    refs = [gpref.Ref(c["gp"], h) for h in c["gp"]["hyps"]]
    model = Model(c, refs, bnd)
    cond = max(r.cond for r in refs)
    scale = 1 + max(np.abs(r.alpha).sum() * r.h["sf"] ** 2 for r in refs)
    tol = (1e-9 + 1e-14 * cond) * scale
    t0 = th.copy()
    b0 = None if bnd is None else {
        k: np.copy(v) for k, v in bnd.items()
    }
    g0 = snap(vp, gp)[5:]
    pen = model.penalty(th)
    t.nontrivial(vp.K > 1 or pen > 0)
    t.label("penalty" if pen > 0 else "no penalty")
    beta, Ns = c["beta"], c["Ns"]
    b = 0.0 if np.isinf(beta) else beta
    G = model.G(th)
    np.random.seed(c["seed"] % 2**31)
    F, dF, Gc, Hc, vc = _neg_elcbo(
        th, gp, vp, beta, Ns, False, None, bnd
    )
    t.check(np.array_equal(th, t0), "the parameter vector was modified")
    t.check(same(g0, snap(vp, gp)[5:]), "the surrogate was modified")
    if bnd is not None:
        t.check(
            all(np.array_equal(bnd[k], b0[k]) for k in b0), "bounds modified"
        )
    t.check(dF is None, "a gradient that was not asked for")
    mu, ls, ll, w, _ = model.unpack(th)
    t.close(vp.mu, mu, "means set", rtol=1e-12)
    t.close(np.outer(vp.lambd, vp.sigma),
            np.exp(ll[:, None] + ls[None, :]), "scales set", rtol=1e-11)
    t.close(np.ravel(vp.w), w, "weights set", rtol=1e-11)
    t.close(Gc, G, "expected log joint", rtol=1e-8, atol=tol)
    if Ns == 0:
        t.close(Hc, model.H(th), "entropy", rtol=1e-9, atol=1e-9)
    else:
        np.random.seed(c["seed"] % 2**31)
        want = entmc_vbmc(vp, Ns, (False,) * 4, True)[0]
        t.close(Hc, want, "entropy (same random numbers)", rtol=1e-12)
    var = model.var(th) if b else 0.0
    if b:
        t.close(np.ravel(vc), [var], "variance", rtol=1e-6,
                atol=100 * tol * (1 + abs(G)))
    want = -G - float(Hc) + b * np.sqrt(var) + pen
    slack = b * np.sqrt(100 * tol * (1 + abs(G))) if b else 0.0
    t.close(np.ravel(F), [want], "objective", rtol=1e-8,
            atol=tol + slack)
    if b:
        t.raises(
            (NotImplementedError,),
            lambda: _neg_elcbo(th, gp, vp, beta, 0, True, None, bnd),
            "gradient with the full variance",
        )
        return
    np.random.seed(c["seed"] % 2**31)
    F2, dF, G2, H2, _ = _neg_elcbo(th, gp, vp, beta, Ns, True, None, bnd)
    t.check(np.array_equal(th, t0), "the parameter vector was modified")
    t.close(np.ravel(F2), np.ravel(F), "objective with gradient",
            rtol=1e-12, atol=1e-12)
    t.check(np.shape(dF) == th.shape, f"gradient of shape {np.shape(dF)}")
    if bnd is not None and np.any(
        np.abs(w - bnd["weight_threshold"]) < 1e-4
    ):
        return
    h = np.full(len(th), 1e-3)
    if c["flags"][0]:
        h[:vp.D * vp.K] *= np.exp(ls.min() + ll.min())

    d = -num_grad(model.G, th, h) + num_grad(model.penalty, th, h)
    if Ns == 0:
        d = d - num_grad(model.H, th, h)
    else:
        np.random.seed(c["seed"] % 2**31)
        d = d - entmc_vbmc(vp, Ns, tuple(c["flags"]), True)[1]
    if bnd is not None:
        # second derivative jumps where a bound is crossed
        curv = 1 / (2 * np.array(c["bnd"]["h"]).min() * bnd["tol_con"]) ** 2
    else:
        curv = 0.0
    near = curv * 2 * h.max() if kink(model, th, bnd, 3 * h) else 0.0
    t.close(dF, d, "gradient", rtol=1e-5,
            atol=1e-6 * (1 + np.abs(d).max()) + 1e3 * tol + near)


def kink(model, th, bnd, h):
    """Whether a soft bound lies within a finite-difference step."""
    if bnd is None:
        return False
    mu, ls, ll, w, eta = model.unpack(th)
    x = []
    if model.fl[0]:
        x.append(mu.ravel(order="F"))
    if model.fl[1] or model.fl[2]:
        x.append((ll[:, None] + ls[None, :]).ravel(order="F"))
    if model.fl[3]:
        x.append(eta)
    x = np.concatenate(x)
    return np.any(
        np.minimum(np.abs(x - bnd["lb"]), np.abs(x - bnd["ub"]))
        < 2 * np.max(h)
    )


# ---------------------------------------------------------------- optimise

MULT = {
    "default": lambda K: 1 / np.sqrt(K),
    "growing": lambda K: K**2,
    "steep": lambda K: 10.0 ** (2 * K - 6),
}


@st.composite
def opt_case(draw):
    v = draw(gen.vp_spec(max_d=3, max_k=3, tr=False))
    D = v["D"]
    v["tr"] = None
    g = draw(gpref.gp_spec(D, max_s=2, means=("const", "negquad")))
    g["N"] = draw(st.integers(5, 15))
    for h in g["hyps"]:
        # a surrogate that decays, as trained ones do
        h["omega"] = [min(x, 2.0) for x in h.get("omega", [2.0] * D)]
        h["sn"] = max(h["sn"], 1e-2)
        h["xm"] = h.get("xm", [0.0] * D)
    g["mean"] = "negquad"
    for h in g["hyps"]:
        h.setdefault("m0", 0.0)
    return {
        "vp": v, "gp": g, "seed": draw(gen.SEED),
        "extra": draw(st.sampled_from([0, 0, 1, 2, 3])),
        "warmup": draw(st.sampled_from([False, False, True])),
        "switch": draw(st.sampled_from([False, False, True])),
        "slow": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "fast": draw(st.sampled_from([6, 12])),
        "weights": draw(st.sampled_from([True, True, False])),
        "mid": draw(st.booleans()),
        "tol_weight": draw(st.sampled_from([0.0, 0.01, 0.3, 0.6])),
        "mult": draw(st.sampled_from(["default", "default", "growing",
                                      "steep"])),
        "tol_impro": draw(st.sampled_from([0.01, 1.0, 10.0, 100.0])),
    }


def optimise(c, t):
    from pyvbmc import VBMC
    from pyvbmc.vbmc.variational_optimization import (
        _neg_elcbo, optimize_vp,
    )

    np.random.seed(c["seed"] % 2**31)
    D, K = c["vp"]["D"], c["vp"]["K"]
    vp, gp = gen.build_vp(c["vp"]), gpref.build(c["gp"])
    vp.optimize_weights = c["weights"] and not c["warmup"]
    if not vp.optimize_weights:
        vp.w = np.full((1, K), 1 / K)
        vp.eta = np.log(vp.w)
    v = VBMC(
        lambda x: 0.0, np.zeros((1, D)),
        plausible_lower_bounds=-np.ones((1, D)),
        plausible_upper_bounds=np.ones((1, D)),
        options=runs.fast(
            tol_weight=c["tol_weight"], tol_improvement=c["tol_impro"],
            elcbo_midpoint=c["mid"], max_iter_stochastic=100,
            ns_ent_fine=2000,
            pruning_threshold_multiplier=MULT[c["mult"]],
        ),
    )
    v.optim_state["warmup"] = c["warmup"]
    v.optim_state["entropy_switch"] = c["switch"]
    K1 = K + c["extra"]
    g0 = snap(vp, gp)[5:]
    X = np.random.RandomState(0).randn(20, D)
    d0 = ref.mixture_logpdf(vp, X)
    start = gen.build_vp(c["vp"])
    with Spy() as spy:
        new, var_ss, pruned = optimize_vp(
            v.options, v.optim_state, vp, gp, c["fast"], c["slow"], K1
        )
    t.nontrivial(K1 > 1)
    t.check(same(g0, snap(vp, gp)[5:]), "the surrogate was modified")
    t.close(ref.mixture_logpdf(vp, X), d0, "the given posterior's density",
            rtol=1e-9)
    t.check(vp.K == K, "the given posterior's components")
    t.check(pruned >= 0 and new.K == K1 - pruned >= 1,
            f"{new.K} components after {pruned} pruned of {K1}")
    if not vp.optimize_weights or c["tol_weight"] == 0:
        t.check(pruned == 0, "pruned without reason")
    t.label("pruned" if pruned else "not pruned")
    t.check(
        new.mu.shape == (D, new.K) and new.sigma.shape == (1, new.K)
        and new.lambd.shape == (D, 1) and new.w.shape == (1, new.K)
        and np.size(new.eta) == new.K, "shapes",
    )
    for n in ("mu", "sigma", "lambd", "w"):
        t.check(np.all(np.isfinite(getattr(new, n))), f"{n} not finite")
    t.check(np.all(new.sigma > 0) and np.all(new.lambd > 0), "scales")
    t.check(np.all(new.w > 0) and abs(np.sum(new.w) - 1) < 1e-9, "weights")
    t.check(abs(np.mean(new.lambd**2) - 1) < 1e-9, "normalised lambda")
    if vp.optimize_weights:
        e = np.ravel(new.eta)
        e = np.exp(e - e.max())
        t.close(e / e.sum(), np.ravel(new.w), "eta and w", rtol=1e-8)
    else:
        t.close(new.w, np.full((1, K1), 1 / K1), "weights not optimised",
                rtol=1e-12)
    refs = [gpref.Ref(c["gp"], h) for h in c["gp"]["hyps"]]
    mu, s, w = parts(new)
    st_ = new.stats
    I = np.array(
        [[gpref.comp_mean(r, mu[:, k], s[:, k]) for k in range(new.K)]
         for r in refs]
    )
    cond = max(r.cond for r in refs)
    scale = 1 + max(np.abs(r.alpha).sum() * r.h["sf"] ** 2 for r in refs)
    tol = (1e-9 + 1e-14 * cond) * scale
    t.close(st_["I_sk"], I, "I_sk", rtol=1e-7, atol=tol)
    J = np.array(
        [[[gpref.pair_cov(r, mu[:, j], s[:, j], mu[:, k], s[:, k])
           for k in range(new.K)] for j in range(new.K)] for r in refs]
    )
    t.close(st_["J_sjk"], J, "J_sjk", rtol=1e-6, atol=10 * tol)
    e = I @ w
    vs = np.maximum([w @ j @ w for j in J], 0)
    sv = np.var(e, ddof=1) if len(e) > 1 else 0.0
    t.close(st_["e_log_joint"], e.mean(), "expected log joint", rtol=1e-7,
            atol=tol)
    tv = 100 * tol * (1 + np.abs(e).max())
    t.close(st_["e_log_joint_sd"] ** 2, vs.mean() + sv, "its variance",
            rtol=1e-6, atol=tv)
    t.close(st_["elbo_sd"], st_["e_log_joint_sd"], "ELBO error", rtol=1e-12)
    t.close(np.ravel(var_ss),
            [sv + (np.std(vs, ddof=1) if len(e) > 1 else 0.0)],
            "variance over samples", rtol=1e-5, atol=tv)
    t.close(st_["elbo"], st_["e_log_joint"] + st_["entropy"],
            "ELBO = expected log joint + entropy", rtol=1e-10, atol=1e-10)
    t.check(st_["entropy_sd"] == 0 and st_["stable"] in (False, 0), "flags")
    # entropy from independent samples
    r = np.random.RandomState(1)
    n = 20000
    k = r.choice(new.K, size=n, p=w)
    x = mu[:, k].T + s[:, k].T * r.randn(n, D)
    lp = gpref.log_mixture(
        mu, np.ravel(new.sigma), np.ravel(new.lambd), w, x
    )
    se = code_se(lp, k, w)
    se = np.sqrt(np.var(lp) / n + se**2)
    t.check(
        abs(st_["entropy"] + lp.mean()) < 7 * se + 1e-9,
        lambda: f"entropy {st_['entropy']}, samples {-lp.mean()} +/- {se}",
    )
    selection(c, t, v, spy, new, pruned, refs, K1, se)
    # an optimisation cannot end above where it can start: strictly when
    # deterministic, up to a generous margin when stochastic
    det = c["switch"] or K1 == 1
    # (the soft bounds on eta depend on its offset, which the posterior does
    # not keep: the vector the optimiser ended at is used)
    if (c["extra"] == 0 and c["slow"] == 1 and pruned == 0
            and len(spy.runs) == 1 and not c["mid"]):
        bnd = new.get_bounds(gp.X, v.options, K1)
        start.optimize_weights = vp.optimize_weights
        if not start.optimize_weights:
            start.w = np.full((1, K), 1 / K)
        bnd0 = start.get_bounds(gp.X, v.options, K1)
        for k in ("lb", "ub"):
            t.close(np.ravel(bnd[k]), np.ravel(bnd0[k]), "soft bounds",
                    rtol=1e-9)
        a = _neg_elcbo(spy.runs[0][1][0], gp, gen_copy(new), 0, 0, False, 0,
                       bnd)[0]
        b = _neg_elcbo(start.get_parameters(), gp, start, 0, 0, False, 0,
                       bnd)[0]
        t.label("compared with start")
        if det:
            t.check(a <= b + 1e-6 * (1 + abs(b)),
                    lambda: f"objective {a} worse than at the start {b}")
            x0 = spy.runs[0][0]
            f0, g0 = _neg_elcbo(x0, gp, gen_copy(new), 0, 0, True, 0, bnd)[:2]
            steep = np.abs(g0).max() > 1e-2 * (1 + abs(f0))
            t.label("steep start" if steep else "flat start")
            t.check(not steep or a < f0,
                    lambda: f"no progress from {f0} with gradient {g0}")
        else:
            # swap the bound on the entropy for the entropy
            a += Model.H(_At(new), None) + lp.mean()
            m0, s0, w0 = parts(start)
            k = r.choice(K, size=n, p=w0)
            x = m0[:, k].T + s0[:, k].T * r.randn(n, D)
            lq = gpref.log_mixture(
                m0, np.ravel(start.sigma), np.ravel(start.lambd), w0, x
            )
            b += Model.H(_At(start), None) + lq.mean()
            margin = 0.5 + 7 * (np.std(lp) + np.std(lq)) / np.sqrt(n)
            t.check(a <= b + margin,
                    lambda: f"objective {a} worse than at the start {b}")


def code_se(lp, k, w, ns=2000):
    """Standard error of an entropy estimated from ns samples, the same
    number from each component, in antithetic pairs (worst case)."""
    v = [w[j] ** 2 * np.var(lp[k == j]) if np.sum(k == j) > 1 else 0.0
         for j in range(len(w))]
    return np.sqrt(2 * len(w) * np.sum(v) / ns)


def gen_copy(vp):
    import copy

    return copy.deepcopy(vp)


class Spy:
    """Records where the optimisers start and end."""

    def __enter__(self):
        import scipy.optimize as so

        import pyvbmc.vbmc.variational_optimization as vo

        self.runs = []
        self.so, self.min = so, so.minimize
        self.vo, self.adam = vo, getattr(vo, "minimize_adam", None)

        def minimize(fun, x0, *a, **k):
            r = self.min(fun, x0, *a, **k)
            self.runs.append((np.copy(x0), [np.copy(r.x)], None))
            return r

        def adam(fun, x0, *a, **k):
            x0 = np.copy(x0)
            r = self.adam(fun, x0, *a, **k)
            f = np.ravel(r[3])
            mid = np.reshape(r[2], (len(x0), -1))[:, np.argmin(f)]
            self.runs.append((x0, [np.copy(np.ravel(r[0]))], np.copy(mid)))
            return r

        so.minimize = minimize
        if self.adam is not None:
            vo.minimize_adam = adam
        return self

    def __exit__(self, *_):
        self.so.minimize = self.min
        if self.adam is not None:
            self.vo.minimize_adam = self.adam


def selection(c, t, v, spy, new, pruned, refs, K1, se):
    """The posterior returned is the best of those the optimisers ended at,
    without the components that make no difference."""
    if len(spy.runs) != c["slow"]:
        t.label("optimisers not observed")
        return
    D = c["vp"]["D"]
    wts = new.optimize_weights
    m = Model.__new__(Model)
    m.D, m.K, m.refs, m.bnd = D, K1, refs, None
    m.mu0 = m.ls0 = m.ll0 = None
    m.fl, m.w0 = [True, True, True, wts], np.full(K1, 1 / K1)
    iw = v.options["elcbo_impro_weight"]
    r = np.random.RandomState(2)
    n = 4000

    def noise(sd):
        return 7 * sd

    def entropy(mu, s, w):
        k = r.choice(len(w), size=n, p=w)
        x = mu[:, k].T + s[:, k].T * r.randn(n, D)
        z = (x[:, :, None] - mu[None]) / s[None]
        lq = -0.5 * np.sum(z**2, 1) - np.sum(
            np.log(s), 0) - 0.5 * D * np.log(2 * np.pi) + np.log(w)
        a = lq.max(1)
        lq = a + np.log(np.exp(lq - a[:, None]).sum(1))
        return -lq.mean(), np.sqrt(lq.var() / n + code_se(lq, k, w) ** 2)

    ends = [e for x0, es, mid in spy.runs
            for e in es + ([mid] if mid is not None and c["mid"] else [])]
    ev = []
    for e in ends:
        mu, ls, ll, w, _ = m.unpack(e)
        s = np.exp(ll[:, None] + ls[None, :])
        h, sd = (entropy(mu, s, w) if K1 > 1
                 else (gaussian_entropy(s[:, 0]), 0.0))
        ev.append((m.G(e) + h, noise(sd)))
    elbo = new.stats["elbo"]
    best = max(a - b for a, b in ev)
    K = new.K
    # change of the lower confidence bound (exact variances) that is accepted
    thr = c["tol_impro"] * v.options.eval(
        "pruning_threshold_multiplier", {"K": K1})
    cond = max(q.cond for q in refs)
    sc = 1 + max(np.abs(q.alpha).sum() * q.h["sf"] ** 2 for q in refs)
    vslack = iw * np.sqrt(100 * (1e-9 + 1e-14 * cond) * sc)
    if pruned == 0:
        t.label("selected among several" if len(ends) > 1 else "one end")
        mu, s, w = parts(new)
        d = []
        for e in ends:
            m_, ls, ll, w_, _ = m.unpack(e)
            s_ = np.exp(ll[:, None] + ls[None, :])
            d.append(max(np.abs(m_ - mu).max(), np.abs(s_ / s - 1).max(),
                         np.abs(w_ - w).max()))
        t.check(min(d) < 1e-7,
                lambda: f"not where an optimiser ended: {ends}")
        t.check(elbo >= best - noise(se) - 1e-6,
                lambda: f"ELBO {elbo}, but it could be {ev}")
    if pruned:
        mu, s, w = parts(new)
        found = None
        for e, ee in zip(ends, ev):
            m_, ls, ll, w_, _ = m.unpack(e)
            s_ = np.exp(ll[:, None] + ls[None, :])
            dd = [np.abs(m_ - mu[:, k:k + 1]).max(0)
                  + np.abs(s_ / s[:, k:k + 1] - 1).max(0) for k in range(K)]
            keep = [int(np.argmin(q)) for q in dd]
            if max(np.min(q) for q in dd) < 1e-7 and len(set(keep)) == K:
                if found is None or ee[0] > found[2][0]:
                    found = keep, e, ee, w_
        t.check(found is not None,
                lambda: f"components that were not there: {ends}")
        keep, e, ee, w_ = found
        t.check(ee[0] + ee[1] >= best,
                lambda: f"pruned from {ee}, best is {ev}")
        t.close(w, w_[keep] / w_[keep].sum(), "weights after pruning",
                rtol=1e-7)
        gone = [k for k in range(K1) if k not in keep]
        t.check(np.all(w_[gone] < c["tol_weight"]),
                lambda: f"pruned weights {w_[gone]}")
        full = ee[0] - iw * np.sqrt(m.var(e))
        after = elbo - iw * new.stats["elbo_sd"]
        slack = ee[1] + noise(se) + vslack
        t.check(
            abs(after - full) <= pruned * (thr + slack),
            lambda: f"pruning {pruned} moved the bound from {full} to "
            f"{after}, threshold {thr}, slack {slack}",
        )
        t.label("pruning judged")
    # no component with a negligible weight and a negligible effect is left
    # (in whichever order the others were removed)
    mu, s, w = parts(new)
    if wts and K > 1 and np.any(w < c["tol_weight"]):
        if pruned:
            full = [q for q in m.unpack(found[1])[:4]]
            keep, gone = found[0], [k for k in range(K1)
                                    if k not in found[0]]
        else:
            full = [mu, np.log(np.ravel(new.sigma)),
                    np.log(np.ravel(new.lambd)), w]
            keep, gone = list(range(K)), []
        memo = {}

        def bound(o):
            """Lower confidence bound with these components, and noise."""
            o = tuple(o)
            if o not in memo:
                mo = Model.__new__(Model)
                mo.D, mo.K, mo.refs, mo.bnd = D, len(o), refs, None
                mo.fl = [True] * 4
                mo.mu0 = mo.ls0 = mo.ll0 = mo.w0 = None
                o = list(o)
                f_mu, f_ls, f_ll, f_w = full
                f_s = np.exp(f_ll[:, None] + f_ls[None, o])
                h, sd = (
                    entropy(f_mu[:, o], f_s, f_w[o] / f_w[o].sum())
                    if len(o) > 1 else (gaussian_entropy(f_s[:, 0]), 0.0))
                e = np.concatenate([f_mu[:, o].T.ravel(), f_ls[o], f_ll,
                                    np.log(f_w[o])])
                memo[tuple(o)] = (
                    mo.G(e) + h - iw * np.sqrt(mo.var(e)), noise(sd))
            return memo[tuple(o)]

        for k in keep:
            if full[3][k] >= c["tol_weight"]:
                continue
            d = []
            for n_out in range(len(gone) + 1):
                for out in itertools.combinations(gone, n_out):
                    o = [j for j in range(K1) if j not in out]
                    x, y = bound(o), bound([j for j in o if j != k])
                    d.append(abs(x[0] - y[0]) + x[1] + y[1] + vslack)
            t.label("light component kept")
            t.check(max(d) >= thr,
                    lambda: f"component {k} of weight {full[3][k]} left: "
                    f"effect at most {d}, threshold {thr}")
    # the candidates include the posterior given, and the best one of its
    # kind starts the first optimisation
    if c["extra"] == 0:
        start = gen.build_vp(c["vp"])
        start.optimize_weights = wts
        if not wts:
            start.w = np.full((1, K1), 1 / K1)
        from pyvbmc.vbmc.variational_optimization import _neg_elcbo

        gp = gpref.build(c["gp"])
        b = start.get_bounds(gp.X, v.options, K1)
        f0 = _neg_elcbo(start.get_parameters(), gp, start, 0, 0, False, 0,
                        b)[0]
        f1 = _neg_elcbo(spy.runs[0][0], gp, start, 0, 0, False, 0, b)[0]
        t.label("start judged")
        t.check(f1 <= f0 + 1e-7 * (1 + abs(f0)),
                lambda: f"started at {f1}, the given posterior has {f0}")


class _At:
    """A posterior seen through Model's interface."""

    def __init__(self, vp):
        self.vp, self.K = vp, vp.K

    def unpack(self, _):
        v = self.vp
        return (v.mu, np.log(np.ravel(v.sigma)), np.log(np.ravel(v.lambd)),
                np.ravel(v.w), None)


# ---------------------------------------------------------------- soft loss

def loss_case():
    return gen.obj(
        x=gen.flist(-3, 3, 4), c=gen.flist(-1, 1, 4),
        h=gen.flist(0.05, 2, 4), n=st.integers(1, 4),
        tol=st.sampled_from([1e-3, 0.01, 1.0]),
    )


def loss(c, t):
    from pyvbmc.vbmc.variational_optimization import _soft_bound_loss

    n = c["n"]
    x, ctr, h = (np.array(c[k][:n], dtype=float) for k in ("x", "c", "h"))
    lb, ub = ctr - h, ctr + h
    x0, l0, u0 = x.copy(), lb.copy(), ub.copy()
    y = _soft_bound_loss(x, lb, ub, c["tol"])
    want = soft_loss(x, lb, ub, c["tol"])
    t.nontrivial(want > 0)
    t.close(y, want, "soft bound loss", rtol=1e-12)
    y2, dy = _soft_bound_loss(x, lb, ub, c["tol"], compute_grad=True)
    t.check(y2 == y, "value with gradient")
    ell = (ub - lb) * c["tol"]
    t.close(dy, (np.maximum(x - ub, 0) - np.maximum(lb - x, 0)) / ell**2,
            "gradient", rtol=1e-10, atol=1e-12)
    t.check(
        np.array_equal(x, x0) and np.array_equal(lb, l0)
        and np.array_equal(ub, u0), "arguments modified",
    )


PROPS = [
    Prop("objective", obj_case, objective, 700),
    Prop("optimise", opt_case, optimise, 450, 3000, cpu_limit=200),
    Prop("loss", loss_case, loss, 500),
]
