"""C12: expected log joint under the surrogate, its variance and gradient."""
import numpy as np

from pbt import gen, gpref
from pbt.core import Prop
from pbt.gen import st
from pbt.checks.c11_entropy import blocks, coords, flags_st, num_grad

PROPERTY = "C12"
TECHNIQUE = (
    "generated surrogates and mixtures against per-dimension numerical "
    "integration of the surrogate's posterior computed by dense algebra"
)
RULE = (
    "Cases: squared-exponential surrogates with zero, constant or quadratic "
    "mean, 1-3 hyperparameter samples, 1-12 training points, constant or "
    "per-point noise (both of the surrogate's internal representations), and "
    "mixtures of 1-4 components in 1-3 dimensions. Non-trivial: more than "
    "one component or hyperparameter sample."
)
ASSUMPTIONS = [
    "per-dimension trapezoidal integration over nine standard deviations is "
    "exact to the tolerances used",
]


@st.composite
def case(draw):
    v = draw(gen.vp_spec(max_d=3, max_k=4, tr=False))
    return {
        "vp": v,
        "gp": draw(gpref.gp_spec(v["D"])),
        "flags": draw(flags_st()),
        "jac": draw(st.booleans()),
        "avg": draw(st.sampled_from([True, True, False])),
    }


def parts(vp):
    return (vp.mu, np.outer(np.ravel(vp.lambd), np.ravel(vp.sigma)),
            np.ravel(vp.w))


def snap(vp, gp):
    out = [np.copy(a) for a in (vp.mu, vp.sigma, vp.lambd, vp.w, vp.eta)]
    out += [np.copy(gp.X), np.copy(gp.y)]
    for p in gp.posteriors:
        out += [np.copy(p.hyp), np.copy(p.alpha), np.copy(p.L),
                np.copy(p.sW)]
    return out


def same(a, b):
    return len(a) == len(b) and all(
        np.array_equal(x, y) for x, y in zip(a, b)
    )


def setup(c, t):
    vp, gp = gen.build_vp(c["vp"]), gpref.build(c["gp"])
    refs = [gpref.Ref(c["gp"], h) for h in c["gp"]["hyps"]]
    # error of either solution of the linear system
    tol = 1e-9 + 1e-14 * max(r.cond for r in refs)
    return vp, gp, refs, tol


def value(c, t):
    from pyvbmc.vbmc.variational_optimization import _gp_log_joint

    vp, gp, refs, tol = setup(c, t)
    K, Ns = vp.K, len(refs)
    mu, s, w = parts(vp)
    t.nontrivial(K > 1 or Ns > 1)
    t.label(c["gp"]["mean"])
    s0 = snap(vp, gp)
    avg = c["avg"]
    G, dG, varG, dvarG, ss, I, J = _gp_log_joint(
        vp, gp, False, avg, c["jac"], True, True
    )
    t.check(same(s0, snap(vp, gp)), "the posterior or surrogate changed")
    t.check(dG is None and dvarG is None, "gradient not asked for")
    Ir = np.array(
        [[gpref.comp_mean(r, mu[:, k], s[:, k]) for k in range(K)]
         for r in refs]
    )
    size = [np.abs(r.alpha).sum() * r.h["sf"] ** 2 + 10 for r in refs]
    tI = tol * max(size)
    t.close(I, Ir, "per-component expectations", rtol=1e-8, atol=tI)
    Gr = Ir @ w
    want = Gr.mean() if (avg or Ns == 1) else Gr
    t.close(G, want, "expected log joint", rtol=1e-8, atol=tI)
    Jr = np.array(
        [[[gpref.pair_cov(r, mu[:, j], s[:, j], mu[:, k], s[:, k])
           for k in range(K)] for j in range(K)] for r in refs]
    )
    sf2 = max(h["sf"] for h in c["gp"]["hyps"]) ** 2
    tJ = tol * sf2 * 10
    t.close(J, Jr, "pairwise covariances", rtol=1e-7, atol=tJ)
    t.check(np.array_equal(J, np.swapaxes(J, 1, 2)), "asymmetric")
    vr = np.array([w @ j @ w for j in Jr])
    vr = np.maximum(vr, 0)
    if avg or Ns == 1:
        sv = np.var(Gr, ddof=1) if Ns > 1 else 0.0
        want_v = vr.mean() + sv
        want_ss = sv + (np.std(vr, ddof=1) if Ns > 1 else 0.0)
        tv = 10 * tJ + 4 * tI * (1 + np.abs(Gr).max())
        t.close(np.ravel(varG), [want_v], "variance", rtol=1e-7, atol=tv)
        t.close(np.ravel(ss), [want_ss], "variance over samples",
                rtol=1e-6, atol=tv)
    else:
        t.close(varG, vr, "variances", rtol=1e-7, atol=10 * tJ)
    t.check(np.all(np.asarray(varG) >= 0), "negative variance")
    # the same numbers whatever else is requested
    o = _gp_log_joint(vp, gp, False, avg, c["jac"], True)
    t.check(len(o) == 5 and np.array_equal(o[0], G)
            and np.array_equal(o[2], varG), "value depends on separate_K")
    o = _gp_log_joint(vp, gp, False, avg, c["jac"], False)
    t.check(np.array_equal(o[0], G) and o[2] is None,
            "value depends on the variance being asked for")
    o = _gp_log_joint(vp, gp, False, avg, c["jac"], False, True)
    t.check(np.array_equal(o[0], G) and np.array_equal(o[5], I),
            "per-component values without variance")


def gradient(c, t):
    from pyvbmc.vbmc.variational_optimization import _gp_log_joint

    vp, gp, refs, tol = setup(c, t)
    D, K, Ns = vp.D, vp.K, len(refs)
    fl, jac = tuple(c["flags"]), c["jac"]
    t.nontrivial(any(fl) and (K > 1 or Ns > 1))
    v, h = coords(vp, jac)
    h = 10 * h

    def f(r):
        def g(x):
            mu = x[: D * K].reshape(K, D).T
            a, b, e = np.split(x[D * K:], [K, K + D])
            if jac:
                a, b = np.exp(a), np.exp(b)
                e = np.exp(e - e.max())
                e = e / e.sum()
            s = np.outer(b, a)
            return sum(
                e[k] * gpref.comp_mean(r, mu[:, k], s[:, k])
                for k in range(K)
            )
        return g

    s0 = snap(vp, gp)
    G, dG = _gp_log_joint(vp, gp, fl, c["avg"], jac, False)[:2]
    t.check(same(s0, snap(vp, gp)), "the posterior or surrogate changed")
    idx = blocks(fl, D, K)
    if not len(idx):
        t.check(dG is None, "gradient not asked for")
        return
    want = np.array([num_grad(f(r), v, h)[idx] for r in refs]).T
    if c["avg"] or Ns == 1:
        want = want.mean(1)
    scale = 1 + max(np.abs(r.alpha).sum() * r.h["sf"] ** 2 for r in refs)
    t.close(dG, want, "gradient", rtol=1e-5,
            atol=1e-6 * (1 + np.abs(want).max()) + 1e3 * tol * scale)


def predict(c, t):
    """Integrals of what the surrogate itself predicts (tensor grid)."""
    from pyvbmc.vbmc.variational_optimization import _gp_log_joint

    if c["vp"]["D"] > 2 or c["vp"]["K"] > 3:
        t.discard()
    # smooth enough for the rule
    g = dict(c["gp"])
    g["hyps"] = [dict(h, ell=[max(1.0, e) for e in h["ell"]])
                 for h in g["hyps"]]
    vp, gp = gen.build_vp(c["vp"]), gpref.build(g)
    D, K = vp.D, vp.K
    mu, s, w = parts(vp)
    # the trapezoidal rule converges geometrically for these widths
    x = np.linspace(-8, 8, 71)
    p = np.exp(-0.5 * x**2)
    p = p / p.sum()
    Z = np.array(np.meshgrid(*[x] * D)).reshape(D, -1).T
    P = np.prod(np.array(np.meshgrid(*[p] * D)).reshape(D, -1), axis=0)
    t.nontrivial()
    want = np.zeros(len(gp.posteriors))
    for k in range(K):
        m, _ = gp.predict(mu[:, k] + Z * s[:, k], separate_samples=True)
        want += w[k] * (P @ m)
    G = _gp_log_joint(vp, gp, False, True, True, False)[0]
    r = [gpref.Ref(g, h) for h in g["hyps"]]
    scale = 1 + max(np.abs(q.alpha).sum() * q.h["sf"] ** 2 for q in r)
    t.close(G, want.mean(), "integral of the predictions", rtol=1e-6,
            atol=1e-9 * scale)


PROPS = [
    Prop("value", case, value, 1200),
    Prop("gradient", case, gradient, 600),
    Prop("predict", case, predict, 300),
]
