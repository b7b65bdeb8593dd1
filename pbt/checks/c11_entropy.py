"""C11: entropy of the mixture, its bound, and their gradients."""
import numpy as np
from scipy.special import logsumexp

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C11"
RULE = (
    "Cases: mixtures of 1-5 components in 1-4 dimensions, any subset of "
    "gradient parameters, with and without the log/softmax "
    "reparameterisation. Non-trivial: at least two components (one for the "
    "closed-form case) and at least one gradient requested where gradients "
    "are compared."
)
ASSUMPTIONS = [
    "Monte Carlo values are accepted within 7 standard errors",
    "true entropies come from quadrature (one and two dimensions) or an "
    "independent sample",
]


def jensen(mu, s, w):
    """-sum w_i log sum_j w_j N(mu_i; mu_j, S_i + S_j), s of shape (D, K)."""
    K = mu.shape[1]
    out = 0.0
    for i in range(K):
        v = s[:, i : i + 1] ** 2 + s**2
        lp = -0.5 * np.sum(
            (mu[:, i : i + 1] - mu) ** 2 / v + np.log(2 * np.pi * v), axis=0
        )
        out -= w[i] * logsumexp(np.log(w) + lp)
    return out


def gaussian_entropy(s):
    return 0.5 * len(s) * (1 + np.log(2 * np.pi)) + np.sum(np.log(s))


def bound_fun(D, K, jac):
    """The bound as a function of (mu, sigma-ish, lambda-ish, w-ish)."""

    def f(v):
        mu = v[: D * K].reshape(K, D).T
        a, b, c = np.split(v[D * K :], [K, K + D])
        if jac:
            a, b = np.exp(a), np.exp(b)
            c = np.exp(c - c.max())
            c = c / c.sum()
        s = np.outer(b, a)
        if K == 1:
            return gaussian_entropy(s[:, 0])
        return jensen(mu, s, c)

    return f


def num_grad(f, v, h):
    g = np.zeros(len(v))
    for i in range(len(v)):
        e = np.zeros(len(v))
        e[i] = h[i]
        g[i] = (
            8 * (f(v + e) - f(v - e)) - (f(v + 2 * e) - f(v - 2 * e))
        ) / (12 * h[i])
    return g


def coords(vp, jac):
    D, K = vp.D, vp.K
    sg, lam, w = np.ravel(vp.sigma), np.ravel(vp.lambd), np.ravel(vp.w)
    mu = vp.mu.ravel(order="F")
    smin = sg.min() * lam.min()
    if jac:
        v = np.concatenate([mu, np.log(sg), np.log(lam), np.log(w)])
        h = np.concatenate(
            [np.full(D * K, 1e-3 * smin), np.full(K + D + K, 1e-3)]
        )
    else:
        v = np.concatenate([mu, sg, lam, w])
        h = np.concatenate(
            [np.full(D * K, 1e-3 * smin), 1e-3 * sg, 1e-3 * lam, 1e-3 * w]
        )
    return v, h


def blocks(flags, D, K):
    n = [D * K, K, D, K]
    keep, pos = [], 0
    for f, m in zip(flags, n):
        if f:
            keep += list(range(pos, pos + m))
        pos += m
    return np.array(keep, dtype=int)


def flags_st():
    return st.lists(st.booleans(), min_size=4, max_size=4)


def case():
    return gen.obj(
        vp=gen.vp_spec(tr=False),
        flags=flags_st(),
        jac=st.booleans(),
    )


def snap(vp):
    return [np.copy(a) for a in (vp.mu, vp.sigma, vp.lambd, vp.w, vp.eta)]


def unchanged(t, vp, s0):
    t.check(
        all(np.array_equal(a, b) for a, b in zip(s0, snap(vp))),
        "the posterior was modified",
    )


def lower(c, t):
    from pyvbmc.entropy import entlb_vbmc

    vp = gen.build_vp(c["vp"])
    D, K = vp.D, vp.K
    fl = tuple(c["flags"])
    s0 = snap(vp)
    H, dH = entlb_vbmc(vp, fl, c["jac"])
    unchanged(t, vp, s0)
    f = bound_fun(D, K, c["jac"])
    v, h = coords(vp, c["jac"])
    want = f(v)
    t.nontrivial(K > 1 or any(fl))
    t.check(np.ndim(H) == 0, f"value of shape {np.shape(H)}")
    t.check(
        abs(H - want) <= 1e-9 * (1 + abs(want)),
        lambda: f"entropy bound {H}, reference {want}",
    )
    idx = blocks(fl, D, K)
    t.check(
        np.shape(dH) == (len(idx),),
        f"gradient of shape {np.shape(dH)} for flags {fl}",
    )
    if len(idx):
        g = num_grad(f, v, h)[idx]
        tol = 1e-5 * (1 + np.abs(g).max())
        t.check(
            np.all(np.abs(dH - g) <= tol),
            lambda: f"gradient {np.asarray(dH).tolist()}, by differences "
            f"{g.tolist()} (flags {fl}, jacobian {c['jac']})",
        )
    # flags only select: values do not change with them
    H2, dH2 = entlb_vbmc(vp, (True,) * 4, c["jac"])
    t.close(H2, H, "value with all gradients", 1e-12, 1e-12)
    t.close(dH, dH2[idx], "selected gradient", 1e-10, 1e-12)


def exact_entropy_grid(mu, s, w):
    """Quadrature of -q log q on a grid (one or two dimensions)."""
    D, K = mu.shape
    axes = []
    for d in range(D):
        lo = (mu[d] - 9 * s[d]).min()
        hi = (mu[d] + 9 * s[d]).max()
        n = int(min(max((hi - lo) / (0.25 * s[d].min()), 64), 6000 / D**4))
        axes.append(np.linspace(lo, hi, n))
    fine = all(
        a[1] - a[0] <= 0.5 * s[d].min() for d, a in enumerate(axes)
    )
    comp = []
    for d in range(D):
        comp.append(
            -0.5 * ((axes[d][:, None] - mu[d]) / s[d]) ** 2
            - np.log(s[d])
            - 0.5 * np.log(2 * np.pi)
        )
    cell = np.prod([a[1] - a[0] for a in axes])
    lw = np.log(w)
    if D == 1:
        lq = logsumexp(comp[0] + lw, axis=1)
    else:
        lq = logsumexp(
            comp[0][:, None, :] + comp[1][None, :, :] + lw, axis=2
        )
    q = np.exp(lq)
    return -np.sum(q * np.where(q > 0, lq, 0.0)) * cell, fine


def below(c, t):
    """The bound never exceeds the true entropy."""
    from pyvbmc.entropy import entlb_vbmc

    vp = gen.build_vp(c["vp"])
    D, K = vp.D, vp.K
    sg, lam = np.ravel(vp.sigma), np.ravel(vp.lambd)
    H, _ = entlb_vbmc(vp, (False,) * 4)
    t.nontrivial(K > 1)
    if D <= 2:
        true, fine = exact_entropy_grid(
            vp.mu, np.outer(lam, sg), np.ravel(vp.w)
        )
        if not fine:
            t.discard()
        se = 1e-3
    else:
        rs = np.random.RandomState(c["seed"])
        k = rs.choice(K, size=20000, p=np.ravel(vp.w))
        u = vp.mu.T[k] + rs.randn(len(k), D) * sg[k][:, None] * lam
        z = -ref.mixture_logpdf(vp, u)
        true, se = z.mean(), 7 * z.std() / np.sqrt(len(z))
    t.check(
        H <= true + se, lambda: f"bound {H} above the entropy {true} +- {se}"
    )
    if K == 1:
        t.check(
            abs(H - true) <= se + 1e-3,
            f"single component: {H}, entropy {true}",
        )


def below_case():
    return gen.obj(vp=gen.vp_spec(tr=False), seed=gen.SEED)


# -- Monte Carlo entropy ---------------------------------------------------


def mc_case():
    return gen.obj(
        vp=gen.vp_spec(tr=False, max_d=2, max_k=4),
        flags=flags_st(),
        jac=st.booleans(),
    )


def mc_gradient(c, t):
    """Mean and gradient of repeated estimates against quadrature."""
    from pyvbmc.entropy import entmc_vbmc

    vp = gen.build_vp(c["vp"])
    D, K = vp.D, vp.K
    fl = tuple(c["flags"])
    jac = c["jac"]
    v, h = coords(vp, jac)

    def f(x):
        mu = x[: D * K].reshape(K, D).T
        a, b, w = np.split(x[D * K :], [K, K + D])
        if jac:
            a, b = np.exp(a), np.exp(b)
            w = np.exp(w - w.max())
            w = w / w.sum()
        return exact_entropy_grid(mu, np.outer(b, a), w)

    want, fine = f(v)
    if not fine:
        t.discard()
    t.nontrivial(any(fl))
    R, Ns = 40, 120
    s0 = snap(vp)
    hs, gs = [], []
    for _ in range(R):
        H, dH = entmc_vbmc(vp, Ns, fl, jac)
        hs.append(float(H))
        gs.append(np.array(dH))
    unchanged(t, vp, s0)
    hs, gs = np.array(hs), np.array(gs)
    idx = blocks(fl, D, K)
    t.check(gs.shape == (R, len(idx)), f"gradient shape {gs.shape[1:]}")
    se = hs.std(ddof=1) / np.sqrt(R)
    t.check(
        abs(hs.mean() - want) < 7 * se + 2e-3,
        lambda: f"mean Monte Carlo entropy {hs.mean()} +- {se}, true {want}",
    )
    if not len(idx):
        return
    # the value is averaged over the free parameters as given, so without
    # the reparameterisation the weights are free of their normalisation
    g = num_grad(lambda x: f(x)[0], v, 5 * h)[idx]
    sg = gs.std(axis=0, ddof=1) / np.sqrt(R)
    lim = 8 * sg + 5e-3 * (1 + np.abs(g).max())
    t.check(
        np.all(np.abs(gs.mean(axis=0) - g) < lim),
        lambda: f"mean gradient {gs.mean(axis=0).tolist()} +- {sg.tolist()}, "
        f"true {g.tolist()} (flags {fl}, jacobian {jac})",
    )


def mc_value_case():
    return gen.obj(
        vp=gen.vp_spec(tr=False),
        Ns=st.integers(1, 41),
        seed=gen.SEED,
        flags=flags_st(),
    )


def mc_value(c, t):
    from pyvbmc.entropy import entmc_vbmc

    vp = gen.build_vp(c["vp"])
    D, K = vp.D, vp.K
    t.nontrivial(K > 1)
    fl = tuple(c["flags"])
    np.random.seed(c["seed"])
    H1, g1 = entmc_vbmc(vp, c["Ns"], fl, True)
    np.random.seed(c["seed"])
    H2, g2 = entmc_vbmc(vp, c["Ns"], (True,) * 4, True)
    t.close(H2, H1, "value depends on the gradients asked for", 1e-10, 1e-12)
    t.close(g1, g2[blocks(fl, D, K)], "selected gradient", 1e-9, 1e-12)
    H, g0 = entmc_vbmc(vp, 6000, (False,) * 4)
    t.check(np.size(g0) == 0, "gradient returned although none was asked for")
    rs = np.random.RandomState(c["seed"])
    sg, lam = np.ravel(vp.sigma), np.ravel(vp.lambd)
    k = rs.choice(K, size=30000, p=np.ravel(vp.w))
    u = vp.mu.T[k] + rs.randn(len(k), D) * sg[k][:, None] * lam
    z = -ref.mixture_logpdf(vp, u)
    lim = 7 * z.std() * np.sqrt(1 / len(z) + 1 / 3000) + 1e-6
    t.check(
        abs(float(H) - z.mean()) < lim,
        lambda: f"Monte Carlo entropy {H}, reference {z.mean()} +- {lim}",
    )


PROPS = [
    Prop("lower-bound", case, lower, 3000),
    Prop("below", below_case, below, 1200),
    Prop("mc-value", mc_value_case, mc_value, 800),
    Prop("mc-gradient", mc_case, mc_gradient, 300),
]
