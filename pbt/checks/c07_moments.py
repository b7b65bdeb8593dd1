"""C07: moments are the mixture's mean and covariance."""
import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C07"
RULE = (
    "Cases: mixtures over transformed spaces (C05); closed-form moments are "
    "compared with the mixture's, Monte Carlo moments (1e4 draws) with an "
    "independent sample of the reference mixture pushed through the "
    "reference map. Non-trivial: more than one component or dimension."
)
ASSUMPTIONS = [
    "Monte Carlo moments are accepted within 7 standard errors estimated "
    "from the reference sample",
]


def u_case():
    return gen.obj(vp=gen.vp_spec(), cov=st.booleans())


def ref_moments(vp):
    lam = np.ravel(vp.lambd)
    w, sg = np.ravel(vp.w), np.ravel(vp.sigma)
    m = vp.mu @ w
    C = np.diag(lam**2) * np.sum(w * sg**2)
    d = vp.mu - m[:, None]
    return m, C + (d * w) @ d.T


def u_space(c, t):
    vp = gen.build_vp(c["vp"])
    D = vp.D
    t.nontrivial(vp.K > 1 or D > 1)
    before = [np.copy(a) for a in (vp.mu, vp.sigma, vp.lambd, vp.w)]
    m0, C0 = ref_moments(vp)
    m, C = vp.moments(orig_flag=False, cov_flag=True)
    m2 = vp.moments(orig_flag=False)
    t.check(
        all(
            np.array_equal(a, b)
            for a, b in zip(before, (vp.mu, vp.sigma, vp.lambd, vp.w))
        ),
        "moments modified the posterior",
    )
    t.check(m.shape == m2.shape == (1, D), f"mean shape {m.shape}")
    t.close(m[0], m0, "mean", 1e-10, 1e-10)
    t.close(m2[0], m0, "mean without covariance", 1e-10, 1e-10)
    t.close(C, C0, "covariance", 1e-9, 1e-10)
    t.check(np.allclose(C, C.T, atol=1e-12), "asymmetric covariance")
    t.check(np.linalg.eigvalsh(C).min() > 0, "covariance not positive")


def o_case():
    return gen.obj(vp=gen.vp_spec(max_d=3), seed=gen.SEED)


def o_space(c, t):
    vp = gen.build_vp(c["vp"])
    D, N = vp.D, 10000
    r = ref.ref_transform(c["vp"]["tr"])
    t.nontrivial()
    rs = np.random.RandomState(c["seed"])
    w = np.ravel(vp.w)
    k = rs.choice(vp.K, size=40000, p=w)
    u = vp.mu.T[k] + rs.randn(len(k), D) * np.ravel(vp.sigma)[
        k
    ][:, None] * np.ravel(vp.lambd)
    x = r.inverse(u)
    m, C = vp.moments(N, orig_flag=True, cov_flag=True)
    m1 = vp.moments(N, orig_flag=True)
    t.check(m.shape == m1.shape == (1, D), f"mean shape {m.shape}")
    t.check(C.shape == (D, D), f"covariance shape {C.shape}")
    sd = x.std(axis=0)
    n_eff = 1 / (1 / N + 1 / len(x))
    tol = 7 * sd / np.sqrt(n_eff) + 1e-9 * (1e-9 + np.abs(x).max(axis=0))
    for mm in (m, m1):
        t.check(
            np.all(np.abs(mm[0] - x.mean(axis=0)) < tol),
            lambda: f"mean {mm[0].tolist()}, reference "
            f"{x.mean(axis=0).tolist()} +- {tol.tolist()}",
        )
    t.check(np.allclose(C, C.T, rtol=1e-9), "asymmetric covariance")
    ev = np.linalg.eigvalsh(C / np.outer(sd, sd))
    t.check(ev.min() > -1e-9, "covariance not positive semi-definite")
    z = (x - x.mean(axis=0)) / sd
    for i in range(D):
        for j in range(i + 1):
            p = z[:, i] * z[:, j]
            lim = 7 * p.std() / np.sqrt(n_eff) + 1e-6
            got = C[i, j] / (sd[i] * sd[j])
            t.check(
                abs(got - p.mean()) < lim,
                lambda: f"covariance[{i},{j}] {got}, reference {p.mean()} "
                f"+- {lim} (in units of the standard deviations)",
            )


PROPS = [
    Prop("u-space", u_case, u_space, 3000),
    Prop("o-space", o_case, o_space, 1600),
]
