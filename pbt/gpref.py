"""Surrogates: generation, construction and an independent reference."""
import numpy as np
from scipy.special import logsumexp

from pbt import gen
from pbt.gen import st


@st.composite
def gp_spec(draw, D, max_n=12, max_s=3, means=("zero", "const", "negquad"),
            hetero=None):
    """A Gaussian process with given hyperparameters and training data."""
    Ns = draw(st.integers(1, max_s))
    mean = draw(st.sampled_from(list(means)))
    het = draw(st.booleans()) if hetero is None else hetero
    hyps = []
    for _ in range(Ns):
        h = {
            "ell": draw(gen.flist(0.3, 3.0, D)),
            "sf": draw(gen.fl(0.3, 3.0)),
            # below 1e-3 the surrogate uses its low-noise representation
            "sn": draw(st.sampled_from([1e-2, 3e-2, 0.3, 5e-4, 1e-1])),
        }
        if mean != "zero":
            h["m0"] = draw(gen.fl(-3, 3))
        if mean == "negquad":
            h["xm"] = draw(gen.flist(-1.5, 1.5, D))
            h["omega"] = draw(gen.flist(0.5, 4.0, D))
        hyps.append(h)
    return {
        "D": D, "mean": mean, "hetero": het, "hyps": hyps,
        "N": draw(st.integers(1, max_n)), "seed": draw(gen.SEED),
        "spread": draw(st.sampled_from([1.0, 2.0, 3.0])),
    }


def data(s):
    r = np.random.RandomState(s["seed"] % 2**31)
    X = s["spread"] * r.uniform(-1, 1, (s["N"], s["D"]))
    y = (
        -0.5 * np.sum(X**2, 1)
        + 0.7 * np.sin(2 * X[:, 0])
        + 0.2 * r.randn(s["N"])
    )
    s2 = np.exp(r.uniform(np.log(1e-3), np.log(0.5), s["N"]))
    return X, y, (s2 if s["hetero"] else None)


def vec(s, h):
    v = list(np.log(h["ell"])) + [np.log(h["sf"]), np.log(h["sn"])]
    if s["mean"] != "zero":
        v.append(h["m0"])
    if s["mean"] == "negquad":
        v += list(h["xm"]) + list(np.log(h["omega"]))
    return np.array(v, dtype=float)


def build(s):
    import gpyreg as gpr

    mean = {
        "zero": gpr.mean_functions.ZeroMean,
        "const": gpr.mean_functions.ConstantMean,
        "negquad": gpr.mean_functions.NegativeQuadratic,
    }[s["mean"]]()
    gp = gpr.GP(
        D=s["D"],
        covariance=gpr.covariance_functions.SquaredExponential(),
        mean=mean,
        noise=gpr.noise_functions.GaussianNoise(
            constant_add=True, user_provided_add=s["hetero"]
        ),
    )
    X, y, s2 = data(s)
    hyp = np.array([vec(s, h) for h in s["hyps"]])
    gp.update(
        X_new=X, y_new=y.reshape(-1, 1),
        s2_new=None if s2 is None else s2.reshape(-1, 1), hyp=hyp,
    )
    return gp


class Ref:
    """Posterior of one hyperparameter sample by dense linear algebra."""

    def __init__(self, s, h, X=None, y=None, s2=None):
        if X is None:
            X, y, s2 = data(s)
        self.kind, self.h = s["mean"], h
        self.X, self.y = X, np.ravel(y)
        self.ell = np.asarray(h["ell"], dtype=float)
        self.sn2 = h["sn"] ** 2 + (0 if s2 is None else np.ravel(s2))
        A = self.k(X, X) + np.diag(self.sn2 * np.ones(len(X)))
        self.A = A
        self.alpha = np.linalg.solve(A, self.y - self.m(X))
        self.cond = np.linalg.cond(A)

    def m(self, X):
        h = self.h
        if self.kind == "zero":
            return np.zeros(len(X))
        o = np.full(len(X), float(h["m0"]))
        if self.kind == "negquad":
            o = o - 0.5 * np.sum(
                ((X - np.array(h["xm"])) / np.array(h["omega"])) ** 2, 1
            )
        return o

    def k(self, A, B):
        d = (A[:, None, :] - B[None, :, :]) / self.ell
        return self.h["sf"] ** 2 * np.exp(-0.5 * np.sum(d**2, 2))

    def mean(self, X):
        return self.m(X) + self.k(X, self.X) @ self.alpha

    def cov(self, A, B=None):
        B = A if B is None else B
        return self.k(A, B) - self.k(A, self.X) @ np.linalg.solve(
            self.A, self.k(self.X, B)
        )

    def var(self, X):
        return np.diag(self.cov(X))


def gauss_mean(f, mu, sd, n=2001):
    """E f(x), x ~ N(mu, sd^2), by the trapezoidal rule; f vectorised."""
    z = np.linspace(-9, 9, n)
    p = np.exp(-0.5 * z**2)
    p /= p.sum()
    return f(mu + sd * z) @ p


def kernel_means(r, mu, s):
    """E_k k(x, X_n) for x ~ N(mu, diag(s^2)), one per training point."""
    out = np.full(len(r.X), r.h["sf"] ** 2)
    for d in range(len(mu)):
        out *= gauss_mean(
            lambda x, d=d: np.exp(
                -0.5 * ((x[None, :] - r.X[:, d:d + 1]) / r.ell[d]) ** 2
            ),
            mu[d], s[d],
        )
    return out


def comp_mean(r, mu, s):
    """Integral of the surrogate's mean against N(mu, diag(s^2))."""
    out = kernel_means(r, mu, s) @ r.alpha
    h = r.h
    if r.kind != "zero":
        out += h["m0"]
    if r.kind == "negquad":
        for d in range(len(mu)):
            out -= gauss_mean(
                lambda x, d=d: 0.5 * ((x - h["xm"][d]) / h["omega"][d]) ** 2,
                mu[d], s[d],
            )
    return float(out)


def pair_cov(r, mu_j, s_j, mu_k, s_k):
    """Double integral of the surrogate's posterior covariance."""
    J = r.h["sf"] ** 2
    for d in range(len(mu_j)):
        J *= gauss_mean(
            lambda x, d=d: np.exp(-0.5 * (x / r.ell[d]) ** 2),
            mu_j[d] - mu_k[d], np.hypot(s_j[d], s_k[d]),
        )
    return float(
        J - kernel_means(r, mu_j, s_j)
        @ np.linalg.solve(r.A, kernel_means(r, mu_k, s_k))
    )


def log_mixture(mu, sigma, lambd, w, X):
    """log density of the mixture, mu (D, K), at rows of X."""
    s = np.outer(lambd, sigma)
    lp = [
        np.log(w[k]) - 0.5 * np.sum(
            ((X - mu[:, k]) / s[:, k]) ** 2
            + np.log(2 * np.pi * s[:, k] ** 2), 1
        )
        for k in range(mu.shape[1])
    ]
    return logsumexp(np.array(lp), axis=0)
