"""Independent reference computations (numpy/scipy only)."""
import numpy as np
from scipy import stats
from scipy.special import logsumexp

DIST = {
    "logit": stats.logistic(),
    "probit": stats.norm(),
    "norminv": stats.norm(),
    "student4": stats.t(4),
}


class RefTransform:
    """Coordinate-wise reference of the original -> unconstrained map.

    Bounded coordinates go through the quantile function of the transform's
    distribution; with plausible bounds, each coordinate is then centred and
    scaled so that the plausible range becomes [-1/2, 1/2]; finally the whole
    vector is rotated (u R) and divided by the scale.
    """

    def __init__(self, spec, bounds, R):
        self.lb, self.ub, plb, pub = bounds
        self.D = self.lb.shape[1]
        self.dist = DIST[spec["type"]]
        self.bounded = np.isfinite(self.lb[0]) & np.isfinite(self.ub[0])
        self.R = R if spec["rot"] is not None else np.eye(self.D)
        self.s = (
            np.array(spec["scale"])
            if spec["scale"] is not None
            else np.ones(self.D)
        )
        self.mu = np.zeros(self.D)
        self.delta = np.ones(self.D)
        if spec["center"]:
            a, b = self.raw(plb)[0], self.raw(pub)[0]
            self.mu = 0.5 * (a + b)
            self.delta = b - a

    def raw(self, x):
        y = np.array(x, dtype=float)
        for i in np.flatnonzero(self.bounded):
            w = self.ub[0, i] - self.lb[0, i]
            z = (x[:, i] - self.lb[0, i]) / w
            zc = (self.ub[0, i] - x[:, i]) / w
            y[:, i] = np.where(
                z < 0.5, self.dist.ppf(z), self.dist.isf(zc)
            )
        return y

    def direct(self, x):
        return ((self.raw(x) - self.mu) / self.delta) @ self.R / self.s

    def unroto(self, u):
        """Un-rotated, un-centred coordinates (before squashing)."""
        return ((u * self.s) @ self.R.T) * self.delta + self.mu

    def inverse(self, u):
        y = self.unroto(u)
        x = np.array(y)
        for i in np.flatnonzero(self.bounded):
            w = self.ub[0, i] - self.lb[0, i]
            x[:, i] = np.where(
                y[:, i] < 0,
                self.lb[0, i] + w * self.dist.cdf(y[:, i]),
                self.ub[0, i] - w * self.dist.sf(y[:, i]),
            )
        return x

    def log_jac(self, u):
        y = self.unroto(u)
        out = np.zeros(len(u)) + np.sum(np.log(self.delta)) + np.sum(
            np.log(self.s)
        )
        for i in np.flatnonzero(self.bounded):
            out += np.log(self.ub[0, i] - self.lb[0, i]) + self.dist.logpdf(
                y[:, i]
            )
        return out


def ref_transform(spec):
    from . import gen

    b = gen.bounds_of(spec["dims"])
    R = (
        gen.rotation(spec["rot"], len(spec["dims"]))
        if spec["rot"] is not None
        else None
    )
    return RefTransform(spec, b, R)


def mixture_logpdf(vp, u, df=np.inf):
    """log density of the mixture in the unconstrained space, shape (N,)."""
    u = np.atleast_2d(u)
    K = vp.w.size
    lam = np.ravel(vp.lambd)
    terms = []
    for k in range(K):
        sd = float(np.ravel(vp.sigma)[k]) * lam
        m = vp.mu[:, k]
        d2 = np.sum(((u - m) / sd) ** 2, axis=1)
        D = len(lam)
        if not np.isfinite(df) or df == 0:
            lp = -0.5 * d2 - 0.5 * D * np.log(2 * np.pi) - np.sum(np.log(sd))
        elif df > 0:
            lp = stats.multivariate_t(
                loc=m, shape=np.diag(sd**2), df=df
            ).logpdf(u)
            lp = np.atleast_1d(lp)
        else:
            lp = np.sum(
                stats.t(-df).logpdf((u - m) / sd) - np.log(sd), axis=1
            )
        terms.append(np.log(np.ravel(vp.w)[k]) + lp)
    return logsumexp(np.array(terms), axis=0)
