"""C15: prior samples, products and conversions agree with the density."""
import numpy as np
from scipy import stats as ss

from pbt import gen, pref
from pbt.core import Prop
from pbt.gen import fl, st

PROPERTY = "C15"
RULE = (
    "Cases: a built-in prior, a product of up to four marginals (built-in, "
    "frozen SciPy distributions, user functions, one-dimensional products), "
    "or an object handed to the conversion. Non-trivial: at least 500 "
    "samples for distribution tests, at least two marginals for products, "
    "any accepted or rejected object for conversions."
)
ASSUMPTIONS = [
    "distribution tests are Kolmogorov-Smirnov and correlation tests "
    "rejecting below 1e-11",
]

UNI = ["norm", "uniform", "beta", "lognorm", "gamma", "t", "expon"]


@st.composite
def scipy_uni(draw):
    return {
        "k": "scipy",
        "name": draw(st.sampled_from(UNI)),
        "loc": draw(fl(-10, 10)),
        "scale": 10.0 ** draw(st.integers(-2, 2)) * draw(fl(0.5, 2)),
        "a": draw(fl(0.7, 4)),
        "b": draw(fl(0.7, 4)),
    }


def build_uni(s):
    shape = {
        "beta": (s["a"], s["b"]),
        "lognorm": (0.3 * s["a"],),
        "gamma": (s["a"],),
        "t": (2 + s["a"],),
    }.get(s["name"], ())
    return getattr(ss, s["name"])(*shape, loc=s["loc"], scale=s["scale"])


def builtin():
    return pref.prior_spec(max_d=1).map(lambda s: {"k": "own", "s": s})


def user():
    return gen.obj(
        k=st.just("user"),
        m=fl(-3, 3),
        s=fl(0.1, 3),
        out=st.sampled_from(["float", "array"]),
    )


def leaf():
    return st.one_of(builtin(), scipy_uni(), scipy_uni(), user())


def marginal():
    return st.one_of(
        leaf(), leaf().map(lambda s: {"k": "nest", "s": s})
    )


def build_marginal(s, wrap=False):
    """(object, reference logpdf, reference cdf, support)."""
    from pyvbmc.priors import Product, SciPy, UserFunction

    if s["k"] == "own":
        m = pref.marginals(s["s"])[0]
        return pref.build(s["s"]), m.logpdf, m.cdf, m.support, m.at_edge
    if s["k"] == "scipy":
        d = build_uni(s)
        lo, hi = d.support()

        def edge(x):
            return (np.abs(x - lo) < 1e-9 * (1 + abs(lo))) | (
                np.abs(x - hi) < 1e-9 * (1 + abs(hi))
            )

        return SciPy(d) if wrap else d, d.logpdf, d.cdf, (lo, hi), edge
    if s["k"] == "user":
        m, sd = s["m"], s["s"]
        d = ss.norm(m, sd)

        def lp(x):
            # one point, as documented
            if np.ndim(x) != 1 or len(x) != 1:
                raise ValueError("user function called on a batch")
            v = -0.5 * ((x[0] - m) / sd) ** 2 - np.log(
                sd * np.sqrt(2 * np.pi)
            )
            return float(v) if s["out"] == "float" else np.array([v])

        def smp(n):
            return np.random.normal(m, sd, size=(n, 1))

        p = UserFunction(lp, smp, D=1)
        return (
            p, d.logpdf, d.cdf, (-np.inf, np.inf),
            lambda x: np.zeros(np.shape(x), bool),
        )
    inner = build_marginal(s["s"])
    return (Product([inner[0]]),) + inner[1:]


def far_points(cdf_sup, rs, n):
    lo, hi = cdf_sup
    if not np.isfinite(lo):
        lo = -30.0 if not np.isfinite(hi) else hi - 30.0
    if not np.isfinite(hi):
        hi = lo + 30.0
    w = hi - lo
    return rs.uniform(lo - 0.2 * w, hi + 0.2 * w, n)


def product_case():
    return gen.obj(
        ms=st.lists(marginal(), min_size=1, max_size=4),
        seed=gen.SEED,
        via=st.sampled_from(["product", "convert"]),
        wrap=st.booleans(),
    )


def ks(t, x, cdf, what):
    p = ss.kstest(x, cdf).pvalue
    t.check(p > 1e-11, f"samples of {what}: KS p = {p:.2g}")


def independent(t, X, what):
    n, D = X.shape
    if D < 2:
        return
    R = np.array([ss.rankdata(X[:, d]) for d in range(D)])
    C = np.corrcoef(R)
    z = np.abs(C[np.triu_indices(D, 1)]) * np.sqrt(n)
    t.check(z.max() < 7.5, f"coordinates of {what} correlated (z={z.max()})")


def product(c, t):
    from pyvbmc.priors import Product, convert_to_prior

    parts = [build_marginal(s, c["wrap"]) for s in c["ms"]]
    objs = [p[0] for p in parts]
    keep = list(objs)
    D = len(objs)
    P = Product(objs) if c["via"] == "product" else convert_to_prior(objs)
    t.check(
        len(objs) == D and all(a is b for a, b in zip(objs, keep)),
        "the list of marginals was modified",
    )
    t.check(P.D == D, f"dimension {P.D} of a product of {D}")
    t.nontrivial(D > 1)
    rs = np.random.RandomState(c["seed"])
    n = 12
    X = np.column_stack([far_points(p[3], rs, n) for p in parts])
    for d, p in enumerate(parts):  # mix in typical points
        lo, hi = p[3]
        k = rs.rand(n) < 0.6
        for i in np.where(k)[0]:
            q = _quantile(p[2], rs.uniform(0.02, 0.98), lo, hi)
            X[i, d] = q
    with np.errstate(all="ignore"):
        want = sum(p[1](X[:, d]) for d, p in enumerate(parts))
    edge = np.zeros(n, bool)
    for d, p in enumerate(parts):
        edge |= p[4](X[:, d])
    for kd in (True, False):
        got = P.log_pdf(X, keepdims=kd)
        t.check(
            np.shape(got) == ((n, 1) if kd else (n,)),
            f"product log density of shape {np.shape(got)}",
        )
        g = np.ravel(got)
        ok = edge | (g == want) | np.isclose(g, want, rtol=1e-8, atol=1e-8)
        t.check(
            np.all(ok),
            lambda: f"product log density {g.tolist()}, sum of marginals "
            f"{want.tolist()}",
        )
    one = P.log_pdf(X[0])
    t.check(
        np.shape(one) == (1, 1)
        and (one[0, 0] == np.ravel(P.log_pdf(X))[0]),
        "single point differs from the batch",
    )
    lb, ub = P.support()
    t.check(
        np.shape(lb) == (D,) and np.shape(ub) == (D,), "support shapes"
    )
    for d, p in enumerate(parts):
        t.check(
            np.isclose(lb[d], p[3][0], rtol=1e-12)
            and np.isclose(ub[d], p[3][1], rtol=1e-12),
            lambda: f"support [{lb[d]}, {ub[d]}] of marginal {d}, expected "
            f"{p[3]}",
        )
    S = P.sample(800)
    t.check(np.shape(S) == (800, D), f"sample shape {np.shape(S)}")
    for d, p in enumerate(parts):
        t.check(
            np.all((S[:, d] >= lb[d]) & (S[:, d] <= ub[d])),
            f"sample outside the support (coordinate {d})",
        )
        ks(t, S[:, d], p[2], f"marginal {d} ({c['ms'][d]['k']})")
    independent(t, S, "the product")


def _quantile(cdf, q, lo, hi):
    a = lo if np.isfinite(lo) else -1e3
    b = hi if np.isfinite(hi) else max(1e3, a + 1e4)
    for _ in range(200):
        m = 0.5 * (a + b)
        if cdf(m) < q:
            a = m
        else:
            b = m
    return 0.5 * (a + b)


def sample_case():
    return gen.obj(
        prior=pref.prior_spec(),
        n=st.sampled_from([1, 2, 7, 2000, 2000, 2000, 2000]),
    )


def sample(c, t):
    s = c["prior"]
    p = pref.build(s)
    m = pref.marginals(s)
    n, D = c["n"], len(m)
    before = [np.copy(v) for v in pref.args(s)]
    X = p.sample(n)
    t.check(np.shape(X) == (n, D), f"sample shape {np.shape(X)}")
    lp = np.ravel(p.log_pdf(X))
    t.check(
        np.all(lp > -np.inf) or n * D > 1500 and np.mean(lp > -np.inf) > 0.999,
        "sample with zero density",
    )
    for d in range(D):
        lo, hi = m[d].support
        t.check(
            np.all((X[:, d] >= lo) & (X[:, d] <= hi)),
            f"{s['kind']} sample outside the support",
        )
        if n >= 500:
            ks(t, X[:, d], m[d].cdf, s["kind"])
    t.nontrivial(n >= 500)
    if n >= 500:
        independent(t, X, s["kind"])
        t.check(len(np.unique(X[:, 0])) > 0.98 * n, "repeated samples")
        # a second request gives new points
        t.check(
            not np.array_equal(X, p.sample(n)), "samples repeat on request"
        )
    for a, b in zip(before, pref.args(s)):
        t.close(b, a, "parameters")


def multi_case():
    return gen.obj(
        D=st.integers(1, 4),
        seed=gen.SEED,
        dist=st.sampled_from(["normal", "t"]),
        n=st.sampled_from([1, 3, 1500]),
        df=fl(2.5, 20),
        as_prior=st.booleans(),
    )


def multivariate(c, t):
    from pyvbmc.priors import SciPy, convert_to_prior

    rs = np.random.RandomState(c["seed"])
    D = c["D"]
    A = rs.randn(D, D)
    C = A @ A.T + 0.3 * np.eye(D)
    mu = 3 * rs.randn(D)
    if c["dist"] == "normal":
        d = ss.multivariate_normal(mu, C)
    else:
        d = ss.multivariate_t(mu, C, df=c["df"])
    p = SciPy(d) if c["as_prior"] else convert_to_prior(d)
    t.check(p.D == D, f"dimension {p.D}")
    X = mu + 3 * rs.randn(9, D)
    L = np.linalg.cholesky(C)
    z = np.linalg.solve(L, (X - mu).T)
    r2 = np.sum(z**2, axis=0)
    ld = np.sum(np.log(np.diag(L)))
    if c["dist"] == "normal":
        want = -0.5 * r2 - ld - 0.5 * D * np.log(2 * np.pi)
    else:
        from scipy.special import gammaln

        v = c["df"]
        want = (
            gammaln((v + D) / 2)
            - gammaln(v / 2)
            - 0.5 * D * np.log(v * np.pi)
            - ld
            - 0.5 * (v + D) * np.log1p(r2 / v)
        )
    t.close(np.ravel(p.log_pdf(X)), want, "log density", 1e-8, 1e-8)
    t.close(p.log_pdf(X[0]), want[:1, None], "one point", 1e-8, 1e-8)
    S = p.sample(c["n"])
    t.check(np.shape(S) == (c["n"], D), f"sample shape {np.shape(S)}")
    t.nontrivial(c["n"] > 100)
    if c["n"] > 100:
        Z = np.linalg.solve(L, (S - mu).T)
        ref = ss.norm() if c["dist"] == "normal" else ss.t(c["df"])
        for k in range(D):
            ks(t, Z[k], ref.cdf, "whitened " + c["dist"])
    lb, ub = p.support()
    t.check(
        np.shape(lb) == (D,) and np.all(lb == -np.inf)
        and np.shape(ub) == (D,) and np.all(ub == np.inf), "support"
    )


def convert_case():
    return gen.obj(
        what=st.sampled_from(
            ["own", "log", "log+sample", "sample", "user", "func", "num",
             "str", "generic", "discrete", "badlist", "tuple", "multi-marg",
             "conflict-log", "conflict-sample", "same-log", "none",
             "badlog", "badsample", "type"]
        ),
        prior=pref.prior_spec(),
        uni=scipy_uni(),
        D=st.one_of(st.none(), st.integers(1, 4)),
    )


def convert(c, t):
    from pyvbmc.priors import (
        Prior, Product, SciPy, UniformBox, UserFunction, convert_to_prior,
    )

    w = c["what"]
    own = pref.build(c["prior"])
    t.nontrivial()
    t.label(w)

    def lp(x):
        return -float(np.sum(np.asarray(x) ** 2))

    def smp(n):
        return np.zeros((n, c["D"] or 1))

    if w == "own":
        t.check(convert_to_prior(own) is own, "prior replaced")
        t.check(convert_to_prior(own, D=own.D) is own, "prior replaced")
    elif w in ("log", "log+sample", "sample"):
        p = convert_to_prior(
            log_prior=None if w == "sample" else lp,
            sample_prior=None if w == "log" else smp,
            D=c["D"],
        )
        t.check(isinstance(p, Prior) and p.D == c["D"], "not a prior")
        if w != "sample":
            x = np.array([0.5, -1.5])
            t.check(p.log_pdf(x) == lp(x), "log density changed")
            t.check(np.isclose(p.pdf(x), np.exp(lp(x))), "density changed")
        else:
            t.check(p.log_pdf is None, "log density invented")
        if w != "log":
            t.check(np.shape(p.sample(3)) == (3, c["D"] or 1), "sampler")
    elif w == "user":
        u = UserFunction(lp, smp, D=2)
        t.check(convert_to_prior(u) is u, "prior replaced")
    elif w == "same-log":
        p = convert_to_prior(own, own.log_pdf, own.sample)
        t.check(p is own, "prior replaced")
    elif w == "conflict-log":
        t.raises(ValueError, lambda: convert_to_prior(own, lp), w)
        t.raises(
            ValueError, lambda: convert_to_prior([own], lp)
            if own.D == 1 else convert_to_prior(own, lp), w
        )
    elif w == "conflict-sample":
        t.raises(
            ValueError, lambda: convert_to_prior(own, sample_prior=smp), w
        )
    elif w == "badlist":
        for bad in (1.0, "x", lp, None, ss.norm, ss.poisson(2.0)):
            t.raises(
                TypeError,
                lambda b=bad: convert_to_prior([build_uni(c["uni"]), b]),
                f"marginal {bad!r}",
            )
    elif w == "multi-marg":
        bad = UniformBox(np.zeros(2), np.ones(2))
        t.raises(
            ValueError,
            lambda: Product([build_uni(c["uni"]), bad]), "2-D marginal",
        )
        t.raises(
            ValueError,
            lambda: Product([ss.multivariate_normal(np.zeros(2))]),
            "2-D marginal",
        )
    elif w == "tuple":
        t.raises(TypeError, lambda: Product((build_uni(c["uni"]),)), w)
        t.raises(
            TypeError, lambda: convert_to_prior((build_uni(c["uni"]),)), w
        )
    elif w == "badlog":
        t.raises(TypeError, lambda: UserFunction(1.0), w)
        t.raises(TypeError, lambda: convert_to_prior(None, 1.0), w)
    elif w == "badsample":
        t.raises(TypeError, lambda: UserFunction(lp, 1.0), w)
        t.raises(TypeError, lambda: convert_to_prior(None, lp, 1.0), w)
    else:
        bad = {
            "func": lp, "num": 1.5, "str": "uniform", "generic": ss.norm,
            "discrete": ss.poisson(3.0), "none": None, "type": UniformBox,
        }[w]
        t.raises(TypeError, lambda: convert_to_prior(bad), w)
        t.raises(
            (TypeError, AttributeError) if bad is None else TypeError,
            lambda: SciPy(bad), w
        )


PROPS = [
    Prop("product", product_case, product, 1000),
    Prop("sample", sample_case, sample, 1500),
    Prop("multivariate", multi_case, multivariate, 600),
    Prop("convert", convert_case, convert, 1200),
]
