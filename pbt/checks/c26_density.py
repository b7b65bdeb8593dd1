"""C26: one-dimensional density estimates and high-density selection."""
import math

import numpy as np
from scipy import stats

from pbt import gen
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C26"
TECHNIQUE = "property-based testing against a direct kernel sum and metamorphic relations"
RULE = (
    "Cases: samples of 2-600 points (Gaussian, bimodal, uniform, skewed, "
    "discrete, heavy-tailed) at locations and scales over ten orders of "
    "magnitude, row / column / flat shape, mesh sizes 1-4096 including "
    "non-powers of two, default and given bounds (inside and outside the "
    "data); large samples from known densities; score arrays with ties for "
    "the selection. Non-trivial: at least 10 distinct samples, or a "
    "selection that keeps some but not all points."
)
ASSUMPTIONS = [
    "at least two distinct samples (the bandwidth of a constant sample is "
    "undefined)",
    "samples are compared with the kernel sum on the binned data, so binning "
    "is not counted as an error",
]
KIND = ["normal", "bimodal", "uniform", "expon", "discrete", "student",
        "few"]


def draw_samples(kind, n, rs):
    if kind == "normal":
        return rs.randn(n)
    if kind == "bimodal":
        z = rs.rand(n) < 0.3
        return np.where(z, rs.randn(n) * 0.2 - 4, rs.randn(n) + 2)
    if kind == "uniform":
        return rs.rand(n)
    if kind == "expon":
        return rs.exponential(size=n)
    if kind == "discrete":
        return rs.randint(0, 6, size=n).astype(float)
    if kind == "student":
        return rs.standard_t(3, size=n)
    return rs.choice([0.0, 1.0, 1.5], size=n)


def case():
    return gen.obj(
        kind=st.sampled_from(KIND),
        N=st.one_of(st.integers(2, 40), st.integers(40, 600)),
        seed=gen.SEED,
        loc=st.sampled_from([0.0, 0.0, 1.0, -30.0, 1e4]),
        scale=st.sampled_from([1.0, 1.0, 1e-3, 50.0, 1e6]),
        n=st.one_of(
            st.sampled_from([16, 64, 128, 256, 1024, 4096]),
            st.integers(8, 700),
        ),
        lo=st.one_of(st.none(), gen.fl(-0.5, 0.3)),
        hi=st.one_of(st.none(), gen.fl(0.7, 1.5)),
        shape=st.sampled_from(["flat", "col", "row"]),
        perm=gen.SEED,
        shift=gen.fl(-3, 3),
        fac=st.sampled_from([0.25, 2.0, 8.0]),
    )


def kernel_sum(centres, weights, x, bw, lo, hi):
    """Gaussian kernel sum with reflection at both ends."""
    L = hi - lo
    out = np.zeros(x.size)
    R = int(math.ceil(8 * bw / L / 2)) + 2
    for r in range(-R, R + 1):
        for c in (centres + 2 * r * L, 2 * lo - centres + 2 * r * L):
            z = (x[:, None] - c[None, :]) / bw
            out += np.exp(-0.5 * z**2) @ weights
    return out / (bw * math.sqrt(2 * math.pi))


def kde(c, t):
    from pyvbmc.stats import kde_1d

    rs = np.random.RandomState(c["seed"])
    x = draw_samples(c["kind"], c["N"], rs) * c["scale"] + c["loc"]
    if np.unique(x).size < 2 or np.ptp(x) < 1e-6 * np.abs(x).max():
        t.discard()
    iqr = np.quantile(x, 0.75) - np.quantile(x, 0.25)
    if iqr == 0:
        t.discard()
    mn, mx = x.min(), x.max()
    lo = None if c["lo"] is None else mn + c["lo"] * (mx - mn)
    hi = None if c["hi"] is None else mn + c["hi"] * (mx - mn)
    shaped = {"flat": x, "col": x[:, None], "row": x[None, :]}[c["shape"]]
    keep = shaped.copy()
    inside = x[
        (x >= (mn - 1 if lo is None else lo))
        & (x <= (mx + 1 if hi is None else hi))
    ]
    if inside.size < 2 or np.unique(inside).size < 2:
        t.discard()
    d, m, bw = kde_1d(shaped, c["n"], lo, hi)
    t.check(np.array_equal(shaped, keep), "samples modified")
    t.nontrivial(np.unique(x).size >= 10)
    n = 2 ** math.ceil(math.log2(c["n"]))
    t.check(d.shape == (n,) and m.shape == (n,), "shape of the result")
    t.check(np.all(np.isfinite(d)) and np.all(d >= 0), "negative density")
    bw = float(np.ravel(bw)[0])
    t.check(bw > 0 and math.isfinite(bw), "bandwidth")
    dx = m[1] - m[0]
    t.check(np.allclose(np.diff(m), dx, rtol=1e-6), "mesh not uniform")
    L = m[-1] - m[0]
    t.close(m[0], mn - 0.1 * (mx - mn) if lo is None else lo,
            "lower end of the mesh", atol=1e-9 * L)
    t.close(m[-1], mx + 0.1 * (mx - mn) if hi is None else hi,
            "upper end of the mesh", atol=1e-9 * L)
    mass = float(np.sum(d) * dx)
    mass *= (n - 1) / n
    # a kernel narrower than the mesh rings; clipping the ringing at zero
    # adds some mass
    slack = 1e-6 if bw > 2 * L / n else (0.02 if bw > L / n else 0.3)
    t.check(-1e-6 < mass - 1 < slack, f"total mass {mass!r}")
    # against a direct kernel sum on the binned sample: cell j of the
    # reflected interval is centred at (j + 1/2) L/n
    edges = m[0] + (np.arange(n + 1) - 0.5) * dx
    if np.min(np.abs((x[:, None] - edges[None, :]))) > 1e-7 * L:
        j = np.round((inside - m[0]) / dx).astype(int)
        wts = np.bincount(j, minlength=n) / inside.size
        nz = wts > 0
        cells = m[0] + (np.arange(n) + 0.5) * L / n
        if bw < 3 * L:
            ref = kernel_sum(cells[nz], wts[nz], cells, bw, m[0], m[-1])
            # the cosine series is truncated at n terms
            if bw > 2.5 * L / n:
                t.label("kernel-sum")
                t.close(d, ref, "kernel sum at the returned bandwidth",
                        rtol=1e-5, atol=1e-6 * ref.max())
            # and with the data themselves, up to binning
            if bw > 10 * L / n:
                t.label("exact-kernel-sum")
                ref2 = kernel_sum(
                    inside, np.full(inside.size, 1 / inside.size), m, bw,
                    m[0], m[-1],
                )
                t.check(
                    np.max(np.abs(d - ref2)) < 0.25 * ref2.max(),
                    "kernel sum on the samples",
                )
    # order of the samples is irrelevant
    p = np.random.RandomState(c["perm"]).permutation(x.size)
    d2, m2, bw2 = kde_1d(x[p], c["n"], lo, hi)
    t.close(d2, d, "permuted samples", rtol=1e-6, atol=1e-9 * d.max())
    # rescaling by a power of two is exact
    f = c["fac"]
    d3, m3, bw3 = kde_1d(
        x * f, c["n"], None if lo is None else lo * f,
        None if hi is None else hi * f,
    )
    t.close(m3, m * f, "mesh of rescaled samples", rtol=1e-9,
            atol=1e-9 * L * f)
    t.close(d3 * f, d, "rescaled samples", rtol=1e-6, atol=1e-8 * d.max())
    t.close(np.ravel(bw3)[0], bw * f, "rescaled bandwidth", rtol=1e-6)


def big_case():
    return gen.obj(
        kind=st.sampled_from(["normal", "bimodal", "student", "logistic",
                              "wide"]),
        seed=gen.SEED,
        loc=st.sampled_from([0.0, 5.0, -100.0]),
        scale=st.sampled_from([1.0, 0.01, 1e3]),
        n=st.sampled_from([2**10, 2**12, 2**14]),
        N=st.sampled_from([2000, 20000]),
    )


def converge(c, t):
    """Close to the true density for large samples."""
    from pyvbmc.stats import kde_1d

    rs = np.random.RandomState(c["seed"])
    N = c["N"]
    if c["kind"] == "logistic":
        x = rs.logistic(size=N)
        pdf = stats.logistic.pdf
    elif c["kind"] == "normal":
        x, pdf = rs.randn(N), stats.norm.pdf
    elif c["kind"] == "student":
        x = rs.standard_t(8, size=N)
        pdf = stats.t(8).pdf
    else:
        s, a, b = (0.5, -2, 2) if c["kind"] == "bimodal" else (1.0, -30, 20)
        z = rs.rand(N) < 0.3
        x = np.where(z, a + s * rs.randn(N), b + rs.randn(N))
        pdf = lambda y: (  # noqa: E731
            0.3 * stats.norm.pdf(y, a, s) + 0.7 * stats.norm.pdf(y, b, 1)
        )
    d, m, bw = kde_1d(x * c["scale"] + c["loc"], c["n"])
    t.nontrivial()
    z = (m - c["loc"]) / c["scale"]
    tv = 0.5 * np.sum(np.abs(d * c["scale"] - pdf(z))) * (z[1] - z[0])
    lim = 0.09 if N == 2000 else 0.04
    t.check(tv < lim, f"total variation from the truth {tv:.4f} (N={N})")


def bad_case():
    return gen.obj(
        kind=st.sampled_from(["n0", "nneg", "bounds"]),
        n=st.integers(1, 50), w=gen.fl(0.01, 5), seed=gen.SEED,
    )


def bad(c, t):
    from pyvbmc.stats import kde_1d

    x = np.random.RandomState(c["seed"]).randn(20)
    t.nontrivial()
    if c["kind"] == "n0":
        t.raises(ValueError, lambda: kde_1d(x, 0), "n = 0")
    elif c["kind"] == "nneg":
        t.raises(ValueError, lambda: kde_1d(x, -c["n"]), "n < 0")
    else:
        t.raises(
            ValueError,
            lambda: kde_1d(x, 64, 0.5 + c["w"], 0.5),
            "misordered bounds",
        )


@st.composite
def hpd_case(draw):
    N = draw(st.integers(1, 40))
    D = draw(st.integers(1, 4))
    y = draw(
        st.lists(
            st.one_of(gen.fl(-100, 100), st.sampled_from([0.0, 1.0, -np.inf])
                      .map(lambda v: -1e300 if v == -np.inf else v)),
            min_size=N, max_size=N,
        )
    )
    return {
        "D": D, "y": y, "seed": draw(gen.SEED),
        "frac": draw(st.one_of(
            st.sampled_from([0.0, 0.5, 0.8, 1.0, 0.01, None]), gen.fl(0, 1))),
        "flat": draw(st.booleans()),
    }


def hpd(c, t):
    from pyvbmc.stats import get_hpd

    N, D = len(c["y"]), c["D"]
    X = np.random.RandomState(c["seed"]).randn(N, D)
    y = np.array(c["y"]) if c["flat"] else np.array(c["y"])[:, None]
    X0, y0 = X.copy(), y.copy()
    if c["frac"] is None:
        hX, hy, r, idx = get_hpd(X, y)
        frac = 0.8
    else:
        frac = c["frac"]
        hX, hy, r, idx = get_hpd(X, y, frac)
    t.check(
        np.array_equal(X, X0) and np.array_equal(y, y0), "input modified"
    )
    n = len(idx)
    t.nontrivial(0 < n < N)
    t.check(abs(n - frac * N) <= 0.5 + 1e-9, f"{n} of {N} kept at {frac}")
    t.check(len(set(idx.tolist())) == n, "repeated indices")
    t.check(hX.shape == (n, D), "shape of the points")
    t.check(hy.shape == (n,) + y.shape[1:], "shape of the values")
    t.check(np.array_equal(hX, X[idx]), "points do not match the indices")
    t.check(np.array_equal(hy, y[idx]), "values do not match the indices")
    rest = np.setdiff1d(np.arange(N), idx)
    if n and rest.size:
        t.check(
            y.ravel()[rest].max() <= y.ravel()[idx].min(),
            "a dropped point has a higher value than a kept one",
        )
    if n:
        t.close(r, X[idx].max(0) - X[idx].min(0), "range")
    else:
        t.check(r.shape == (D,) and np.all(np.isnan(r)), "range of nothing")


PROPS = [
    Prop("kde", case, kde, 1200),
    Prop("converge", big_case, converge, 200),
    Prop("kde-errors", bad_case, bad, 60, 200),
    Prop("hpd", hpd_case, hpd, 2500),
]
