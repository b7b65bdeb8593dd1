"""C06: samples of the posterior follow its density."""
import numpy as np
from scipy import stats

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C06"
RULE = (
    "Cases: mixtures over transformed spaces (C05), sample sizes from 0 to "
    "8000, balanced or not, normal or Student-t components, sampled in "
    "either space under a seed derived from the case. Non-trivial: more "
    "than one component or dimension, or a bounded coordinate."
)
ASSUMPTIONS = [
    "statistical comparisons raise only beyond p < 1e-11 (Kolmogorov-Smirnov "
    "and normal tests at fixed seeds)",
    "negative degrees of freedom (product of t marginals) are a density-only "
    "option: numpy's gamma generator rejects them when sampling",
]
P_MIN = 1e-11


def ks(t, data, cdf, what, key=None):
    p = stats.kstest(data, cdf, method="asymp").pvalue
    t.check(p > P_MIN, lambda: f"{what}: KS p-value {p:.2e}", key)


def case():
    return gen.obj(
        vp=gen.vp_spec(max_d=3),
        N=st.sampled_from([0, 1, 2, 3, 7, 50, 333, 4001, 8000]),
        orig=st.booleans(),
        bal=st.booleans(),
        df=st.sampled_from(
            [float("inf"), float("inf"), 0.0, 2.0, 3.5, 9.0, 30.0]
        ),
    )


def draw(c, t):
    vp = gen.build_vp(c["vp"])
    N, D, K = c["N"], vp.D, vp.K
    r = ref.ref_transform(c["vp"]["tr"])
    before = [np.copy(a) for a in (vp.mu, vp.sigma, vp.lambd, vp.w)]
    x, i = vp.sample(
        N, orig_flag=c["orig"], balance_flag=c["bal"], df=c["df"]
    )
    t.check(
        all(
            np.array_equal(a, b)
            for a, b in zip(before, (vp.mu, vp.sigma, vp.lambd, vp.w))
        ),
        "sampling modified the posterior",
    )
    t.check(x.shape == (N, D), f"sample shape {x.shape}, N={N}, D={D}")
    i = np.ravel(i)
    t.check(len(i) == N, f"{len(i)} labels for {N} samples")
    if N == 0:
        return
    t.nontrivial(K > 1 or D > 1 or np.any(r.bounded))
    t.label("orig" if c["orig"] else "transformed")
    t.check(np.issubdtype(i.dtype, np.integer), f"label dtype {i.dtype}")
    t.check(i.min() >= 0 and i.max() < K, "labels out of range")
    t.check(np.all(np.isfinite(x)), "non-finite samples")
    w = np.ravel(vp.w)
    counts = np.bincount(i, minlength=K)
    if c["bal"]:
        t.check(
            np.all(counts >= np.floor(w * N - 1e-7)),
            lambda: f"balanced counts {counts.tolist()} for shares "
            f"{(w * N).tolist()}",
        )
    if N >= 333:
        sd = np.sqrt(N * w * (1 - w)) + 1e-9
        if c["bal"]:
            sd = np.sqrt(K) * np.ones(K)
        t.check(
            np.all(np.abs(counts - N * w) < 7 * sd + 1),
            lambda: f"component counts {counts.tolist()}, expected "
            f"{(N * w).tolist()}",
        )
    u = x
    if c["orig"]:
        t.check(
            np.all((x > r.lb) & (x < r.ub)),
            "samples on or outside the hard bounds",
        )
        dens = vp.pdf(x)
        t.check(np.all(dens >= 0), "negative density at a sample")
        u = r.direct(x)
        y = r.unroto(u)
        # where the original coordinate has no precision left, the exact
        # unconstrained value is lost (only for these rows)
        lossy = np.any(np.abs(y[:, r.bounded]) > 5, axis=1)
        if np.mean(lossy) > 0.01:
            t.label("lossy tails")
            return
    if N < 333:
        return
    lam = np.ravel(vp.lambd)
    sg = np.ravel(vp.sigma)
    df = c["df"]
    normal = not np.isfinite(df) or df == 0
    z = (u - vp.mu.T[i]) / (sg[i][:, None] * lam)
    marg = stats.norm.cdf if normal else stats.t(df).cdf
    for d in range(D):
        ks(t, z[:, d], marg, f"standardised coordinate {d}, df={df}")
    r2 = np.sum(z**2, axis=1)
    if normal:
        ks(t, r2, stats.chi2(D).cdf, "squared radius")
    else:
        ks(t, r2 / D, stats.f(D, df).cdf, f"squared radius, df={df}")
    # signs are independent of each other, of the label and over the rows
    s = np.sign(z)
    lim = 7 * np.sqrt(N)
    for d in range(D):
        t.check(abs(s[:, d].sum()) < lim, "signs are biased")
        t.check(
            abs((s[1:, d] * s[:-1, d]).sum()) < lim, "rows are dependent"
        )
        for e in range(d):
            t.check(
                abs((s[:, d] * s[:, e]).sum()) < lim,
                "coordinates are dependent",
            )
    for k in range(K):
        m = counts[k]
        if m > 200:
            for d in range(D):
                ks(
                    t,
                    z[i == k, d],
                    marg,
                    f"coordinate {d} of component {k}, df={df}",
                )
    if K > 1:
        # component labels come in random order
        a = (i - i.mean()) / (i.std() + 1e-12)
        if i.std() > 0:
            t.check(
                abs((a[1:] * a[:-1]).sum()) < lim, "labels are ordered"
            )


def small_case():
    return gen.obj(
        vp=gen.vp_spec(tr=False, max_d=1, min_k=2),
        N=st.integers(1, 9),
        bal=st.booleans(),
    )


def unbiased(c, t):
    """Average component counts over many small samples equal the shares."""
    vp = gen.build_vp(c["vp"])
    K, N, R = vp.K, c["N"], 1500
    w = np.ravel(vp.w)
    cnt = np.zeros((R, K))
    for j in range(R):
        _, i = vp.sample(N, orig_flag=False, balance_flag=c["bal"])
        cnt[j] = np.bincount(i, minlength=K)
    t.nontrivial()
    m = cnt.mean(axis=0)
    sd = np.maximum(cnt.std(axis=0), 0.05) / np.sqrt(R)
    t.check(
        np.all(np.abs(m - N * w) < 7 * sd),
        lambda: f"mean counts {m.tolist()}, shares {(N * w).tolist()} "
        f"(N={N}, balanced={c['bal']})",
    )


def rep_case():
    return gen.obj(
        vp=gen.vp_spec(max_d=3),
        seed=gen.SEED,
        N=st.integers(1, 40),
        bal=st.booleans(),
        orig=st.booleans(),
    )


def repeatable(c, t):
    """The same seed gives the same sample; spaces share the draw."""
    vp = gen.build_vp(c["vp"])
    t.nontrivial()

    def go(orig):
        np.random.seed(c["seed"])
        return vp.sample(c["N"], orig_flag=orig, balance_flag=c["bal"])

    a, b = go(c["orig"]), go(c["orig"])
    t.check(
        np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]),
        "same seed, different samples",
    )
    x, i = go(True)
    u, j = go(False)
    t.check(np.array_equal(i, j), "labels differ between the spaces")
    r = ref.ref_transform(c["vp"]["tr"])
    xr = r.inverse(u)
    unit = np.where(np.isfinite(r.ub - r.lb), r.ub - r.lb, 1 + np.abs(xr))
    t.check(
        np.all(np.abs(x - xr) <= 1e-7 * unit),
        "original-space sample is not the image of the transformed one",
    )


PROPS = [
    Prop("sample", case, draw, 3000),
    Prop("unbiased", small_case, unbiased, 160),
    Prop("repeatable", rep_case, repeatable, 1600),
]
