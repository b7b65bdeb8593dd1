"""C05: the posterior's density is the mixture's, in either space."""
import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C05"
RULE = (
    "Cases: mixtures of 1-5 components in 1-4 dimensions over transformed "
    "spaces of every kind (C01), evaluated at batches of points drawn in the "
    "unconstrained space, on the bounds, outside them, and at integer "
    "points. Non-trivial: a finite reference log density at some point (or, "
    "for the support check, a bounded coordinate)."
)
ASSUMPTIONS = [
    "log densities below about -650 underflow in double precision and are "
    "not compared",
    "the reference transform's own accuracy (scipy.stats quantile functions)",
]

DF = st.sampled_from(
    [float("inf"), float("inf"), 0.0, 1.0, 2.5, 7.0, 40.0, -1.0, -3.0, -12.5]
)


def points(max_n=4):
    return st.lists(gen.flist(-2.5, 2.5, 4), min_size=1, max_size=max_n)


def snapshot(vp):
    return [
        np.array(a, copy=True)
        for a in (vp.mu, vp.sigma, vp.lambd, vp.w, vp.eta)
    ]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


# -- unconstrained space ---------------------------------------------------


def u_case():
    return gen.obj(
        vp=gen.vp_spec(tr=False),
        u=points(),
        df=DF,
        spread=st.sampled_from([1.0, 1.0, 4.0, 20.0]),
        unit=st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e-6, 1e3, 1e6]),
        big=st.sampled_from([None, None, None, [6, 2], [12, 15], [20, 3]]),
        seed=gen.SEED,
        tail=st.sampled_from([None, None, None, -640.0, -700.0, -720.0]),
    )


def enlarge(c, t):
    """Units, high dimension, many components on top of a vp_spec."""
    s = c["vp"]
    if c["big"]:
        D, K = c["big"]
        rs = np.random.RandomState(c["seed"])
        s = {"D": D, "K": K, "tr": None, "mu": rs.uniform(-1, 1, D * K),
             "sigma": rs.uniform(0.2, 1.0, K), "lambd": rs.uniform(0.5, 2, D),
             "w": rs.uniform(0.02, 1, K)}
        u = rs.uniform(-1.5, 1.5, (len(c["u"]), D))
        t.label("many dimensions")
    else:
        u = np.array(c["u"])[:, : s["D"]]
    k = c["unit"]
    s = dict(s, mu=np.array(s["mu"]) * k, lambd=np.array(s["lambd"]) * k)
    return gen.build_vp(s), u * k


def u_space(c, t):
    vp, u = enlarge(c, t)
    u = u * c["spread"]
    df = c["df"]
    if c["tail"] is not None and (df == 0 or np.isinf(df)):
        # from the last component's centre out to where the normal log
        # density has about this value
        t.label("tail")
        d = (u[:1] if np.any(u[:1] != 0) else u[:1] + 1) / np.ravel(vp.lambd)
        d = d / np.sqrt(np.sum(d**2)) * np.ravel(vp.lambd)
        r = np.sqrt(-2 * c["tail"]) * np.max(vp.sigma)
        far = vp.mu.T[np.argmax(vp.sigma)] + r * d
        u = np.vstack([u, far])
    want = ref.mixture_logpdf(vp, u, df)
    ok = want > -650
    if not (np.isfinite(df) and df):
        # (down to where doubles become subnormal)
        ok = want + vp.D * np.log(c["unit"]) > -735
        ok &= want > -700
    if not np.any(ok):
        t.discard()
    t.nontrivial(vp.K > 1 or vp.D > 1)
    t.label("df:" + ("t" if np.isfinite(df) and df else "normal"))
    before, u0 = snapshot(vp), u.copy()
    kw = {"orig_flag": False, "df": df}
    p = vp.pdf(u, **kw)
    lp = vp.pdf(u, log_flag=True, **kw)
    lp2 = vp.log_pdf(u, **kw)
    t.check(np.array_equal(u, u0), "pdf modified its argument")
    t.check(same(before, snapshot(vp)), "pdf modified the posterior")
    t.check(
        p.shape == (len(u), 1) == lp.shape == lp2.shape,
        f"shapes {p.shape}, {lp.shape}",
    )
    t.check(np.array_equal(lp, lp2), "log_pdf differs from pdf(log_flag)")
    t.check(
        np.all(np.abs(lp[ok, 0] - want[ok]) <= 1e-8 + 1e-9 * abs(want[ok])),
        lambda: f"df={df}: log density {lp[ok, 0].tolist()}, reference "
        f"{want[ok].tolist()} at {u[ok].tolist()}",
    )
    t.check(
        np.all(
            np.abs(p[ok, 0] - np.exp(want[ok]))
            <= 1e-300 + 1e-6 * np.exp(want[ok])
        ),
        lambda: f"df={df}: density {p[ok, 0].tolist()}, reference "
        f"{np.exp(want[ok]).tolist()}",
    )
    # one point at a time, as vectors: same numbers
    one = np.ravel([vp.pdf(x, **kw) for x in u])
    t.close(one, p[:, 0], "batch vs. single points", rtol=1e-12, atol=0)
    # order of the rows does not matter
    t.close(vp.pdf(u[::-1], **kw)[::-1], p, "row order", rtol=1e-12, atol=0)


# -- gradients -------------------------------------------------------------


def g_case():
    return gen.obj(
        vp=gen.vp_spec(tr=False), u=points(2), idf=st.booleans(),
        unit=st.sampled_from([1.0, 1.0, 1e-4, 1e-6, 1e4]),
        big=st.sampled_from([None, None, None, [6, 2], [12, 8]]),
        seed=gen.SEED,
    )


def gradient(c, t):
    """Gradients of pdf and log_pdf by central differences."""
    vp, u = enlarge(c, t)
    D = vp.D
    want = ref.mixture_logpdf(vp, u)
    if np.any(want < -300) or np.any(want > 300):
        t.discard()
    t.nontrivial(vp.K > 1)
    h = 1e-5 * float(np.min(vp.sigma)) * float(np.min(vp.lambd))

    def num(i):
        e = np.zeros((1, D))
        e[0, i] = h
        f = ref.mixture_logpdf
        return (f(vp, u + e) - f(vp, u - e)) / (2 * h)

    g = np.stack([num(i) for i in range(D)], axis=1)
    spaces = [False, True] if c["idf"] else [False]
    for orig in spaces:  # identity transform: the two spaces coincide
        y, dy = vp.pdf(u, orig_flag=orig, grad_flag=True)
        t.check(dy.shape == u.shape, f"gradient shape {dy.shape}")
        t.close(
            y[:, 0],
            np.exp(want),
            "density with gradient",
            rtol=1e-6,
            atol=1e-300,
        )
        tol = 2e-4 * (np.abs(g).max() + 1)
        t.check(
            np.all(np.abs(dy / y - g) <= tol),
            lambda: f"orig={orig}: gradient/density {(dy / y).tolist()}, "
            f"by differences {g.tolist()}",
        )
    ly, ldy = vp.log_pdf(u, orig_flag=False, grad_flag=True)
    t.check(
        np.all(np.abs(ldy - g) <= tol),
        lambda: f"log gradient {ldy.tolist()}, by differences {g.tolist()}",
    )
    t.close(ly[:, 0], want, "log density with gradient", 1e-8, 1e-8)


def og_case():
    return gen.obj(vp=gen.vp_spec(max_d=2), u=points(1))


def orig_gradient(c, t):
    """Gradient of the original-space density, where it is offered."""
    vp = gen.build_vp(c["vp"])
    D = vp.D
    u = np.array(c["u"])[:1, :D]
    r = ref.ref_transform(c["vp"]["tr"])
    want = ref.mixture_logpdf(vp, u)
    yr = r.unroto(u)
    if want[0] < -50 or np.any(np.abs(yr[:, r.bounded]) > 3):
        t.discard()
    t.nontrivial()
    x = r.inverse(u)
    try:
        y, dy = vp.pdf(x, orig_flag=True, grad_flag=True)
    except NotImplementedError:
        t.label("not implemented")
        return

    def f(z):
        uu = r.direct(z)
        return ref.mixture_logpdf(vp, uu) - r.log_jac(uu)

    unit = np.where(np.isfinite(r.ub - r.lb), r.ub - r.lb, r.delta)[0]
    g = np.zeros(D)
    for i in range(D):
        e = np.zeros((1, D))
        e[0, i] = 1e-6 * unit[i]
        g[i] = (f(x + e)[0] - f(x - e)[0]) / 2e-6
    got = (dy / y)[0] * unit
    # the one failure on record: the gradient is the transformed space's
    gu = np.zeros(D)
    for i in range(D):
        e = np.zeros((1, D))
        e[0, i] = 1e-6
        lo, hi = (ref.mixture_logpdf(vp, u + s * e)[0] for s in (-1, 1))
        gu[i] = np.exp(want[0]) * (hi - lo) / 2e-6
    known = np.allclose(dy[0], gu, rtol=1e-3, atol=1e-4 * np.exp(want[0]))
    t.check(
        np.all(np.abs(got - g) <= 1e-2 * (1 + np.abs(g).max())),
        lambda: f"orig-space gradient/density {got.tolist()}, by differences "
        f"{g.tolist()} (in units of the range)",
        key="transformed-space gradient" if known else "orig-gradient",
    )


# -- original space --------------------------------------------------------


def o_case():
    return gen.obj(
        vp=gen.vp_spec(),
        u=points(),
        df=DF,
        out=gen.fl(0, 2),
        idx=st.integers(0, 3),
        edge=st.sampled_from(["lb", "ub", "below", "above", "none"]),
    )


def o_space(c, t):
    vp = gen.build_vp(c["vp"])
    D = vp.D
    r = ref.ref_transform(c["vp"]["tr"])
    u = np.array(c["u"])[:, :D]
    yr = r.unroto(u)
    # keep away from where the original coordinate has no precision left
    keep = np.all(np.abs(yr[:, r.bounded]) < 4.5, axis=1)
    u = u[keep]
    if len(u) == 0:
        t.discard()
    x = r.inverse(u)
    df = c["df"]
    want = ref.mixture_logpdf(vp, u, df) - r.log_jac(u)
    raw = ref.mixture_logpdf(vp, u, df)
    ok = raw > -600
    t.nontrivial(np.any(ok) and np.any(r.bounded))
    # optionally one row on or beyond a bound: density must vanish there
    bad = None
    b = np.flatnonzero(r.bounded)
    if c["edge"] != "none" and len(b):
        i = b[c["idx"] % len(b)]
        w = r.ub[0, i] - r.lb[0, i]
        row = x[:1].copy()
        row[0, i] = {
            "lb": r.lb[0, i],
            "ub": r.ub[0, i],
            "below": r.lb[0, i] - c["out"] * w - 1e-9 * w,
            "above": r.ub[0, i] + c["out"] * w + 1e-9 * w,
        }[c["edge"]]
        x = np.vstack([x, row])
        bad = len(x) - 1
        t.label("edge")
    before, x0 = snapshot(vp), x.copy()
    p = vp.pdf(x, df=df)
    lp = vp.log_pdf(x, df=df)
    t.check(np.array_equal(x, x0), "pdf modified its argument")
    t.check(same(before, snapshot(vp)), "pdf modified the posterior")
    t.check(p.shape == lp.shape == (len(x), 1), f"shape {p.shape}")
    if bad is not None:
        t.check(
            p[bad, 0] == 0 and lp[bad, 0] == -np.inf,
            lambda: f"density {p[bad, 0]}, log {lp[bad, 0]} on/outside the "
            f"bounds at {x[bad].tolist()}",
        )
        p, lp, x = p[:bad], lp[:bad], x[:bad]
    # error of u recovered from x, relative to the narrowest component
    slack = 1e-5 * (1 + np.abs(want))
    t.check(
        np.all(np.abs(lp[ok, 0] - want[ok]) <= slack[ok]),
        lambda: f"df={df}: log density {lp[ok, 0].tolist()}, reference "
        f"{want[ok].tolist()} at {x[ok].tolist()}",
    )
    t.check(
        np.all(
            np.abs(p[ok, 0] - np.exp(want[ok]))
            <= 1e-300 + np.expm1(2 * slack[ok]) * np.exp(want[ok])
        ),
        lambda: f"df={df}: density {p[ok, 0].tolist()}, reference "
        f"{np.exp(want[ok]).tolist()}",
    )
    one = np.ravel([vp.pdf(z, df=df) for z in x])
    t.close(one, p[:, 0], "batch vs. single points", rtol=1e-11, atol=0)


def int_case():
    return gen.obj(
        vp=gen.vp_spec(max_d=3),
        x=st.lists(
            st.lists(st.integers(-4, 4), min_size=3, max_size=3),
            min_size=1,
            max_size=3,
        ),
        orig=st.booleans(),
    )


def dtypes(c, t):
    """Integer and list-like inputs give the float input's numbers."""
    vp = gen.build_vp(c["vp"])
    x = np.array(c["x"], dtype=int)[:, : vp.D]
    a = vp.pdf(x, orig_flag=c["orig"])
    b = vp.pdf(x.astype(float), orig_flag=c["orig"])
    t.nontrivial(np.any(b > 0))
    t.close(a, b, "integer input", rtol=1e-12, atol=0)
    al = vp.log_pdf(x, orig_flag=c["orig"])
    bl = vp.log_pdf(x.astype(float), orig_flag=c["orig"])
    t.check(np.array_equal(al, bl), "integer input to log_pdf")


# -- normalisation ---------------------------------------------------------


def n_case():
    return gen.obj(vp=gen.vp_spec(max_d=2, max_k=4, roto=False))


def normalised(c, t):
    """The reported density alone, summed over cells of the original space.

    Cell borders and midpoints are images of a grid in the unconstrained
    space covering eight standard deviations around every component.
    """
    vp = gen.build_vp(c["vp"])
    D = vp.D
    r = ref.ref_transform(c["vp"]["tr"])
    n = 2001 if D == 1 else 261
    lam = np.ravel(vp.lambd)
    axes = []
    for i in range(D):
        pad = 8 * float(np.max(vp.sigma)) * lam[i]
        g = np.linspace(vp.mu[i].min() - pad, vp.mu[i].max() + pad, n)
        if g[1] - g[0] > 0.7 * float(np.min(vp.sigma)) * lam[i]:
            t.discard()  # grid too coarse for the narrowest component
        axes.append(g)

    def image(i, g):
        u = np.zeros((len(g), D))
        u[:, i] = g
        return r.inverse(u)[:, i]

    width = [np.diff(image(i, g)) for i, g in enumerate(axes)]
    mid = [image(i, 0.5 * (g[1:] + g[:-1])) for i, g in enumerate(axes)]
    if any(np.any(w <= 0) for w in width):
        # original coordinates run out of precision next to a bound
        t.discard()
    t.nontrivial()
    X = np.stack([a.ravel() for a in np.meshgrid(*mid, indexing="ij")], 1)
    W = np.prod(
        np.stack([a.ravel() for a in np.meshgrid(*width, indexing="ij")], 1),
        axis=1,
    )
    total = float(np.sum(vp.pdf(X)[:, 0] * W))
    t.check(abs(total - 1) < 0.02, f"density integrates to {total}")


PROPS = [
    Prop("u-space", u_case, u_space, 3000),
    Prop("gradient", g_case, gradient, 2000),
    Prop("o-space", o_case, o_space, 4000),
    Prop("dtypes", int_case, dtypes, 1200),
    Prop("normalised", n_case, normalised, 800),
    Prop("orig-gradient", og_case, orig_gradient, 300),
]
