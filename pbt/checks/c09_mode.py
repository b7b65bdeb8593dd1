"""C09: the reported mode maximises the density."""
import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C09"
RULE = (
    "Cases: mixtures over transformed spaces, mode requested in either "
    "space; compared with the density at all component centres, at 5000 "
    "fresh samples and at the result of a local ascent of the reference "
    "density. Non-trivial: more than one component or dimension."
)
ASSUMPTIONS = [
    "maximisation is accepted within 0.02 nats of every component centre and "
    "0.1 nats of samples",
    "maximality in the original space is not judged when the density peaks "
    "within 1% of the range from a hard bound (it may diverge there)",
]


def case():
    return gen.obj(
        vp=gen.vp_spec(max_d=3),
        orig=st.booleans(),
        n_opts=st.one_of(st.none(), st.integers(1, 2)),
        seed=gen.SEED,
    )


def mode(c, t):
    vp = gen.build_vp(c["vp"])
    D, K = vp.D, vp.K
    r = ref.ref_transform(c["vp"]["tr"])
    before = [np.copy(a) for a in (vp.mu, vp.sigma, vp.lambd, vp.w)]
    kw = {} if c["n_opts"] is None else {"n_opts": c["n_opts"]}
    x = vp.mode(orig_flag=c["orig"], **kw)
    t.nontrivial(K > 1 or D > 1)
    t.label("orig" if c["orig"] else "transformed")
    t.check(
        all(
            np.array_equal(a, b)
            for a, b in zip(before, (vp.mu, vp.sigma, vp.lambd, vp.w))
        ),
        "mode modified the posterior",
    )
    x = np.asarray(x)
    t.check(x.shape == (D,), f"mode shape {x.shape}")
    t.check(np.all(np.isfinite(x)), "mode is not finite")

    rs = np.random.RandomState(c["seed"])
    k = rs.choice(K, size=5000, p=np.ravel(vp.w))
    u = vp.mu.T[k] + rs.randn(len(k), D) * np.ravel(vp.sigma)[k][
        :, None
    ] * np.ravel(vp.lambd)
    pts = np.concatenate([vp.mu.T, u])
    if c["orig"]:
        t.check(
            np.all((x > r.lb[0]) & (x < r.ub[0])), f"mode {x} outside bounds"
        )
        um = r.direct(x[None])
        best = (ref.mixture_logpdf(vp, um) - r.log_jac(um))[0]
        y = ref.mixture_logpdf(vp, pts) - r.log_jac(pts)
        p = r.inverse(pts)
        b = r.bounded
        span = (r.ub - r.lb)[0, b]
        top = p[np.argmax(y)][b]
        if np.any(
            (top < r.lb[0, b] + 1e-2 * span) | (top > r.ub[0, b] - 1e-2 * span)
        ):
            # the density peaks against a bound, where it may diverge
            t.label("peak at a bound")
            best, y = 0.0, np.zeros(K)
    else:
        best = ref.mixture_logpdf(vp, x[None])[0]
        y = ref.mixture_logpdf(vp, pts)
    t.check(
        best >= y[:K].max() - 0.02,
        lambda: f"log density {best} at the mode {x.tolist()}, "
        f"{y[:K].max()} at a component centre",
    )
    t.check(
        best >= y.max() - 0.1,
        lambda: f"log density {best} at the mode {x.tolist()}, {y.max()} at "
        f"a sample",
    )
    # stationarity: no small move improves the density noticeably
    if not c["orig"]:
        for d in range(D):
            for s in (-1, 1):
                e = np.zeros(D)
                e[d] = s * 0.05 * np.min(vp.sigma) * np.ravel(vp.lambd)[d]
                t.check(
                    ref.mixture_logpdf(vp, (x + e)[None])[0] <= best + 1e-3,
                    f"density increases from the mode along {d}",
                )
    if c["orig"]:
        again = vp.mode(orig_flag=True)
        t.check(np.array_equal(again, x), "repeated request differs")
        keep = np.array(x)
        again[...] = -1e3
        t.check(
            np.array_equal(vp.mode(orig_flag=True), keep),
            "changing the returned mode changes later requests",
        )


def changed_case():
    return gen.obj(
        vp=gen.vp_spec(max_d=2, max_k=3), shift=gen.fl(1.0, 3.0),
        mu=st.booleans(), raw=st.booleans(),
        ls=gen.flist(-2.5, 0.2, 3), eta=gen.flist(-5, 0, 3),
    )


def changed(c, t):
    """A new parameter vector makes the mode be recomputed."""
    vp = gen.build_vp(c["vp"])
    r = ref.ref_transform(c["vp"]["tr"])
    vp.mode(orig_flag=True)
    t.nontrivial()
    vp.optimize_mu = c["mu"]
    th = vp.get_parameters()
    if c["mu"]:
        th[: vp.D * vp.K] += c["shift"]
    else:
        # fixed means: other scales and weights
        vp.optimize_weights = vp.optimize_sigma = vp.optimize_lambd = True
        th = vp.get_parameters()
        th[: vp.K] = c["ls"][: vp.K]
        th[-vp.K:] = c["eta"][: vp.K]
        t.label("fixed means")
    if not c["raw"]:
        k = vp.D * vp.K if c["mu"] else 0
        th[k:] = np.exp(th[k:])
    vp.set_parameters(th, raw_flag=c["raw"])
    u2 = r.direct(vp.mode(orig_flag=True)[None])
    best = (ref.mixture_logpdf(vp, u2) - r.log_jac(u2))[0]
    cen = vp.mu.T
    y = ref.mixture_logpdf(vp, cen) - r.log_jac(cen)
    p = r.inverse(cen)
    b = r.bounded
    span = (r.ub - r.lb)[0, b]
    near = np.any(
        (p[:, b] < r.lb[0, b] + 1e-2 * span)
        | (p[:, b] > r.ub[0, b] - 1e-2 * span)
    )
    if near:
        t.discard()
    t.check(
        best >= y.max() - 0.02,
        f"after set_parameters: log density {best} at the mode, "
        f"{y.max()} at a centre",
    )


PROPS = [
    Prop("mode", case, mode, 400),
    Prop("changed", changed_case, changed, 120),
]
