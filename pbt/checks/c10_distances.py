"""C10: distances between posteriors are consistent divergences."""
import numpy as np
from scipy import stats

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C10"
RULE = (
    "Cases: pairs of mixtures over a shared transformed space (and, for the "
    "closed form, pairs of Gaussians with scales over ten orders of "
    "magnitude). Non-trivial: the two distributions differ and their "
    "reference divergence is finite."
)
ASSUMPTIONS = [
    "Monte Carlo divergences are accepted within 7 standard errors of a "
    "reference sample of the integrand plus 2%",
    "marginal total variation is a kernel estimate, accepted within 0.05 of "
    "the exact value for components not narrower than its resolution",
]


# -- closed form -----------------------------------------------------------


@gen.st.composite
def mvn_case(draw):
    D = draw(st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 20])))
    base = st.integers(-5, 5)
    if D == 20:  # the determinants are beyond floating point numbers
        base = st.sampled_from([draw(st.integers(-12, 12))])
    return {
        "D": D,
        "mu": draw(gen.flist(-3, 3, 2 * D)),
        "ls": draw(gen.flist(-1.5, 1.5, 2 * D)),
        "base": draw(st.lists(base, min_size=D, max_size=D)),
        "rot": [draw(gen.SEED), draw(gen.SEED)],
        "flat": draw(st.booleans()),
    }


def mvn(c, t):
    from pyvbmc.stats import kl_div_mvn

    D = c["D"]
    m = np.array(c["mu"]).reshape(2, D)
    s = np.exp(np.array(c["ls"]).reshape(2, D))
    unit = 10.0 ** np.array(c["base"])
    C = []
    for j in range(2):
        R = gen.rotation(c["rot"][j], D)
        C.append((R * s[j] ** 2) @ R.T)
    # reference in well-scaled units; KL is invariant to the change of units
    want = []
    for a, b in ((0, 1), (1, 0)):
        d = m[b] - m[a]
        L = np.linalg.cholesky(C[b])
        A = np.linalg.solve(L, np.linalg.cholesky(C[a]))
        z = np.linalg.solve(L, d)
        want.append(
            0.5 * (np.sum(A**2) + z @ z - D)
            + np.sum(np.log(np.diag(L)))
            - np.sum(np.log(np.diag(np.linalg.cholesky(C[a]))))
        )
    U = np.outer(unit, unit)
    mu = [m[j] * unit for j in range(2)]
    if not c["flat"]:
        mu = [x.reshape(1, -1) for x in mu]
    args = (mu[0], C[0] * U, mu[1], C[1] * U)
    copies = [np.array(a) for a in args]
    got = np.asarray(kl_div_mvn(*args))
    t.nontrivial()
    t.check(
        all(np.array_equal(a, b) for a, b in zip(args, copies)),
        "arguments modified",
    )
    t.check(got.shape == (2,), f"shape {got.shape}")
    t.close(got, want, "Gaussian KL divergence", 1e-6, 1e-6)
    t.check(np.all(got >= -1e-9), f"negative divergence {got}")
    same = np.asarray(kl_div_mvn(args[0], args[1], args[0], args[1]))
    t.check(
        np.all(np.abs(same) < 1e-6),
        f"divergence from itself is {same.tolist()}",
    )


# -- sampled and Gaussianised KL ------------------------------------------


@gen.st.composite
def pair(draw, max_d=3, roto=None):
    a = draw(gen.vp_spec(max_d=max_d, max_k=3, roto=roto))
    D = a["D"]
    K = draw(st.integers(1, 3))
    b = {
        "D": D,
        "K": K,
        "tr": a["tr"],
        "mu": draw(gen.flist(-1.5, 1.5, D * K)),
        "sigma": draw(gen.flist(0.3, 1.2, K)),
        "lambd": draw(gen.flist(0.5, 2.0, D)),
        "w": draw(gen.flist(0.05, 1.0, K)),
    }
    a = dict(a, sigma=[max(s, 0.3) for s in a["sigma"]])
    a["lambd"] = [max(v, 0.5) for v in a["lambd"]]
    return {"a": a, "b": b, "seed": draw(gen.SEED),
            "share": draw(st.booleans())}


def build(c):
    p, q = gen.build_vp(c["a"]), gen.build_vp(c["b"])
    if c["share"]:  # one change of variables for both
        q.parameter_transformer = p.parameter_transformer
    return p, q


def draw_u(vp, n, rs):
    k = rs.choice(vp.K, size=n, p=np.ravel(vp.w))
    return vp.mu.T[k] + rs.randn(n, vp.D) * np.ravel(vp.sigma)[k][
        :, None
    ] * np.ravel(vp.lambd)


def tame(c, *vps):
    """No component reaches where the coordinates lose all precision."""
    r = ref.ref_transform(c["a"]["tr"])
    for vp in vps:
        sd = float(np.max(vp.sigma)) * np.ravel(vp.lambd)
        cor = np.concatenate([(vp.mu.T + s * 5 * sd) for s in (-1, 1)])
        rad = np.sqrt(np.sum((5 * sd) ** 2))
        if c["a"]["tr"]["rot"] is not None:
            cor = np.concatenate(
                [vp.mu.T + rad * e for e in np.vstack([np.eye(vp.D)] * 2)]
                + [vp.mu.T - rad * e for e in np.eye(vp.D)]
            )
        y = r.unroto(cor)[:, r.bounded]
        if y.size and np.abs(y).max() > (
            30 if c["a"]["tr"]["type"] == "logit" else 7
        ):
            return False
    return True


def kl(c, t):
    p, q = build(c)
    if not tame(c, p, q):
        t.discard()
    t.nontrivial()
    rs = np.random.RandomState(c["seed"])
    N = 6000
    got = np.asarray(p.kl_div(vp2=q, N=N))
    t.check(got.shape == (2,) and np.all(got >= 0), f"KL {got.tolist()}")
    for j, (f, g) in enumerate(((p, q), (q, p))):
        u = draw_u(f, 20000, rs)
        z = ref.mixture_logpdf(f, u) - ref.mixture_logpdf(g, u)
        # log densities below -700 underflow to the smallest float
        z = np.minimum(z, 700)
        want = z.mean()
        lim = 7 * z.std() * np.sqrt(1 / N + 1 / len(z)) + 0.02 * want + 0.005
        t.check(
            abs(got[j] - max(want, 0)) < lim,
            lambda: f"KL direction {j}: {got[j]}, reference {want} +- {lim}",
        )
    self_ = np.asarray(p.kl_div(vp2=p, N=500))
    t.check(np.all(self_ <= 1e-9), f"KL from itself {self_.tolist()}")


def gauss(c, t):
    """Gaussianised KL: closed form on the two posteriors' moments."""
    p, q = build(c)
    if not tame(c, p, q):
        t.discard()
    t.nontrivial()
    r = ref.ref_transform(c["a"]["tr"])
    rs = np.random.RandomState(c["seed"])
    n, D = 20000, p.D
    X = [r.inverse(draw_u(v, n, rs)) for v in (p, q)]
    unit = X[0].std(axis=0) + X[1].std(axis=0)
    M, C = [], []
    for x in X:
        z = x / unit
        M.append(z.mean(axis=0))
        C.append(np.atleast_2d(np.cov(z.T)))
    if any(np.linalg.cond(v) > 1e4 for v in C):
        t.discard()

    def ref_kl(a, b):
        A = np.linalg.solve(C[b], C[a])
        d = M[b] - M[a]
        return 0.5 * (
            np.trace(A)
            + d @ np.linalg.solve(C[b], d)
            - D
            - np.linalg.slogdet(C[a])[1]
            + np.linalg.slogdet(C[b])[1]
        )

    want = np.array([ref_kl(0, 1), ref_kl(1, 0)])
    kurt = max(
        np.max(
            np.mean((x - x.mean(0)) ** 4, 0) / np.var(x, axis=0) ** 2
        )
        for x in X
    )
    if kurt > 30:
        t.discard()  # moments too noisy to compare
    got1 = np.asarray(p.kl_div(vp2=q, N=n, gauss_flag=True))
    got2 = np.asarray(p.kl_div(samples=X[1], N=n, gauss_flag=True))
    big = max(1.0, np.max([np.linalg.cond(v) for v in C]) ** 0.5)
    lim = (0.15 + 0.12 * np.abs(want)) * np.sqrt(kurt / 3) * (1 + big / 10)
    for name, got in (("posterior", got1), ("samples", got2)):
        t.check(got.shape == (2,) and np.all(got >= 0), f"KL {got}")
        t.check(
            np.all(np.abs(got - want) < lim),
            lambda: f"Gaussianised KL given the {name}: {got.tolist()}, "
            f"reference {want.tolist()} +- {lim.tolist()}",
        )


# -- marginal total variation ---------------------------------------------


def mtv(c, t):
    p, q = build(c)
    r = ref.ref_transform(c["a"]["tr"])
    D = p.D
    if c["a"]["tr"]["rot"] is not None:
        t.discard()
    # each original coordinate is an increasing map of its own transformed
    # coordinate, so the marginal distances are those in that space
    sds = [
        np.sqrt(np.ravel(v.sigma)[None, :] ** 2 * np.ravel(v.lambd)[:, None]**2)
        for v in (p, q)
    ]
    delta = np.where(r.bounded, r.delta * r.s, 0.0)
    # densities piling up at the bounds are beyond a kernel estimate
    if np.any(np.concatenate(sds, axis=1) * delta[:, None] > 0.8):
        t.discard()
    cen = r.unroto(np.concatenate([p.mu.T, q.mu.T]))
    if np.any(np.abs(cen[:, r.bounded]) > 2.0):
        t.discard()
    t.nontrivial()
    want = np.zeros(D)
    for d in range(D):
        lo = min((v.mu[d] - 10 * s[d]).min() for v, s in zip((p, q), sds))
        hi = max((v.mu[d] + 10 * s[d]).max() for v, s in zip((p, q), sds))
        g = np.linspace(lo, hi, 20001)
        f = [
            sum(
                w * stats.norm.pdf(g, m, s)
                for w, m, s in zip(np.ravel(v.w), v.mu[d], sd[d])
            )
            for v, sd in zip((p, q), sds)
        ]
        want[d] = 0.5 * np.sum(np.abs(f[0] - f[1])) * (g[1] - g[0])
    N = 20000
    rs = np.random.RandomState(c["seed"])
    got = p.mtv(vp2=q, N=N)
    rev = q.mtv(vp2=p, N=N)
    smp = p.mtv(samples=r.inverse(draw_u(q, N, rs)), N=N)
    for name, v in (("posterior", got), ("reverse", rev), ("samples", smp)):
        v = np.ravel(v)
        t.check(v.shape == (D,), f"MTV shape {v.shape}")
        t.check(
            np.all(v >= 0) and np.all(v <= 1 + 1e-3), f"MTV {v.tolist()}"
        )
        t.check(
            np.all(np.abs(v - want) < 0.05),
            lambda: f"MTV ({name}) {v.tolist()}, exact {want.tolist()}",
        )
    self_ = np.ravel(p.mtv(vp2=p, N=N))
    t.check(np.all(self_ < 0.05), f"MTV from itself {self_.tolist()}")


# -- posteriors over different bounds --------------------------------------


@gen.st.composite
def other_case(draw):
    D = draw(st.integers(1, 2))
    ds = draw(st.lists(gen.dim_spec(), min_size=D, max_size=D))
    es = []
    for d in ds:
        e = dict(d)
        w = d["pub"] - d["plb"]
        k = draw(st.sampled_from(["same", "wide", "narrow", "unbounded",
                                  "right", "left"]))
        if k == "unbounded":
            e = {"k": "u", "plb": d["plb"], "pub": d["pub"]}
        elif k != "same":
            a, b = d.get("lb", d["plb"] - w), d.get("ub", d["pub"] + w)
            g = draw(gen.fl(0.3, 2.0)) * w
            a, b = {
                "wide": (a - g, b + g),
                "narrow": (d["plb"] - 0.1 * w, d["pub"] + 0.1 * w),
                "right": (d["plb"] + 0.3 * w, b + g),
                "left": (a - g, d["pub"] - 0.3 * w),
            }[k]
            e = {"k": "b", "lb": a, "ub": b, "plb": a + 0.2 * (b - a),
                 "pub": a + 0.8 * (b - a)}
        es.append(e)
    out = {"seed": draw(gen.SEED)}
    for n, dims in (("a", ds), ("b", es)):
        K = draw(st.integers(1, 2))
        out[n] = {
            "D": D, "K": K,
            "tr": {"dims": dims, "type": draw(st.sampled_from(
                gen.TRANSFORMS)), "center": True, "rot": None, "scale": None},
            "mu": draw(gen.flist(-0.5, 0.5, D * K)),
            "sigma": draw(gen.flist(0.4, 0.8, K)),
            "lambd": draw(gen.flist(0.3, 0.6, D)),
            "w": draw(gen.flist(0.2, 1.0, K)),
        }
    return out


def other(c, t):
    """Marginal total variation across different supports."""
    vps = [gen.build_vp(c[k]) for k in "ab"]
    rs = [ref.ref_transform(c[k]["tr"]) for k in "ab"]
    D = vps[0].D
    for v, r in zip(vps, rs):
        sd = np.max(v.sigma) * np.ravel(v.lambd)
        if np.any((r.delta * r.s * sd)[r.bounded] > 0.8) or np.any(np.abs(
                r.unroto(v.mu.T)[:, r.bounded]) > 2.0):
            t.discard()
    t.nontrivial()

    def cdf(v, r, d, x):
        u = np.full(len(x), -np.inf)
        inside = (x > r.lb[0, d]) & (x < r.ub[0, d])
        u[x >= r.ub[0, d]] = np.inf
        z = np.tile(r.inverse(np.zeros((1, D))), (inside.sum(), 1))
        z[:, d] = x[inside]
        u[inside] = r.direct(z)[:, d]
        s = np.ravel(v.sigma) * v.lambd[d, 0]
        return sum(w * stats.norm.cdf(u, m, k) for w, m, k in zip(
            np.ravel(v.w), v.mu[d], s))

    want = np.zeros(D)
    for d in range(D):
        ends = []
        for v, r in zip(vps, rs):
            u = np.zeros((2, D))
            s = 8 * np.max(v.sigma) * v.lambd[d, 0]
            u[:, d] = v.mu[d].min() - s, v.mu[d].max() + s
            ends += list(r.inverse(u)[:, d])
        g = np.linspace(min(ends), max(ends), 40001)
        f = [np.diff(cdf(v, r, d, g)) for v, r in zip(vps, rs)]
        want[d] = 0.5 * np.sum(np.abs(f[0] - f[1]))
    p, q = vps
    for name, v in (("forward", p.mtv(vp2=q, N=20000)),
                    ("reverse", q.mtv(vp2=p, N=20000))):
        v = np.ravel(v)
        t.check(np.all(np.abs(v - want) < 0.06), lambda: (
            f"MTV ({name}) of posteriors over different bounds {v.tolist()}, "
            f"exact {want.tolist()}"))


# -- posteriors that hardly overlap ----------------------------------------


@gen.st.composite
def apart_case(draw):
    c = draw(pair(max_d=2))
    for k in "ab":
        c[k] = dict(c[k], tr=None)
    return dict(c, shift=draw(gen.fl(20, 200)))


def apart(c, t):
    """The divergence of posteriors that hardly overlap is large."""
    p, q = gen.build_vp(c["a"]), gen.build_vp(c["b"])
    q.mu = q.mu + c["shift"]
    t.nontrivial()
    got = np.asarray(p.kl_div(vp2=q, N=500))
    rs = np.random.RandomState(c["seed"])
    for j, (f, g) in enumerate(((p, q), (q, p))):
        u = draw_u(f, 2000, rs)
        z = ref.mixture_logpdf(f, u) - ref.mixture_logpdf(g, u)
        want = np.minimum(z, 690).mean()
        t.check(got[j] > 0.7 * want, lambda: (
            f"KL direction {j}: {got[j]} of posteriors {c['shift']} apart, "
            f"expected at least {want}"))


def bad_case():
    return gen.obj(vp=gen.vp_spec(max_d=2), n=st.integers(2, 5))


def rejected(c, t):
    p = gen.build_vp(c["vp"])
    t.nontrivial()
    t.raises(ValueError, lambda: p.kl_div(), "kl_div without an argument")
    t.raises(ValueError, lambda: p.mtv(), "mtv without an argument")
    s = np.random.randn(c["n"], p.D)
    t.raises(
        ValueError,
        lambda: p.kl_div(samples=s, gauss_flag=False),
        "sample-based KL needs a posterior",
    )


PROPS = [
    Prop("mvn", mvn_case, mvn, 4000),
    Prop("kl", pair, kl, 400),
    Prop("gauss", pair, gauss, 400),
    Prop("mtv", lambda: pair(roto=False), mtv, 240),
    Prop("other", other_case, other, 240),
    Prop("apart", apart_case, apart, 240),
    Prop("rejected", bad_case, rejected, 24),
]
