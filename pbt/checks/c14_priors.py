"""C14: the built-in priors are normalised densities on their support."""
import numpy as np

from pbt import gen, pref
from pbt.core import Prop
from pbt.gen import fl, st

PROPERTY = "C14"
RULE = (
    "Cases: one of the four box-like priors in 1-4 dimensions, parameters "
    "over several orders of magnitude given as arrays, lists, scalars or a "
    "mixture, points inside every segment, exactly on every break point and "
    "outside. Non-trivial: at least one finite and one infinite or tail "
    "log-density, or more than one dimension."
)
ASSUMPTIONS = [
    "at the end points of a support the density may take either one-sided "
    "limit",
    "integrals use Gauss-Legendre on each smooth segment, tails to 10 scales",
]


def point_st(n):
    # (segment, fraction) per coordinate; see pref.point
    seg = st.integers(0, 6)
    fr = st.one_of(fl(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5]))
    return st.lists(
        st.lists(st.tuples(seg, fr).map(list), min_size=4, max_size=4),
        min_size=1,
        max_size=n,
    )


def density_case():
    return gen.obj(
        prior=pref.prior_spec(),
        pts=point_st(8),
        form=st.sampled_from(["2d", "1d", "int", "f32"]),
        keepdims=st.booleans(),
    )


def density(c, t):
    s = c["prior"]
    p = pref.build(s)
    D = pref.dim(s)
    m = pref.marginals(s)
    X = np.array(
        [[m[d].point(*row[d]) for d in range(D)] for row in c["pts"]]
    )
    if c["form"] == "int":
        X = np.round(X).astype(np.int64)
        if np.abs(X).max() > 2**40:
            t.discard()
    elif c["form"] == "f32":
        X = X.astype(np.float32)
    t.check(p.D == D, f"dimension {p.D}, expected {D}")
    want, slack = pref.logpdf(m, X.astype(float))
    arg = X
    if c["form"] == "1d":
        arg = X[:, 0] if D == 1 else X[0]
        if D > 1:
            want, slack = want[:1], slack[:1]
    n = len(want)
    arg0 = arg.copy()
    got = p.log_pdf(arg, keepdims=c["keepdims"])
    dens = p.pdf(arg, keepdims=c["keepdims"])
    shape = (n, 1) if c["keepdims"] else (n,)
    t.nontrivial(
        D > 1 or (np.any(np.isfinite(want)) and np.any(~np.isfinite(want)))
    )
    for k, v in (("log_pdf", got), ("pdf", dens)):
        t.check(np.shape(v) == shape, f"{k} of shape {np.shape(v)}")
        t.check(np.asarray(v).dtype == np.float64, f"{k} not floating point")
    t.check(
        np.array_equal(arg, arg0) and arg.dtype == arg0.dtype,
        "input modified",
    )
    if c["keepdims"] is False:
        t.close(p.log_pdf(arg), got[:, None], "keepdims changes the values")
    got, dens = np.ravel(got), np.ravel(dens)
    t.check(not np.any(np.isnan(got)), "NaN log density")
    t.close(dens, np.exp(got), "pdf is exp(log_pdf)", 1e-12, 0)
    ok = np.isclose(got, want, rtol=1e-8, atol=1e-8) | (got == want)
    if c["form"] == "f32":
        ok |= slack | np.isclose(got, want, rtol=1e-3, atol=1e-3)
    ok |= slack & (~np.isfinite(got) | np.isclose(got, want))
    t.check(
        np.all(ok),
        lambda: f"{s['kind']} log density {got.tolist()}, "
        f"reference {want.tolist()} at {X.tolist()}",
    )
    # one point at a time gives the same values
    for i in range(min(n, 2)):
        one = p.log_pdf(X[i])
        t.check(np.shape(one) == (1, 1), f"one point: {np.shape(one)}")
        if c["form"] != "1d" or D == 1:
            t.check(one[0, 0] == got[i], "batch and single point differ")


def normal_case():
    return gen.obj(prior=pref.prior_spec(max_d=1))


def normalised(c, t):
    s = c["prior"]
    p = pref.build(s)
    m = pref.marginals(s)[0]
    x, w = pref.quadrature(m)
    q = np.ravel(p.pdf(x[:, None]))
    t.nontrivial()
    t.check(np.all(q >= 0), "negative density")
    tot = float(np.sum(q * w))
    t.check(abs(tot - 1) < 1e-6, f"{s['kind']} integrates to {tot}")
    # shape: increasing, flat, decreasing
    lo, hi = m.flat
    up, dn = x < lo, x > hi
    mid = ~up & ~dn
    tol = 1e-9 * q.max()
    t.check(np.all(np.diff(q[up]) >= -tol), "left shoulder not monotone")
    t.check(np.all(np.diff(q[dn]) <= tol), "right shoulder not monotone")
    t.check(np.ptp(q[mid]) <= tol, "plateau not flat")
    # continuity at the inner break points
    if s["kind"] != "uniform":
        for b in m.breaks if s["kind"] == "smooth" else m.breaks[1:-1]:
            h = 1e-7 * (hi - lo)
            h = max(h, 4 * np.spacing(abs(b)))
            v = np.ravel(p.pdf(np.array([[b - h], [b], [b + h]])))
            lim = 1e-3 * q.max() * max(1.0, h / m.steep * 1e4)
            t.check(
                np.ptp(v) <= lim, f"{s['kind']} density jumps at {b}: {v}"
            )


def support_case():
    return gen.obj(
        prior=pref.prior_spec(),
        far=st.lists(fl(1e-6, 100.0), min_size=4, max_size=4),
        side=st.lists(st.booleans(), min_size=4, max_size=4),
        d=st.integers(0, 3),
    )


def support(c, t):
    s = c["prior"]
    p = pref.build(s)
    m = pref.marginals(s)
    D = len(m)
    lb, ub = p.support()
    t.nontrivial()
    t.check(
        np.shape(lb) == (D,) and np.shape(ub) == (D,),
        f"support of shapes {np.shape(lb)}, {np.shape(ub)}",
    )
    lo = np.array([k.support[0] for k in m])
    hi = np.array([k.support[1] for k in m])
    t.check(
        np.array_equal(lb, lo) and np.array_equal(ub, hi),
        lambda: f"support {lb}, {ub}; expected {lo}, {hi}",
    )
    # one coordinate outside is enough for zero density
    x = np.array([0.5 * (k.flat[0] + k.flat[1]) for k in m])
    t.check(np.isfinite(p.log_pdf(x))[0, 0], "zero density at the centre")
    d = c["d"] % D
    if np.isfinite(lo[d]):
        w = (hi[d] - lo[d]) * c["far"][d]
        x[d] = lo[d] - w if c["side"][d] else hi[d] + w
        if lo[d] <= x[d] <= hi[d]:
            return
        t.check(
            p.log_pdf(x)[0, 0] == -np.inf and p.pdf(x)[0, 0] == 0,
            f"non-zero density outside the support at {x.tolist()}",
        )


def invalid_case():
    return gen.obj(
        prior=pref.prior_spec(),
        d=st.integers(0, 3),
        how=st.sampled_from(["swap", "equal", "scale0", "scale-", "shape",
                             "dim", "wrongD"]),
        k=st.integers(0, 2),
    )


def invalid(c, t):
    s = c["prior"]
    a = [np.array(v) for v in pref.args(s)]
    kind, how, D = s["kind"], c["how"], pref.dim(s)
    d = c["d"] % D
    nb = 2 if kind in ("uniform", "smooth") else 4
    k = c["k"] % (nb - 1)
    t.nontrivial()
    cls = pref.cls(kind)
    if how == "swap":
        a[k][d], a[k + 1][d] = a[k + 1][d], a[k][d]
    elif how == "equal":
        a[k][d] = a[k + 1][d]
    elif how in ("scale0", "scale-"):
        if kind != "smooth":
            t.discard()
        a[2][d] = 0.0 if how == "scale0" else -a[2][d]
    elif how == "shape":
        a[k] = np.append(a[k], a[k][-1])
        if D + 1 == 1:
            t.discard()
    elif how == "dim":
        p = pref.build(s)
        for bad in (np.zeros((2, D + 1)), np.zeros((3, D + 2))):
            t.raises(
                ValueError, lambda b=bad: p.log_pdf(b), "wrong dimension"
            )
            t.raises(ValueError, lambda b=bad: p.pdf(b), "wrong dimension")
        return
    else:
        if D == 1:
            t.discard()
        t.raises(
            ValueError, lambda: cls(*a, D=D + 1), "conflicting dimension"
        )
        return
    t.raises(ValueError, lambda: cls(*a), f"invalid {kind} ({how})")


PROPS = [
    Prop("density", density_case, density, 6000),
    Prop("normalised", normal_case, normalised, 2000),
    Prop("support", support_case, support, 2000),
    Prop("invalid", invalid_case, invalid, 1500),
]
