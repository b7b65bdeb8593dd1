"""C01: the change of variables is an order-preserving bijection in bounds."""
import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C01"
RULE = (
    "Cases: 1-4 coordinates, each bounded or unbounded over six orders of "
    "magnitude, every transform type, with and without plausible-range "
    "centring, rotation and rescaling; points as fractions of the range "
    "including 1e-12 from a bound, and unconstrained points up to 1e4. "
    "Non-trivial: at least one bounded coordinate, or a rotation/scale."
)
ASSUMPTIONS = [
    "ranges between 1e-2 and 1e4 wide, bounds at least 1e-6 of their "
    "magnitude apart",
    "scipy.stats quantile/cdf functions are the reference for the three "
    "link functions",
]


def case():
    return gen.obj(
        t=gen.transformer_spec(),
        fr=st.lists(
            st.lists(gen.FRAC, min_size=4, max_size=4), min_size=1, max_size=4
        ),
        u=st.lists(gen.flist(-3, 3, 4), min_size=1, max_size=3),
        big=st.sampled_from([1.0, 1.0, 10.0, 1e2, 1e4]),
    )


def points(c):
    ds = c["t"]["dims"]
    lb, ub, plb, pub = gen.bounds_of(ds)
    fr = np.array(c["fr"])[:, : len(ds)]
    lo = np.where(np.isfinite(lb), lb, plb - 2 * (pub - plb))
    hi = np.where(np.isfinite(ub), ub, pub + 2 * (pub - plb))
    x = lo + fr * (hi - lo)
    bounded = np.isfinite(lb)
    x = np.where(bounded & (x <= lb), np.nextafter(lb, np.inf), x)
    x = np.where(bounded & (x >= ub), np.nextafter(ub, -np.inf), x)
    return x, lo, hi


def interesting(c, t):
    t.nontrivial(
        any(d["k"] == "b" for d in c["t"]["dims"])
        or c["t"]["rot"] is not None
        or c["t"]["scale"] is not None
    )
    t.label("type:" + c["t"]["type"])


def roundtrip(c, t):
    interesting(c, t)
    pt = gen.build_transformer(c["t"])
    r = ref.ref_transform(c["t"])
    x, lo, hi = points(c)
    x0 = x.copy()
    u = pt(x)
    t.check(np.array_equal(x, x0), "direct transform modified its input")
    t.check(u.shape == x.shape, "shape changed")
    t.check(np.all(np.isfinite(u)), "interior point mapped to a non-finite")
    back = pt.inverse(u)
    rng = hi - lo
    # absolute accuracy relative to the range; the rotation mixes
    # coordinates, so allow the amplification it brings
    # student4's quantile is computed with a cancelling square root near the
    # middle of the range (error 1e-8 there), hence its tolerance
    roto = c["t"]["rot"] is not None or c["t"]["scale"] is not None
    tol = 3e-8 if c["t"]["type"] == "student4" else 1e-11
    if roto:
        tol = max(tol, 1e-9)
    err = np.abs(back - x) / (rng + 1e-3 * np.abs(x))
    t.check(
        np.all(err < tol),
        lambda: f"x -> u -> x is off by {err.max():.3g} of the range: "
        f"{x.tolist()} -> {back.tolist()}",
    )
    t.check(
        np.all(back > r.lb) and np.all(back < r.ub),
        lambda: f"inverse of a transformed point left the open bounds: "
        f"{back.tolist()}",
    )


def reference(c, t):
    interesting(c, t)
    pt = gen.build_transformer(c["t"])
    r = ref.ref_transform(c["t"])
    D = r.D
    x, lo, hi = points(c)
    # moderate points only: the quantile functions' conditioning
    fr = (x - lo) / (hi - lo)
    keep = np.all((fr > 1e-4) & (fr < 1 - 1e-4), axis=1)
    if keep.any():
        got = pt(x[keep])
        want = r.direct(x[keep])
        s = 1.0 / np.min(r.s * 1.0) * max(1.0, 1.0 / np.min(np.abs(r.delta)))
        tol = 2e-7 if c["t"]["type"] == "student4" else 1e-9
        err = np.max(np.abs(got - want))
        t.check(
            err < tol * s * 50,
            lambda: f"direct transform differs from the reference by {err}",
        )
        t.label("direct-reference")
    u = np.array(c["u"])[:, :D] * c["big"]
    got = pt.inverse(u)
    want = r.inverse(u)
    rng = np.where(np.isfinite(r.ub - r.lb), r.ub - r.lb, hi - lo)
    err = np.abs(got - want) / (rng + np.abs(want))
    t.check(
        np.all(err < 1e-10),
        lambda: f"inverse transform differs from the reference by {err.max()}"
        f" of the range at u={u.tolist()}",
    )
    t.check(
        np.all(got > r.lb) and np.all(got < r.ub),
        lambda: f"inverse left the open bounds at u={u.tolist()}: "
        f"{got.tolist()}",
    )
    if c["t"]["center"]:
        # The plausible box is [-1/2, 1/2]^D before rotating.
        b = gen.bounds_of(c["t"]["dims"])
        p = pt(b[2]) * r.s @ r.R.T
        q = pt(b[3]) * r.s @ r.R.T
        t.close(p, -0.5 * np.ones((1, D)), "plausible lower corner", 0, 1e-6)
        t.close(q, 0.5 * np.ones((1, D)), "plausible upper corner", 0, 1e-6)


def u_roundtrip(c, t):
    interesting(c, t)
    pt = gen.build_transformer(c["t"])
    r = ref.ref_transform(c["t"])
    u = np.array(c["u"])[:, : r.D]
    y = r.unroto(u)
    if np.any(np.abs(y[:, r.bounded]) > 4):
        t.discard()
    u2 = pt(pt.inverse(u))
    # quantile conditioning: |du| <= eps / pdf(y) / delta
    t.check(
        np.max(np.abs(u2 - u)) < 1e-5,
        lambda: f"u -> x -> u: {u.tolist()} -> {u2.tolist()}",
    )


def monotone(c, t):
    spec = dict(c["t"], rot=None, scale=None)
    interesting({"t": spec}, t)
    pt = gen.build_transformer(spec)
    D = len(spec["dims"])
    x, _, _ = points(c)
    for i in range(D):
        xs = np.repeat(x[:1], len(x), axis=0)
        xs[:, i] = np.sort(x[:, i])
        u = pt(xs)
        t.check(
            np.all(np.diff(u[:, i]) >= 0),
            lambda: f"coordinate {i} is not increasing: {xs[:, i].tolist()}",
        )
        gap = np.diff(xs[:, i]) > 1e-6 * np.ptp(xs[:, i]) + 1e-9 * np.abs(
            xs[:-1, i]
        )
        t.check(
            np.all(np.diff(u[:, i])[gap] > 0),
            lambda: f"coordinate {i}: distinct points share an image",
        )
        other = [j for j in range(D) if j != i]
        t.check(
            np.all(u[:, other] == u[:1, other]),
            "moving one coordinate moved another",
        )
        us = np.sort(np.array(c["u"])[:, i] * c["big"])
        v = np.zeros((len(us), D))
        v[:, i] = us
        xi = pt.inverse(v)[:, i]
        t.check(np.all(np.diff(xi) >= 0), "inverse is not increasing")


def conventions(c, t):
    interesting(c, t)
    pt = gen.build_transformer(c["t"])
    x, lo, hi = points(c)
    u = pt(x)
    for i in range(len(x)):
        one = pt(x[i])
        t.check(one.shape == x[i].shape, "1-D input changed shape")
        t.close(one, u[i], "row alone differs from a batch", 1e-9, 1e-9)
        inv = pt.inverse(u[i])
        t.check(inv.shape == u[i].shape, "inverse: 1-D input changed shape")
        t.check(
            np.all(np.abs(inv - pt.inverse(u)[i]) < 1e-10 * (hi - lo)),
            "inverse: row alone differs from row in a batch",
        )
    # integer-valued inputs mean the same as their float values
    ds = c["t"]["dims"]
    lb, ub, plb, pub = gen.bounds_of(ds)
    xi = np.round(0.5 * (plb + pub)).astype(int)
    if np.all(xi > lb) and np.all(xi < ub):
        t.label("integer input")
        t.close(pt(xi), pt(xi.astype(float)), "integer input", 0, 0)
    u0 = pt(0.5 * (plb + pub))
    ui = np.array([[1] * len(ds), [-1] * len(ds)])
    t.close(
        pt.inverse(ui), pt.inverse(ui.astype(float)), "integer inverse", 0, 0
    )
    t.check(np.all(np.isfinite(u0)), "plausible centre not finite")


def edge(c, t):
    """The floating-point neighbours of the bounds are interior points."""
    spec = dict(c["t"], rot=None, scale=None)
    pt = gen.build_transformer(spec)
    x, _, _ = points(c)
    lb, ub, plb, pub = gen.bounds_of(spec["dims"])
    for i in range(len(spec["dims"])):
        if not np.isfinite(lb[0, i]):
            continue
        t.nontrivial()
        lo, hi = [lb[0, i]], [ub[0, i]]
        for k in range(c["steps"]):
            lo.append(np.nextafter(lo[-1], np.inf))
            hi.append(np.nextafter(hi[-1], -np.inf))
        mid = np.sort(x[:, i])
        xs = np.concatenate([lo[1:], mid, hi[:0:-1]])
        xs = np.sort(xs)
        v = np.repeat(0.5 * (plb + pub), len(xs), axis=0)
        v[:, i] = xs
        u = pt(v)[:, i]
        t.check(np.all(np.isfinite(u)), lambda: (
            f"interior points {xs[~np.isfinite(u)]} of {lb[0, i], ub[0, i]} "
            f"mapped to {u[~np.isfinite(u)]}"))
        t.check(np.all(np.diff(u) >= 0), lambda: (
            f"coordinate {i} is not increasing at the bounds: {u}"))
        w = np.zeros((len(u), v.shape[1]))
        w[:, i] = u
        b = pt.inverse(w)[:, i]
        t.check(np.all((b > lb[0, i]) & (b < ub[0, i])),
                "inverse of an interior point is not an interior point")
        tol = 3e-8 if spec["type"] == "student4" else 1e-11
        t.check(np.all(np.abs(b - xs) < tol * (
            ub[0, i] - lb[0, i] + np.abs(xs))), lambda: (
            f"x -> u -> x at the bounds: {xs} -> {b}"))
        w[:, i] = np.sort(np.concatenate(
            [-c["far"] * np.array(c["f"]), c["far"] * np.array(c["f"])]
        ))[: len(w)] if 2 * len(c["f"]) >= len(w) else 0.0
        b = pt.inverse(w)[:, i]
        # (up to rounding: the link functions cancel near 0 and 1)
        t.check(np.all(np.diff(b) >= -1e-14 * (
            ub[0, i] - lb[0, i] + np.abs(b[1:]))) and np.all(
            (b > lb[0, i]) & (b < ub[0, i])),
            lambda: f"inverse at {w[:, i]}: {b}")


def edge_case():
    return gen.obj(
        t=gen.transformer_spec(),
        fr=st.lists(
            st.lists(gen.FRAC, min_size=4, max_size=4), min_size=1, max_size=4
        ),
        steps=st.integers(1, 4),
        far=st.sampled_from([1.0, 10.0, 40.0, 800.0, 1e5, 1e100]),
        f=st.lists(gen.fl(0, 1), min_size=6, max_size=6),
    )


@st.composite
def eq_case(draw):
    a = draw(gen.transformer_spec(roto=True))
    change = draw(
        st.sampled_from(
            ["none", "scale", "rot", "lb", "plb", "type", "noscale", "norot"]
        )
    )
    return {"a": a, "change": change, "seed": draw(gen.SEED)}


def equality(c, t):
    """Transformers compare equal exactly when they are the same map."""
    import copy

    a, b = c["a"], copy.deepcopy(c["a"])
    D = len(a["dims"])
    ch = c["change"]
    if ch == "scale":
        if a["scale"] is None:
            t.discard()
        b["scale"][c["seed"] % D] *= 1.5
    elif ch == "noscale":
        if a["scale"] is None:
            t.discard()
        b["scale"] = None
    elif ch == "rot":
        if a["rot"] is None or D == 1:
            t.discard()
        b["rot"] = a["rot"] + 1
    elif ch == "norot":
        if a["rot"] is None or D == 1:
            t.discard()
        b["rot"] = None
    elif ch == "lb":
        if b["dims"][0]["k"] != "b":
            t.discard()
        b["dims"][0]["lb"] -= 0.5 * (
            b["dims"][0]["ub"] - b["dims"][0]["lb"]
        )
    elif ch == "plb":
        d = b["dims"][0]
        d["plb"] += 0.25 * (d["pub"] - d["plb"])
    elif ch == "type":
        if all(d["k"] == "u" for d in b["dims"]):
            t.discard()
        fam = {"logit": 0, "probit": 1, "norminv": 1, "student4": 2}
        b["type"] = [
            k for k in gen.TRANSFORMS if fam[k] != fam[a["type"]]
        ][0]
    t.nontrivial()
    t.label("eq:" + ch)
    pa, pb = gen.build_transformer(a), gen.build_transformer(b)
    same = bool(pa == pb)
    if ch == "none":
        t.check(same, "identically built transformers compare unequal")
        t.check(
            bool(pa == copy.deepcopy(pa)), "a copy compares unequal"
        )
    else:
        u = np.random.RandomState(c["seed"]).uniform(-1, 1, (4, D))
        differ = not np.allclose(
            pa.inverse(u), pb.inverse(u), rtol=1e-6, atol=1e-9
        )
        t.check(
            not (same and differ),
            f"transformers that differ in {ch} (and map differently) "
            "compare equal",
        )


PROPS = [
    Prop("roundtrip", case, roundtrip, 2400),
    Prop("reference", case, reference, 2400),
    Prop("u_roundtrip", case, u_roundtrip, 1600),
    Prop("monotone", case, monotone, 1200),
    Prop("edge", edge_case, edge, 2400),
    Prop("conventions", case, conventions, 1200),
    Prop("equality", eq_case, equality, 800),
]
