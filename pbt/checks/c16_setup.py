"""C16: problem setup gives ordered bounds and interior starts, or raises."""
import numpy as np

from pbt import gen
from pbt.core import Prop
from pbt.gen import fl, st

PROPERTY = "C16"
RULE = (
    "Cases: 1-4 variables each with hard bounds (none, wide, touching or "
    "nearly touching the plausible box), plausible bounds (given, omitted, "
    "one-sided, touching), starting sets of 0-5 points (on bounds, near "
    "them, outside the plausible box, identical), row / flat / column / "
    "integer / scalar array forms, and mutations that make the problem "
    "invalid. Non-trivial: an adjustment was needed, a bound was omitted, or "
    "the problem was invalid."
)
ASSUMPTIONS = [
    "the documented small adjustment keeps starting points and plausible "
    "bounds at least 0.1% of the hard range away from the hard bounds and "
    "expands plausible bounds to include the starting points",
]

EFF = 1e-3


@st.composite
def var(draw):
    sc = 10.0 ** draw(st.integers(-3, 5))
    c = draw(st.one_of(fl(-3, 3), st.just(0.0)))
    w = draw(fl(0.1, 4))
    return {
        "s": sc,
        "c": c,
        "w": w,
        "hard": draw(st.sampled_from("bbbu")),
        "gap": [
            draw(st.one_of(fl(0.05, 5), st.sampled_from([0.0, 1e-6, 1e-4])))
            for _ in range(2)
        ],
        "zero": draw(st.sampled_from(["", "", "", "lb", "ub"])),
    }


def base(c):
    """Arrays (D,) of a valid problem: lb, ub, plb, pub."""
    lb, ub, pl, pu = [], [], [], []
    for v in c["vars"]:
        a = v["s"] * (v["c"] - v["w"] / 2)
        b = v["s"] * (v["c"] + v["w"] / 2)
        lo = a - v["s"] * v["w"] * v["gap"][0]
        hi = b + v["s"] * v["w"] * v["gap"][1]
        off = {"lb": -lo, "ub": -hi}.get(v["zero"], 0.0)
        lo, a, b, hi = lo + off, a + off, b + off, hi + off
        lo, hi = min(lo, a), max(hi, b)
        if v["hard"] == "u":
            lo, hi = -np.inf, np.inf
        lb.append(lo), ub.append(hi), pl.append(a), pu.append(b)
    return [np.array(x) for x in (lb, ub, pl, pu)]


POS = ["in", "in", "in", "plb", "pub", "lb", "ub", "near_lb", "near_ub",
       "outside", "same"]


def start(c, lb, ub, pl, pu):
    if c["x0"] is None:
        return None
    rows = []
    for r in c["x0"]:
        x = []
        for d in range(len(lb)):
            how, f = r[d]
            lo = lb[d] if np.isfinite(lb[d]) else pl[d] - 2 * (pu[d] - pl[d])
            hi = ub[d] if np.isfinite(ub[d]) else pu[d] + 2 * (pu[d] - pl[d])
            v = {
                "in": pl[d] + f * (pu[d] - pl[d]),
                "plb": pl[d],
                "pub": pu[d],
                "lb": lo,
                "ub": hi,
                "near_lb": lo + 1e-5 * f * (hi - lo),
                "near_ub": hi - 1e-5 * f * (hi - lo),
                "outside": lo + f * (hi - lo),
                "same": 0.5 * (pl[d] + pu[d]),
            }[how]
            x.append(min(max(v, lo), hi))
        rows.append(x)
    return np.array(rows)


def case():
    row = st.lists(
        st.tuples(st.sampled_from(POS), fl(0.0, 1.0)).map(list),
        min_size=4, max_size=4,
    )
    return gen.obj(
        vars=st.lists(var(), min_size=1, max_size=4),
        x0=st.one_of(
            st.none(), st.lists(row, min_size=1, max_size=1),
            st.lists(row, min_size=1, max_size=5),
        ),
        omit=st.sampled_from(["", "", "", "pb", "plb", "pub", "hard"]),
        form=st.sampled_from(["row", "flat", "col", "int", "mixed", "scalar"]),
        alike=st.integers(0, 3),
        nanx=st.sampled_from([0, 0, 0, 1, 2]),
        bad=st.one_of(
            st.none(), st.none(), st.none(),
            st.tuples(
                st.sampled_from(
                    ["swap_hard", "swap_pl", "eq_pl", "pl_out", "pu_out",
                     "inf_pl", "nan_pl", "nan_pu", "half_lo", "half_hi",
                     "fixed", "x_out", "shape_lb", "shape_ub", "shape_pl",
                     "shape_pu", "nan_lb", "nan_ub", "complex"]
                ),
                st.integers(0, 3),
            ).map(list),
        ),
    )


def expected(lb, ub, pl, pu, x0):
    """Reference outcome for a fully specified valid problem."""
    rng = np.where(np.isinf(ub - lb), 1e3, ub - lb)
    fb = np.isfinite(lb)
    le = np.where(fb, lb + EFF * rng, -np.inf)
    ue = np.where(fb, ub - EFF * rng, np.inf)
    pl2, pu2 = np.maximum(pl, le), np.minimum(pu, ue)
    if x0 is None:
        return 0.5 * (pl2 + pu2)[None, :], pl2, pu2
    x = np.clip(x0, le, ue)
    return x, np.minimum(pl2, x.min(0)), np.maximum(pu2, x.max(0))


def estimated(a, lb, ub, x0):
    """Plausible bounds as documented: those given, otherwise estimated from
    the starting set, or (for one point) the hard bounds."""
    pl, pu = a["pl"], a["pu"]
    if len(x0) > 1:
        w = (x0.max(0) - x0.min(0)) / len(x0)
        lo, hi = np.maximum(x0.min(0) - w, lb), np.minimum(x0.max(0) + w, ub)
    else:
        lo, hi = lb, ub
    pl = lo if pl is None else pl
    pu = hi if pu is None else pu
    same = (pl == pu) & (len(x0) > 1)
    return np.where(same, lb, pl), np.where(same, ub, pu)


def shape_as(v, form, i):
    if v is None:
        return None
    if form == "scalar" and np.all(v == v[0]):
        return float(v[0])  # documented to be replicated
    if form == "flat" or (form == "mixed" and i % 3 == 0):
        return v.copy()
    if form == "col":
        return v.reshape(-1, 1).copy()
    if form == "int" and np.all(np.isfinite(v)) and np.all(v == np.round(v)):
        return v.astype(int).reshape(1, -1)
    return v.reshape(1, -1).copy()


def setup(c, t):
    from pyvbmc import VBMC

    form = c["form"]
    if form == "scalar" and c["alike"]:
        c = dict(c, vars=[c["vars"][0]] * len(c["vars"]))
    lb, ub, pl, pu = base(c)
    D = len(lb)
    if form == "int":
        f = lambda v: np.where(np.isfinite(v), np.round(v), v)
        lb, pl = f(lb), f(pl)
        pu, ub = f(pu), f(ub)
        pu = np.maximum(pu, pl + 1)
        ub = np.where(np.isfinite(ub), np.maximum(ub, pu), ub)
    x0 = start(c, lb, ub, pl, pu)
    if form == "int" and x0 is not None:
        x0 = np.clip(np.round(x0), lb, ub)
    # a hard range not resolvable in floating point is out of scope
    ref = np.maximum(np.abs(pl), np.abs(pu))
    if np.any(pu - pl < 1e-9 * ref):
        t.discard()
    a = {"lb": lb, "ub": ub, "pl": pl, "pu": pu}
    omit = c["omit"]
    if omit in ("pb", "plb"):
        a["pl"] = None
    if omit in ("pb", "pub"):
        a["pu"] = None
    if omit == "hard":
        a["lb"] = a["ub"] = None
        lb, ub = np.full(D, -np.inf), np.full(D, np.inf)
    bad = c["bad"]
    must_raise = False
    if bad is not None:
        how, d = bad[0], bad[1] % D
        r = damage(a, x0, how, d, D)
        if r is None:
            t.discard()
        x0 = r
        must_raise = True
        t.label("invalid " + how)
    if x0 is None and (a["pl"] is None or a["pu"] is None):
        must_raise = True
    names = ["lb", "ub", "pl", "pu"]
    args = [
        a[n] if isinstance(a[n], np.ndarray) and a[n].ndim > 1
        else shape_as(a[n], form if bad is None else "row", i)
        for i, n in enumerate(names)
    ]
    if x0 is None and form == "col":
        # the dimension is read off the plausible bounds' second axis
        args[2:] = [None if v is None else v.reshape(1, -1) for v in args[2:]]
    if form == "scalar":  # documented for the hard bounds
        args[2:] = [
            None if a[k] is None else np.reshape(a[k], (1, -1)).copy()
            for k in names[2:]
        ]
    if c["nanx"] and bad is None and x0 is not None and len(x0) == 1:
        partly = False
        # a non-finite starting point means "none": start from the centre
        xa = np.full((1, D), np.nan)
        if c["nanx"] == 2:
            xa = x0.astype(float).copy()
            xa[0, -1] = np.nan
            partly = D > 1
        x0 = None
        must_raise = a["pl"] is None or a["pu"] is None
        if must_raise and np.all(np.isfinite(ub - lb)):
            must_raise = False
        t.label("non-finite start")
    else:
        xa, partly = x0, False
    if xa is None or np.any(np.isnan(xa)):
        pass
    else:
        if form == "flat" and len(xa) == 1:
            xa = xa[0].copy()
        elif form == "int":
            xa = xa.astype(int) if bad is None else xa.copy()
        else:
            xa = xa.copy()
    given = [xa] + args
    snap = [None if v is None else np.copy(v) for v in given]

    def call():
        return VBMC(
            lambda x: 0.0, xa, *args, options={"display": "off"}
        )

    try:
        v = call()
    except ValueError as e:
        v, err = None, e
    for g, s, n in zip(given, snap, ["x0", "LB", "UB", "PLB", "PUB"]):
        t.check(
            g is None
            or not isinstance(g, np.ndarray)
            or (
                g.dtype == s.dtype
                and g.shape == s.shape
                and np.array_equal(g, s, equal_nan=True)
            ),
            f"the caller's {n} was modified",
        )
    if must_raise:
        t.nontrivial()
        t.check(
            v is None,
            lambda: f"invalid problem accepted ({bad}): LB {args[0]}, UB "
            f"{args[1]}, PLB {args[2]}, PUB {args[3]}, x0 {xa}",
        )
        return
    complete = a["pl"] is not None and a["pu"] is not None
    if v is None and partly:
        return  # a partly missing start may be refused
    if v is None:
        if complete:
            rng = ub - lb
            tight = np.isfinite(rng) & (
                np.maximum(np.abs(lb), np.abs(ub)) * 1e-12 > rng * EFF
            )
            t.check(
                np.any(tight),
                lambda: f"valid problem rejected: {err} (LB {args[0]}, UB "
                f"{args[1]}, PLB {args[2]}, PUB {args[3]}, x0 {xa})",
            )
        elif x0 is not None:
            ep, eq = estimated(a, lb, ub, np.atleast_2d(x0))
            rng = ub - lb
            span = eq - ep
            ok = np.isfinite(span) & (
                span > 0.01 * np.where(np.isfinite(rng), rng, span)
            )
            t.check(
                not np.all(ok)
                or np.any(
                    np.maximum(np.abs(ep), np.abs(eq)) * 1e-9 > span
                ),
                lambda: f"valid problem rejected: {err} (LB {args[0]}, UB "
                f"{args[1]}, PLB {args[2]}, PUB {args[3]}, x0 {xa})",
            )
        t.label("incomplete bounds rejected")
        return
    L, U, P, Q = (
        np.asarray(q)
        for q in (v.lower_bounds, v.upper_bounds, v.plausible_lower_bounds,
                  v.plausible_upper_bounds)
    )
    for q, n in ((L, "LB"), (U, "UB"), (P, "PLB"), (Q, "PUB")):
        t.check(
            q.shape == (1, D) and np.issubdtype(q.dtype, np.floating),
            f"{n}: shape {q.shape}, {q.dtype}",
        )
    t.check(
        np.all(L < P) and np.all(P < Q) and np.all(Q < U),
        lambda: f"bounds not strictly ordered: {L} {P} {Q} {U}",
    )
    t.check(
        np.all(np.isfinite(P)) and np.all(np.isfinite(Q)), "infinite PB"
    )
    t.check(
        np.all(np.isfinite(L) == np.isfinite(U)), "half-bounded variable"
    )
    t.check(
        np.array_equal(L[0], lb) and np.array_equal(U[0], ub),
        "hard bounds differ from the user's",
    )
    X = np.asarray(v.optim_state["cache"]["x_orig"])
    t.check(
        X.ndim == 2 and X.shape[1] == D and np.issubdtype(
            X.dtype, np.floating
        ), f"starting points {X.shape} {X.dtype}"
    )
    t.check(
        np.all(X > L) and np.all(X < U) and np.all(X >= P)
        and np.all(X <= Q),
        lambda: f"starting points {X} outside [{P}, {Q}] or hard bounds",
    )
    t.check(
        np.shape(v.x0) == X.shape and np.all(np.isfinite(v.x0)),
        "transformed starting points",
    )
    t.close(
        v.parameter_transformer.inverse(v.x0), X, "transformed start",
        1e-6, 1e-9 * float(np.max(Q - P)),
    )
    if x0 is not None:
        t.check(len(X) == len(np.atleast_2d(x0)), "number of starting points")
    # the initial posterior sits on the starting points
    m = v.vp.mu
    t.check(m.shape == (D, v.vp.K) and v.vp.K == v.options["k_warmup"],
            f"initial posterior of shape {m.shape}")
    want = np.resize(v.x0, (v.vp.K, D)).T
    t.check(np.all(np.abs(m - want) < 2e-5), lambda: (
        f"initial posterior at {m}, the starting points are at {want}"))
    if complete:
        ex, ep, eq = expected(lb, ub, pl, pu, x0)
        tol = 1e-9 * float(np.max(np.abs(np.concatenate([pl, pu]))))
        tol = dict(rtol=1e-9, atol=1e-12 * (1 + tol))
        t.close(X, ex, "starting points", **tol)
        t.close(P[0], ep, "plausible lower bounds", **tol)
        t.close(Q[0], eq, "plausible upper bounds", **tol)
        t.nontrivial(
            not (np.array_equal(ep, pl) and np.array_equal(eq, pu))
        )
    else:
        t.nontrivial()
        # a plausible bound that was given may only move outwards to the
        # starting points or inwards off the hard bound; degenerate
        # estimates fall back on the hard bounds
        t.check(
            np.all(P[0] <= X.min(0)) and np.all(Q[0] >= X.max(0)),
            "plausible box does not contain the starting points",
        )
        if x0 is not None:
            # ... and the estimate is the documented one
            ep, eq = estimated(a, lb, ub, np.atleast_2d(x0))
            if np.all(np.isfinite(eq - ep)) and np.all(ep < eq):
                _, ep, eq = expected(lb, ub, ep, eq, np.atleast_2d(x0))
                tol = 1e-9 * float(np.max(eq - ep))
                t.close(P[0], ep, "estimated plausible lower bounds", 1e-9,
                        tol)
                t.close(Q[0], eq, "estimated plausible upper bounds", 1e-9,
                        tol)


def damage(a, x0, how, d, D):
    """Make the problem invalid in place; None if it cannot be."""
    for k in a:
        a[k] = None if a[k] is None else a[k].astype(float).copy()
    xs = None if x0 is None else x0.astype(float).copy()
    lb, ub, pl, pu = a["lb"], a["ub"], a["pl"], a["pu"]
    if how == "swap_hard":
        if lb is None or not np.isfinite(lb[d]):
            return None
        lb[d], ub[d] = ub[d], lb[d]
    elif how in ("swap_pl", "eq_pl"):
        if pl is None or pu is None:
            return None
        if how == "swap_pl":
            pl[d], pu[d] = pu[d], pl[d]
        else:
            pu[d] = pl[d]
    elif how in ("pl_out", "pu_out"):
        if lb is None or pl is None or pu is None or not np.isfinite(lb[d]):
            return None
        w = 0.1 * (ub[d] - lb[d])
        if how == "pl_out":
            pl[d] = lb[d] - w
        else:
            pu[d] = ub[d] + w
    elif how in ("inf_pl", "nan_pl"):
        if pl is None:
            return None
        pl[d] = -np.inf if how == "inf_pl" else np.nan
    elif how == "nan_pu":
        if pu is None:
            return None
        pu[d] = np.nan
    elif how in ("half_lo", "half_hi"):
        if lb is None or not np.isfinite(lb[d]):
            return None
        if how == "half_lo":
            lb[d] = -np.inf
        else:
            ub[d] = np.inf
    elif how == "fixed":
        if lb is None or pl is None or pu is None:
            return None
        v = 0.5 * (pl[d] + pu[d])
        lb[d] = ub[d] = pl[d] = pu[d] = v
        if xs is not None:
            xs[:, d] = v
    elif how == "x_out":
        if xs is None or lb is None or not np.isfinite(lb[d]):
            return None
        xs[len(xs) // 2, d] = ub[d] + 0.01 * (ub[d] - lb[d])
    elif how.startswith("shape_"):
        k = {"lb": "lb", "ub": "ub", "pl": "pl", "pu": "pu"}[how[6:]]
        if a[k] is None or (xs is None and k in ("pl", "pu")):
            return None
        a[k] = np.append(a[k], a[k][-1] + 1.0)
        if D == 1 and xs is None:
            return None
    elif how in ("nan_lb", "nan_ub"):
        if lb is None:
            return None
        a[how[4:]][d] = np.nan
    elif how == "complex":
        if pl is None:
            return None
        a["pl"] = pl + 1j
    return xs


PROPS = [Prop("setup", case, setup, 4000)]
