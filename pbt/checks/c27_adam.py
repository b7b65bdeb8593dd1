"""C27: the stochastic gradient minimiser."""
import math

import numpy as np

from pbt import gen
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C27"
TECHNIQUE = "property-based testing with a recording objective"
RULE = (
    "Cases: convex quadratics (separable or rotated, 1-5 dimensions, "
    "curvatures over four orders of magnitude), linear, constant and noisy "
    "objectives, starting points inside and on the bounds (integer arrays "
    "too), one-, two- and no-sided bounds, step-size schedules, iteration "
    "limits from 1 to 600, with and without early stopping. Non-trivial: at "
    "least 20 iterations were made."
)
ASSUMPTIONS = [
    "the objective is called once per iteration and may keep or overwrite "
    "nothing of its argument",
    "'no worse' is judged up to the distance covered by a few of the "
    "schedule's last steps, as Adam's steps do not shrink near an optimum",
]


@st.composite
def case(draw):
    D = draw(st.integers(1, 5))
    x0 = draw(
        st.one_of(
            gen.flist(-4, 4, D),
            st.lists(st.integers(-4, 4), min_size=D, max_size=D),
        )
    )
    side = st.sampled_from(["none", "lb", "ub", "both", "both"])
    hi = draw(st.sampled_from([0.1, 0.1, 0.02, 0.5]))
    return {
        "kind": draw(st.sampled_from(
            ["quad", "quad", "rotated", "linear", "constant", "noisy"])),
        "D": D,
        "x0": x0,
        "c": draw(gen.flist(-3, 3, D)),
        "h": draw(st.lists(st.sampled_from([0.01, 0.5, 1.0, 20.0, 100.0]),
                           min_size=D, max_size=D)),
        "rot": draw(gen.SEED),
        "bounds": [
            [draw(side), draw(gen.fl(0, 3)), draw(gen.fl(0, 3))]
            for _ in range(D)
        ],
        "use_bounds": draw(st.booleans()),
        "max_iter": draw(
            st.sampled_from([1, 5, 19, 20, 21, 39, 40, 45, 100, 300, 600])),
        "stop": draw(st.sampled_from([True, False, None])),
        "tol": draw(st.sampled_from([None, 1e-3, 1e-6, 1.0])),
        "mmax": hi,
        "mmin": draw(st.sampled_from([0.001, 0.01])),
        "decay": draw(st.sampled_from([200, 50])),
        "defaults": draw(st.booleans()),
        "seed": draw(gen.SEED),
    }


def adam(c, t):
    from pyvbmc.vbmc.minimize_adam import minimize_adam

    D = c["D"]
    x0 = np.array(c["x0"])
    ctr = np.array(c["c"])
    if c["kind"] == "rotated":
        Q = gen.rotation(c["rot"], D)
        H = Q @ np.diag(c["h"]) @ Q.T
    else:
        H = np.diag(c["h"])
    noise = np.random.RandomState(c["seed"])
    calls, values = [], []

    def value(x):
        if c["kind"] == "constant":
            return 3.0
        if c["kind"] == "linear":
            return float(1e4 * np.sum(x))
        return float(0.5 * (x - ctr) @ H @ (x - ctr))

    def f(x):
        t.check(np.shape(x) == (D,), "shape of the evaluated point")
        calls.append(np.array(x, dtype=float))
        y = value(x)
        if c["kind"] == "constant":
            g = np.zeros(D)
        elif c["kind"] == "linear":
            g = np.full(D, 1e4)
        else:
            g = H @ (x - ctr)
        if c["kind"] == "noisy":
            y = y + 0.1 * noise.randn()
            g = g + 0.1 * noise.randn(D)
        values.append(y)
        return y, g

    lb = np.full(D, -np.inf)
    ub = np.full(D, np.inf)
    kw = {}
    if c["use_bounds"]:
        for i, (s, a, b) in enumerate(c["bounds"]):
            if s in ("lb", "both"):
                lb[i] = x0[i] - a
            if s in ("ub", "both"):
                ub[i] = x0[i] + b
        kw = {"lb": lb.copy(), "ub": ub.copy()}
    if not c["defaults"]:
        kw.update(master_min=c["mmin"], master_max=c["mmax"],
                  master_decay=c["decay"])
        mmin, mmax, decay = c["mmin"], c["mmax"], c["decay"]
    else:
        mmin, mmax, decay = 0.001, 0.1, 200
    if c["tol"] is not None:
        kw["tol_fun"] = c["tol"]
    if c["stop"] is not None:
        kw["use_early_stopping"] = c["stop"]
    N = c["max_iter"]
    keep = x0.copy()
    x, y, xt, yt, it = minimize_adam(f, x0, max_iter=N, **kw)
    t.check(
        np.array_equal(x0, keep) and x0.dtype == keep.dtype,
        "starting point modified",
    )
    if c["use_bounds"]:
        t.check(
            np.array_equal(kw["lb"], lb) and np.array_equal(kw["ub"], ub),
            "bounds modified",
        )
    t.nontrivial(it >= 20)
    t.check(1 <= it <= N, f"{it} iterations of at most {N}")
    t.check(len(calls) == it, f"{len(calls)} evaluations in {it} iterations")
    t.check(xt.shape == (D, it), "shape of the trace of points")
    t.check(yt.shape == (it,), "shape of the trace of values")
    t.check(np.shape(x) == (D,), "shape of the result")
    t.close(yt, values, "trace of values", rtol=0, atol=0)
    pts = np.array(calls).T
    t.close(pts[:, 0], keep, "first evaluated point", rtol=0, atol=0)
    if it > 1:
        t.close(pts[:, 1:], xt[:, :-1], "trace of points", rtol=0, atol=0)
    for p in (pts, xt, x[:, None]):
        t.check(
            np.all(p >= lb[:, None] - 1e-12)
            and np.all(p <= ub[:, None] + 1e-12),
            "a point is outside the bounds",
        )
    t.check(
        np.all(pts >= lb[:, None]) and np.all(pts <= ub[:, None]),
        "evaluated outside the bounds",
    )
    # the result averages the last iterations
    ms = [20] if it >= 20 else range(1, it + 1)
    ok = [
        m
        for m in ms
        if np.allclose(x, xt[:, -m:].mean(axis=1), rtol=1e-9, atol=1e-12)
        and np.isclose(y, yt[-m:].mean(), rtol=1e-9, atol=1e-12)
    ]
    t.check(bool(ok), "result is not the average of the last iterations")
    # early stopping
    if c["stop"] is False:
        t.check(it == N, f"stopped at {it} of {N} without early stopping")
    if it < N:
        t.label("early stop")
        t.check(it >= 40, f"stopped after {it} iterations only")
        mv = np.linalg.norm(
            xt[:, -20:].mean(axis=1) - xt[:, -40:-20].mean(axis=1)
        ) / math.sqrt(20)
        t.check(mv < 0.1 + 1e-9, f"stopped while moving by {mv:.3g}")
        tol = 100 * (0.001 if c["tol"] is None else c["tol"])
        k = np.arange(20) - 9.5
        p, V = np.polyfit(k, yt[-20:], 1, cov=True)
        t.check(
            abs(p[0]) < math.sqrt(V[0, 0] + tol**2) * (1 + 1e-6),
            f"stopped while changing by {p[0]:.3g} per iteration",
        )
    if c["kind"] == "constant":
        t.check(np.allclose(x, keep), "moved on a constant objective")
        if c["stop"] is not False and N >= 40:
            t.check(it <= 60, f"{it} iterations on a constant objective")
    if c["kind"] == "linear":
        t.check(np.all(np.diff(xt, axis=1) <= 1e-12), "moved uphill")
        t.check(np.all(pts[:, 1:] <= pts[:, :1] + 1e-12), "moved uphill")
        if np.all(np.isinf(lb)):
            t.check(it == N, "stopped on a steadily decreasing objective")
            # a steady gradient moves each coordinate by the schedule
            s = mmin + (mmax - mmin) * np.exp(
                -(np.arange(it) + 1) / decay)
            t.close(keep - xt[:, -1], np.full(D, s.sum()),
                    "distance covered on a linear objective", rtol=1e-3)
    if c["kind"] in ("quad", "rotated") and it >= 20:
        # size of late steps
        s = mmin + (mmax - mmin) * math.exp(-max(it - 40, 0) / decay)
        rad = 12 * s
        slack = 0.5 * np.sum(c["h"]) * rad**2
        best = value(np.asarray(keep, dtype=float))
        t.check(
            value(x) <= best + slack,
            f"ended at {value(x):.4g}, started at {best:.4g} "
            f"({it} iterations)",
        )
        if (
            N == 600 and c["stop"] is False and not c["use_bounds"]
            and not c["defaults"] and c["mmax"] >= 0.1 and decay == 200
            and c["kind"] == "quad"
        ):
            t.label("optimum")
            t.close(x, ctr, "optimum of a quadratic", rtol=0, atol=0.35)
        if (
            c["kind"] == "quad" and c["use_bounds"] and N == 600
            and c["stop"] is False and decay == 200 and mmax >= 0.1
        ):
            t.label("bounded optimum")
            t.close(x, np.clip(ctr, lb, ub), "bounded optimum", rtol=0,
                    atol=0.35)


PROPS = [Prop("adam", case, adam, 2500)]
