"""C04: where, how often and with what result the target is evaluated."""
import numpy as np

from pbt import runcfg
from pbt.core import Prop

PROPERTY = "C04"
TECHNIQUE = (
    "complete generated runs with a recording target; the record is compared "
    "with the bounds, the budget and the final log"
)
RULE = (
    "Cases: complete small runs over generated bounds (bounded, unbounded, "
    "integer), targets pushing towards the bounds, flat, narrow or curved, "
    "noise modes, given starting values, priors, return types, acquisition "
    "functions, search, update and design options. Non-trivial: active "
    "sampling took place (more calls than the initial design)."
)
ASSUMPTIONS = ["runs are small (at most 41 evaluations, 7 iterations)"]


def evaluations(c, t):
    R = runcfg.Run(c)
    D = R.D
    if len(np.unique(R.x0, axis=0)) < len(R.x0):
        t.discard()
    np.random.seed(c["seed"] % 2**32)
    v = R.vbmc()
    t.check(not R.calls, "target called before the run")
    vp, res = v.optimize()
    C, n = np.array(R.calls).reshape(-1, D), len(R.calls)
    g = np.array(c["given"], dtype=bool)
    start = v.options["fun_eval_start"]
    t.nontrivial(n + g.sum() > start)
    for k in sorted(c["o"]):
        t.label(k)
    t.check(len(set(R.shapes)) == 1, f"argument shapes {set(R.shapes)}")
    t.check(R.shapes[0] in ((D,), (1, D)), f"argument shape {R.shapes[0]}")
    bad = (C <= R.lb) | (C >= R.ub) | ~np.isfinite(C)
    t.check(not bad.any(), lambda: (
        f"called at {C[bad.any(1)][0].tolist()} "
        f"(bounds {R.lb.tolist()} {R.ub.tolist()})"))
    I = C[:, R.ints]
    t.check(np.all(np.abs(I - np.round(I)) < 1e-6), lambda: (
        f"not an integer: {I[np.argmax(np.abs(I - np.round(I)).max(1))]}"))
    if c["prior"] != "none":
        t.check(len(R.priors) == n and np.array_equal(
            np.array(R.priors).reshape(-1, D), C), "prior called elsewhere")
    # counts and budget
    f = v.function_logger
    t.check(f.func_count == n, f"{f.func_count} counted, {n} calls")
    t.check(res["func_count"] == n, f"{res['func_count']} reported, {n}")
    batch = v.options["fun_evals_per_iter"]
    first = start - g.sum()
    t.check(n <= max(first, c["evals"] - 1 + batch),
            f"{n} calls for at most {c['evals']}")
    its = len(v.iteration_history["iter"])
    t.check(its <= c["iters"], f"{its} iterations for {c['iters']}")
    t.check(n <= first + (its - 1) * batch, f"{n} calls in {its} iterations")
    # the log
    L = f.Xn + 1
    X, y, k = f.X_orig[:L], f.y_orig[:L, 0], f.n_evals[:L].ravel()
    t.check(np.sum(k) == n + g.sum(), f"{np.sum(k)} observations logged")
    rows = {}
    for j, x in enumerate(C):
        rows.setdefault(x.tobytes(), []).append(j)
    y_all = np.array(R.vals)
    if c["prior"] != "none":
        y_all = y_all + [R.log_prior(x) for x in C]
    vals = v.options["f_vals"]
    seen = 0
    for i in range(L):
        j = rows.get(np.ascontiguousarray(X[i]).tobytes(), [])
        if not j:
            # a given value, at its point (up to the change of variables)
            d = np.abs((R.x0[: len(g)][g] - X[i]) / R.w).max(1) if (
                g.any()) else np.array([1.0])
            t.check(d.min() < 1e-6, f"logged point {X[i]} was never called")
            q = np.flatnonzero(g)[np.argmin(d)]
            t.check(y[i] == np.ravel(vals)[q], "given value not kept")
            continue
        seen += len(j)
        if len(j) == 1:
            t.check(y[i] == y_all[j[0]], lambda: (
                f"logged {y[i]!r}, target returned {y_all[j[0]]!r}"))
            if c["noise"] == 2:
                t.check(f.S[i, 0] == R.sds[j[0]], "logged noise")
        elif c["noise"] == 2:
            p = 1 / np.array([R.sds[q] for q in j]) ** 2
            t.close(y[i], p @ y_all[j] / p.sum(), "average", rtol=1e-9)
            t.close(f.S[i, 0], p.sum() ** -0.5, "noise of the average",
                    rtol=1e-9)
        else:
            t.close(y[i], y_all[j].mean(), "average", rtol=1e-9, atol=1e-9)
    t.check(seen == n, f"{n - seen} calls missing in the log")
    T = v.parameter_transformer
    U = T(X)
    s = np.maximum(1, np.abs(f.X[:L]))
    ok = np.all(np.isfinite(U), axis=1)
    t.check(np.all(np.abs(U - f.X[:L])[ok] < 1e-4 * s[ok]),
            "transformed coordinates")
    t.check(np.all(np.isfinite(f.y[:L])), "transformed values")


PROPS = [
    Prop("evaluations", runcfg.spec, evaluations, 160, 3000, shrink=False,
         cpu_limit=300),
]
