"""C32: the number of mixture components follows the adaptive schedule."""
import math

import numpy as np

from pbt import gen, runs
from pbt.checks.c23_decisions import history, record, vbmc
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C32"
TECHNIQUE = (
    "model-based property testing: an independent schedule over generated "
    "histories, and the component counts of generated complete runs "
    "recomputed from their records"
)
RULE = (
    "Cases: generated histories (zero to thirty iterations: ELBO, its error, "
    "warm-up flags, pruned components, reliability) with generated limits, "
    "bonuses and windows; complete small runs in which the number of "
    "components of every iteration is recomputed from the record, with means "
    "and weights optimised or fixed. Non-trivial: after warm-up, with a "
    "history long enough for the schedule to add components."
)
ASSUMPTIONS = [
    "the first two iterations in the window since the end of warm-up are not "
    "compared, as documented in the code",
    "iterations of a run that re-warp the space are not compared (an extra "
    "fit that is not recorded may prune components)",
]

K_FUN = {
    "default": None,
    "const": lambda N: 4,
    "half": lambda N: N / 2,
    "sqrt": lambda N: N**0.5,
}
BONUS = {
    "0": 0, "1": 1, "2": 2, "5": 5, "0.4": 0.4,
    "fun": lambda unkn: unkn / 2,
}


def model(h, i, K, n_eff, warmup, recompute, o, k_fun, bonus):
    """Number of components to ask for in iteration i (h: i rows)."""
    if warmup or i == 0:
        return K, 0, False
    window = math.ceil(0.5 * o["tol_stable_count"] / o["fun_evals_per_iter"])
    rows = [k for k in range(max(0, i - window), i) if not h["warmup"][k]]
    e = [
        h["elbo"][k] - o["elcbo_impro_weight"] * h["elbo_sd"][k] for k in rows
    ]
    improving = len(e) > 2 and all(e[-1] >= x for x in e[2:])
    new = K
    if improving and h["pruned"][i - 1] == 0:
        new += 1
    calm = range(max(0, i - math.ceil(0.5 * window)), i)
    if (improving and h["r_index"][i - 1] < 1 and not recompute
            and not any(h["pruned"][k] for k in calm)):
        new += round(bonus(K))
    return max(K, min(new, math.ceil(k_fun(n_eff)))), new - K, improving


def n_two_thirds(N):
    return N ** (2 / 3)


@st.composite
def case(draw):
    h = draw(history(0, 20)) if draw(st.integers(0, 9)) else None
    n = h["n"] if h else 0
    w = draw(st.integers(0, max(n - 1, 0)))
    return {
        "h": h, "w": w,
        "rising": draw(st.booleans()),
        "pruned": draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2]),
                                min_size=n, max_size=n)),
        "calm": draw(st.booleans()),
        # a single iteration with pruning, counted from the last
        "ago": draw(st.sampled_from([None, None, 1, 2, 3, 4, 5, 6])),
        "reliable": draw(st.booleans()),
        "K": draw(st.integers(1, 12)),
        "n_eff": draw(st.sampled_from([1, 5, 9, 20, 27, 64, 200])),
        "warmup": draw(st.sampled_from([False, False, False, True])),
        "recompute": draw(st.sampled_from([False, False, True])),
        "k_fun": draw(st.sampled_from(sorted(K_FUN))),
        "bonus": draw(st.sampled_from(sorted(BONUS))),
        "o": {
            "tol_stable_count": draw(st.sampled_from([60, 30, 20, 100])),
            "fun_evals_per_iter": draw(st.sampled_from([5, 4, 3, 10, 1])),
            "elcbo_impro_weight": draw(st.sampled_from([3, 0, 1.5])),
        },
    }


def schedule(c, t):
    from pyvbmc.vbmc.variational_optimization import update_K

    o = dict(c["o"])
    if K_FUN[c["k_fun"]] is not None:
        o["k_fun_max"] = K_FUN[c["k_fun"]]
    b = BONUS[c["bonus"]]
    o["adaptive_k"] = b
    v = vbmc(o)
    n, h = 0, {"elbo": [], "elbo_sd": [], "r_index": [], "pruned": [],
               "warmup": []}
    if c["h"]:
        hist = dict(c["h"])
        n = hist["n"]
        if c["rising"]:
            hist["elbo"] = sorted(hist["elbo"])
        if c["reliable"]:
            hist["r"] = [min(x, 0.9) for x in hist["r"]]
        h.update(record(v, hist, True))
        h["pruned"] = [0] * n if c["calm"] else list(c["pruned"])
        if c["ago"] and c["ago"] < n:
            h["pruned"] = [0] * n
            h["pruned"][-1 - c["ago"]] = 1
        h["warmup"] = [k < c["w"] for k in range(n)]
        for k in range(n):
            v.iteration_history.record("pruned", h["pruned"][k], k)
            v.iteration_history.record("warmup", h["warmup"][k], k)
    s = v.optim_state
    s["vp_K"], s["n_eff"], s["iter"] = c["K"], c["n_eff"], n
    s["warmup"] = c["warmup"] and not (n and not h["warmup"][-1])
    s["recompute_var_post"] = c["recompute"]
    want, added, improving = model(
        h, n, c["K"], c["n_eff"], s["warmup"], c["recompute"], v.options,
        K_FUN[c["k_fun"]] or n_two_thirds, b if callable(b) else lambda K: b,
    )
    got = update_K(s, v.iteration_history, v.options)
    t.nontrivial(added > 0 or (n > 4 and not s["warmup"]))
    t.label(f"adds {min(added, 3)}")
    if added > want - c["K"]:
        t.label("limited")
    t.check(
        got == want,
        f"{got} components at iteration {n}, expected {want} (had {c['K']}, "
        f"{'' if improving else 'not '}improving)",
    )
    t.check(s["vp_K"] == c["K"] and s["n_eff"] == c["n_eff"]
            and s["iter"] == n and s["recompute_var_post"] == c["recompute"],
            "the state changed")
    for k in ("elbo", "elbo_sd", "r_index", "pruned", "warmup"):
        if n:
            t.check([float(x) for x in v.iteration_history[k]]
                    == [float(x) for x in h[k]], f"recorded {k} changed")


@st.composite
def run_case(draw):
    return {
        "D": draw(st.integers(1, 3)),
        "seed": draw(gen.SEED),
        "scale": draw(st.sampled_from([1.0, 0.3])),
        "fun": draw(st.sampled_from(["gauss", "gauss", "double"])),
        "o": {
            "max_iter": draw(st.integers(4, 9)),
            "warmup": draw(st.sampled_from([True, False, False])),
            "k_warmup": draw(st.sampled_from([2, 1, 3])),
            "tol_stable_count": draw(st.sampled_from([60, 100, 40])),
            "variable_means": draw(st.sampled_from([True, True, False])),
            "variable_weights": draw(st.sampled_from([True, True, False])),
            "tol_weight": draw(st.sampled_from([0.01, 0.3, 0.3, 0])),
            "tol_improvement": draw(st.sampled_from([0.01, 3.0])),
            "elbo_starts": draw(st.sampled_from([2, 1, 3])),
            "always_refit_vp": draw(st.sampled_from([False, False, True])),
            "elcbo_midpoint": draw(st.booleans()),
            "warp_rotoscaling": draw(st.sampled_from([False, False, True])),
            "tol_stable_warmup": draw(st.sampled_from([15, 5])),
        },
        "k_fun": draw(st.sampled_from(["default", "default", "const"])),
        "bonus": draw(st.sampled_from(["2", "0", "5", "fun"])),
    }


def run(c, t):
    from pyvbmc import VBMC

    D, o = c["D"], dict(c["o"])
    np.random.seed(c["seed"] % 2**31)

    def f(x):
        x = np.ravel(x) / c["scale"]
        if c["fun"] == "double":
            return float(np.logaddexp(-2 * np.sum((x - 0.6) ** 2),
                                      -2 * np.sum((x + 0.6) ** 2)))
        return -0.5 * float(np.sum(x**2))

    if K_FUN[c["k_fun"]] is not None:
        o["k_fun_max"] = K_FUN[c["k_fun"]]
    b = BONUS[c["bonus"]]
    o["adaptive_k"] = b
    v = VBMC(
        f, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options=runs.fast(max_fun_evals=300, do_final_boost=False,
                          min_iter=0, min_fun_evals=0, **o),
    )
    K0 = v.optim_state["vp_K"]
    t.check(K0 == v.vp.K == o["k_warmup"], f"starts with {K0} components")
    v.optimize()
    ih, o = v.iteration_history, v.options
    n = len(ih["iter"])
    t.check(not any(ih["warmup"]) or v.options["warmup"],
            "warm-up that was not asked for")
    h = {k: [float(x) for x in ih[k]]
         for k in ("elbo", "elbo_sd", "r_index", "pruned")}
    h["warmup"] = [bool(x) for x in ih["warmup"]]
    k_fun = K_FUN[c["k_fun"]] or n_two_thirds
    for i in range(n):
        where = f"iteration {i} of {n}"
        vp, gp = ih["vp"][i], ih["gp"][i]
        prev = ih["optim_state"][i - 1] if i else None
        warm = h["warmup"][i - 1] if i else bool(o["warmup"])
        pruned = int(h["pruned"][i])
        t.check(ih["optim_state"][i]["vp_K"] == vp.K,
                f"{where}: {ih['optim_state'][i]['vp_K']} components "
                f"recorded, {vp.K} in the posterior")
        t.check(pruned >= 0 and vp.K >= 1, f"{where}: pruned {pruned}")
        w = np.ravel(vp.w)
        free = not warm and o["variable_weights"]
        if not free:
            t.check(pruned == 0, f"{where}: pruned with fixed weights")
            t.close(w, np.full(vp.K, 1 / vp.K), f"{where}: fixed weights",
                    rtol=1e-9)
        if not o["variable_means"] and not warm:
            # components sit on training inputs
            d = np.abs(vp.mu.T[:, None] - gp.X[None]).max(-1)
            ok = d.min(1) <= 1e-9 * (1 + np.abs(gp.X).max())
            t.check(np.all(ok), f"{where}: a mean that is no training input")
            t.check(vp.K + pruned == len(gp.X),
                    f"{where}: {vp.K} components and {pruned} pruned for "
                    f"{len(gp.X)} training inputs")
            t.nontrivial()
            t.label("fixed means")
            continue
        if any("scale" in a or "warp" in a for a in ih["logging_action"][i]
               if a != "start warm-up"):
            t.label("re-warped")
            continue
        K = ih["optim_state"][i - 1]["vp_K"] if i else K0
        rec = bool(prev["recompute_var_post"]) if i else True
        want, added, _ = model(
            h, i, K, ih["n_eff"][i], warm, rec, o, k_fun,
            b if callable(b) else lambda K: b,
        )
        t.check(
            vp.K + pruned == want,
            f"{where}: {vp.K} components and {pruned} pruned, expected "
            f"{want} (had {K})",
        )
        if added:
            t.nontrivial()
            t.label("grew" if want > K else "limited")
        if pruned:
            t.label("pruned")
        if warm:
            t.check(vp.K == K0, f"{where}: {vp.K} components in warm-up")


PROPS = [
    Prop("schedule", case, schedule, 1500),
    Prop("run", run_case, run, 48, 600, shrink=False, cpu_limit=300),
]
