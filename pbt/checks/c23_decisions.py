"""C23: stopping, stability and warm-up decisions follow the record."""
import math

import numpy as np

from pbt import gen, hist, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C23"
TECHNIQUE = (
    "model-based property testing: independent decision formulae over "
    "generated histories and over the histories of generated runs"
)
RULE = (
    "Cases: generated run histories (ELBO, uncertainty, divergence, counts, "
    "reliability; one to thirty iterations, from erratic to converged) with "
    "generated tolerances, budgets and minima, on which the termination, "
    "reliability and warm-up decisions are compared with independently "
    "written formulae; generated logs trimmed at the end of warm-up; and "
    "complete small runs whose every decision is recomputed from the "
    "recorded history. Non-trivial: a decision with a comparison away from "
    "its threshold was compared, in a history long enough for it to apply."
)
ASSUMPTIONS = [
    "decisions closer than 1e-9 to a threshold are not compared",
    "the improvement slope is compared only over iterations that evaluated "
    "the target (two different counts)",
    "min_iter counts completed iterations before the current one, as the "
    "existing tests fix it",
]


@st.composite
def history(draw, lo=1, hi=30):
    n = draw(st.integers(lo, hi))
    scale = draw(st.sampled_from([1e-4, 1e-2, 0.1, 1.0, 10.0]))
    drift = draw(st.sampled_from([0, 0, 1e-3, 0.05, 0.5, -0.2]))
    level = draw(st.sampled_from([-3.0, -3.0, 0.0, 40.0, -500.0]))

    def fl(a, b):
        return st.lists(gen.fl(a, b), min_size=n, max_size=n)

    return {
        "n": n,
        "elbo": [
            scale * u + drift * i + level for i, u in enumerate(draw(fl(-1, 1)))
        ],
        "elbo_sd": [scale * u for u in draw(fl(0.01, 1))],
        "sKL": draw(st.sampled_from([1.0, 0.02, 1e-3])),
        "skl": draw(fl(0, 1)),
        "inc": draw(st.lists(st.sampled_from([5, 5, 5, 1, 10, 0]),
                             min_size=n, max_size=n)),
        "r": draw(st.lists(st.sampled_from([0.1, 0.6, 0.95, 0.3, 1.2, 7.0]),
                           min_size=n, max_size=n)),
        "lcb": [
            level - 2 + draw(st.sampled_from([0.0, 0.02, 1.0])) * i
            + scale * u
            for i, u in enumerate(draw(fl(-1, 1)))
        ],
    }


def record(v, c, r_full=False):
    """Fill the record with the generated history; returns plain lists."""
    h = {
        "elbo": c["elbo"],
        "elbo_sd": c["elbo_sd"],
        "sKL": [c["sKL"] * u for u in c["skl"]],
        "func_count": [int(k) for k in np.cumsum([10] + c["inc"][1:])],
        "r_index": [np.inf, np.inf] + c["r"][2:],
        "lcb_max": c["lcb"],
    }
    h["r_index"] = h["r_index"][:c["n"]]
    for i in range(c["n"]):
        vals = {k: h[k][i] for k in h if k != "r_index"}
        vals["iter"] = i
        if r_full or i < c["n"] - 1:
            vals["r_index"] = h["r_index"][i]
        v.iteration_history.record_iteration(vals, i)
    v.optim_state["iter"] = c["n"] - 1
    v.iteration = c["n"] - 1
    v.function_logger.func_count = h["func_count"][-1]
    return h


def vbmc(options, D=2):
    from pyvbmc import VBMC

    return VBMC(
        lambda x: -float(np.sum(np.asarray(x) ** 2)), np.zeros((1, D)),
        plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options={"display": "off", **options},
    )


@st.composite
def term_case(draw):
    h = draw(history())
    n = h["n"]
    total = 10 + sum(h["inc"][1:])

    def near(x):
        return st.sampled_from([max(1, x - 1), x, x + 1, x + 50, max(1, x // 2)])

    return {
        "h": h,
        "o": {
            "max_fun_evals": draw(near(total)),
            "max_iter": draw(near(n)),
            "min_fun_evals": draw(st.sampled_from([0, total, total + 1, 5])),
            "min_iter": draw(st.sampled_from([0, n - 1, n, n + 1, 1])),
            "tol_stable_count": draw(st.sampled_from([60, 30, 20, 15, 12])),
            "fun_evals_per_iter": draw(st.sampled_from([5, 4, 3, 10])),
            "tol_stable_entropy_iters": draw(st.integers(2, 8)),
            "tol_stable_excpt_frac": draw(
                st.sampled_from([0.2, 0.0, 0.5, 0.34])),
            "tol_improvement": draw(st.sampled_from([0.01, 0.0, 0.1, 1e-3])),
            "tol_sd": draw(st.sampled_from([0.1, 0.02, 1.0])),
            "tol_skl": draw(st.sampled_from([0.03, 0.0024, 1.0])),
            "elcbo_impro_weight": draw(st.sampled_from([3, 0, 1.5])),
        },
        "sn2": draw(st.sampled_from([1e-6, 1e-3, 0.05, 4.0, 1e4])),
        "switch": draw(st.booleans()),
        "warp": draw(st.one_of(st.none(), st.integers(0, n))),
    }


REASON = {
    "evals": "max_fun_evals", "iters": "max_iter",
    "stable": "tol_stable_count",
}


def reasons(msg):
    return {k for k, s in REASON.items() if s in msg}


def termination(c, t):
    v = vbmc(c["o"])
    h = record(v, c["h"])
    i = c["h"]["n"] - 1
    o = v.options
    v.optim_state["entropy_switch"] = c["switch"]
    v.optim_state["sn2_hpd"] = c["sn2"]
    last = -np.inf if c["warp"] is None else c["warp"]
    v.optim_state["last_successful_warping"] = last
    v.logging_action = []
    n_tol = hist.tol_iters(o, c["switch"])
    r, imp = hist.reliability(h, i, c["sn2"], o, n_tol)
    h["r_index"][i] = r
    stable = hist.stability(h, i, r, imp, o, n_tol)

    got, msg = v._check_termination_conditions()
    ih = v.iteration_history
    t.close(ih["r_index"][i], r, "reliability index", rtol=1e-9)
    if imp is not None:
        t.close(ih["elcbo_impro"][i], imp, "ELCBO improvement", rtol=1e-7,
                atol=1e-9)
    for k in ("elbo", "elbo_sd", "sKL", "func_count", "lcb_max"):
        t.check([float(x) for x in ih[k]] == [float(x) for x in h[k]],
                f"the recorded {k} changed")
    t.check([float(x) for x in ih["r_index"][:-1]] == h["r_index"][:-1],
            "earlier reliability indices changed")
    if stable is None:
        t.label("at a threshold")
        return
    t.nontrivial()
    applies = set()
    if h["func_count"][i] >= o["max_fun_evals"]:
        applies.add("evals")
    if i + 1 >= o["max_iter"]:
        applies.add("iters")
    flag = stable and not c["switch"]
    if flag and i - last >= n_tol / 3:
        applies.add("stable")
    blocked = h["func_count"][i] < o["min_fun_evals"] or i < o["min_iter"]
    want = bool(applies) and not blocked
    t.label("stops" if want else "continues")
    t.check(
        bool(got) == want,
        f"finished={got}, expected {want} (applicable: {sorted(applies)}, "
        f"minima {'not ' if blocked else ''}reached)",
    )
    t.check(
        bool(ih["stable"][i]) == bool(flag),
        f"stability flag {ih['stable'][i]}, expected {flag}",
    )
    t.check(
        bool(v.optim_state["entropy_switch"])
        == bool(c["switch"] and not stable),
        "entropy switch",
    )
    if want:
        t.check(
            reasons(msg) and reasons(msg) <= applies,
            f"reported reason {msg!r}, applicable: {sorted(applies)}",
        )
    if flag:
        t.label("stable")


@st.composite
def warm_case(draw):
    h = draw(history(2, 25))
    n = h["n"]
    return {
        "h": h,
        "o": {
            "tol_stable_warmup": draw(st.sampled_from([15, 5, 10, 25, 1])),
            "fun_evals_per_iter": draw(st.sampled_from([5, 1, 10, 20])),
            "stop_warmup_thresh": draw(
                st.sampled_from([0.2, 0.0, 0.01, 2.0])),
            "warmup_check_max": draw(st.booleans()),
            "warmup_no_impro_threshold": draw(
                st.sampled_from([20 + 5 * 2, 5, 0, 1000])),
            "tol_improvement": draw(st.sampled_from([0.01, 0.5])),
            "elcbo_impro_weight": draw(st.sampled_from([3, 0])),
        },
        "trim": draw(st.one_of(st.none(), st.integers(0, 30))),
        "N": draw(st.integers(5, 40)),
    }


def warmup(c, t):
    v = vbmc(c["o"])
    h = record(v, c["h"], True)
    i = c["h"]["n"] - 1
    v.optim_state["N"] = c["N"]
    v.optim_state["data_trim_list"] = (
        [] if c["trim"] is None else np.array([0, c["trim"]])
    )
    want, margin = hist.warmup_over(
        h, i, v.options, c["N"],
        -np.inf if c["trim"] is None else c["trim"],
    )
    got = v._check_warmup_end_conditions()
    if margin < 1e-9:
        t.label("at a threshold")
        return
    t.nontrivial()
    t.label("ends" if want else "goes on")
    t.check(bool(got) == bool(want), f"warm-up end: {got}, expected {want}")
    t.check(
        bool(v._check_warmup_end_conditions()) == bool(got),
        "asking twice gives two answers",
    )


@st.composite
def trim_case(draw):
    D = draw(st.integers(1, 4))
    n = draw(st.integers(1, 14))
    return {
        "D": D,
        "y": draw(st.lists(
            st.one_of(gen.fl(-1, 1), gen.fl(-300, 0), gen.fl(-1e4, 0)),
            min_size=n, max_size=n)),
        "level": draw(st.sampled_from([0.0, 0.0, -1e3, 350.0, -40.0])),
        "off": draw(st.lists(st.integers(0, 13), max_size=4)),
        "thr": draw(st.sampled_from([1.0, 20.0, 200.0, 1e3])),
        "thr2": draw(st.one_of(st.none(), st.sampled_from([0.5, 400.0]))),
        "trims": draw(st.integers(0, 2)),
        "r": draw(st.sampled_from([0.5, 99.0, 200.0, np.inf])),
        "skip": draw(st.booleans()),
        "N": draw(st.integers(1, 40)),
    }


def trim(c, t):
    D = c["D"]
    v = vbmc({
        "warmup_keep_threshold": c["thr"],
        "warmup_keep_threshold_false_alarm": c["thr2"],
        "stop_warmup_reliability": 100,
        "skip_active_sampling_after_warmup": c["skip"],
    }, D)
    fl = v.function_logger
    c = {**c, "y": [y + c["level"] for y in c["y"]]}
    for i, y in enumerate(c["y"]):
        fl.add(np.full(D, 0.01 * i), y)
    n = len(c["y"])
    active = np.array(fl.X_flag, copy=True)
    for i in c["off"]:
        if i < n:
            active[i] = False
    fl.X_flag = active.copy()
    before = (fl.X.copy(), fl.y.copy(), fl.X_orig.copy(), fl.y_orig.copy(),
              fl.n_evals.copy(), fl.func_count, fl.Xn)
    it = 4
    for i in range(it + 1):
        v.iteration_history.record("r_index", c["r"], i)
    v.optim_state["iter"] = it
    v.optim_state["N"] = c["N"]
    v.optim_state["warmup"] = True
    v.optim_state["recompute_var_post"] = False
    v.optim_state["data_trim_list"] = np.arange(c["trims"], dtype=float)
    v.logging_action = []
    v._setup_vbmc_after_warmup()

    over = c["r"] < 100 or c["trims"] >= 1
    thr = c["thr"]
    if not over and c["thr2"] is not None:
        thr = c["thr2"]
    thr *= c["trims"] + 1
    y = np.array(c["y"])
    keep = (y.max() - y) < thr
    if np.any(np.abs(y.max() - y - thr) < 1e-9):
        t.label("at a threshold")
        return
    if keep.sum() < D + 1:
        order = np.sort(y)[::-1]
        k = min(D + 1, n)
        if k < n and order[k - 1] == order[k]:
            t.label("tie")
            return
        keep |= y >= order[k - 1]
        t.label("minimum kept")
    want = active.copy()
    want[:n] &= keep
    t.nontrivial(not np.array_equal(want, active))
    t.check(
        np.array_equal(fl.X_flag, want),
        f"kept {np.flatnonzero(fl.X_flag).tolist()}, expected "
        f"{np.flatnonzero(want).tolist()}",
    )
    after = (fl.X, fl.y, fl.X_orig, fl.y_orig, fl.n_evals, fl.func_count,
             fl.Xn)
    for a, b in zip(before, after):
        t.check(np.array_equal(a, b, equal_nan=True), "trimming changed data")
    s = v.optim_state
    t.check(bool(s["warmup"]) == (not over), f"warm-up flag {s['warmup']}")
    t.label("over" if over else "false alarm")
    if over:
        t.check(s["last_warmup"] == it, "iteration of the end of warm-up")
        t.check(len(s["data_trim_list"]) == c["trims"], "trim list")
    else:
        t.check(
            len(s["data_trim_list"]) == c["trims"] + 1
            and s["data_trim_list"][-1] == c["N"], "trim list",
        )
    t.check(bool(s["skip_active_sampling"]) == c["skip"], "skip flag")
    t.check(bool(s["recompute_var_post"]), "posterior is not recomputed")


@st.composite
def run_case(draw):
    return {
        "D": draw(st.integers(1, 2)),
        "seed": draw(gen.SEED),
        "scale": draw(st.sampled_from([1.0, 0.3])),
        "o": {
            "max_iter": draw(st.integers(2, 12)),
            "max_fun_evals": draw(st.sampled_from([300, 300, 25, 40])),
            "min_iter": draw(st.sampled_from([0, 2, 4])),
            "min_fun_evals": draw(st.sampled_from([0, 10, 30])),
            "tol_stable_count": draw(st.sampled_from([12, 20, 16, 60])),
            "tol_stable_warmup": draw(st.sampled_from([15, 8])),
            "warmup": draw(st.sampled_from([True, True, False])),
            "warmup_check_max": draw(st.booleans()),
            "fun_evals_per_iter": draw(st.sampled_from([5, 4, 3, 16])),
            "tol_improvement": draw(st.sampled_from([0.01, 0.1])),
            "tol_sd": draw(st.sampled_from([0.1, 0.5])),
            "tol_skl": draw(st.sampled_from([0.12, 0.5])),
            "entropy_switch": draw(st.sampled_from([False, False, True])),
            "tol_stable_entropy_iters": draw(st.integers(2, 4)),
            "det_entropy_min_d": 1,
            "do_final_boost": draw(st.booleans()),
            "warmup_keep_threshold": draw(st.sampled_from([200.0, 1.0])),
            "stop_warmup_reliability": draw(st.sampled_from([100, 1.0])),
        },
        "true": draw(st.sampled_from([0, 0, 0, 1])),
    }


def run(c, t):
    from pyvbmc import VBMC

    D = c["D"]
    np.random.seed(c["seed"] % 2**31)
    calls = [0]

    def f(x):
        calls[0] += 1
        return (0.0, -150.0, 70.0)[c["seed"] % 3] - 0.5 * float(
            np.sum((np.asarray(x) / c["scale"]) ** 2))

    true, extra = None, {}
    if c["true"]:
        true = 0.3 * np.arange(D), c["scale"] ** 2 * np.eye(D) + 0.1
        extra = {"true_mean": true[0], "true_cov": true[1]}
        t.label("truth given")
    v = VBMC(
        f, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options=runs.fast(tol_stable_excpt_frac=0.2, **c["o"], **extra),
    )
    switch0 = bool(v.optim_state.get("entropy_switch"))
    vp, res = v.optimize()
    ih, o = v.iteration_history, v.options
    n = len(ih["iter"])
    h = {
        k: [float(x) for x in ih[k]]
        for k in ("elbo", "elbo_sd", "sKL", "r_index", "lcb_max")
    }
    h["func_count"] = [int(x) for x in ih["func_count"]]
    t.check(list(ih["iter"]) == list(range(n)), "iterations are numbered")
    t.check(h["func_count"][-1] == calls[0] == res["func_count"],
            "function count")
    warm = [bool(x) for x in ih["warmup"]]
    switch = switch0
    for i in range(n):
        s = ih["optim_state"][i]
        prev = ih["optim_state"][i - 1] if i else None
        where = f"iteration {i} of {n}"
        if switch and i and (
            h["func_count"][i - 1]
            >= o["entropy_force_switch"] * o["max_fun_evals"]
        ):
            switch = False
            t.label("forced entropy switch")
        n_tol = hist.tol_iters(o, switch)
        r, imp = hist.reliability(h, i, s["sn2_hpd"], o, n_tol)
        t.close(h["r_index"][i], r, f"{where}: reliability", rtol=1e-9)
        if imp is not None:
            t.close(ih["elcbo_impro"][i], imp, f"{where}: improvement",
                    rtol=1e-6, atol=1e-9)
        stable = hist.stability(h, i, r, imp, o, n_tol)
        applies = set()
        if h["func_count"][i] >= o["max_fun_evals"]:
            applies.add("evals")
        if i + 1 >= o["max_iter"]:
            applies.add("iters")
        if stable is not None:
            flag = stable and not switch
            t.check(bool(ih["stable"][i]) == bool(flag),
                    f"{where}: stability flag")
            if flag and i - s["last_successful_warping"] >= n_tol / 3:
                applies.add("stable")
        elif ih["stable"][i]:
            applies.add("stable")
        blocked = (
            h["func_count"][i] < o["min_fun_evals"] or i < o["min_iter"]
        )
        stop = bool(applies) and not blocked
        t.check(
            stop == (i == n - 1),
            f"{where}: {'stopped' if i == n - 1 else 'went on'} but "
            f"{sorted(applies)} apply and the minima are "
            f"{'not ' if blocked else ''}reached",
        )
        if stop:
            got = reasons(res["message"])
            t.check(got and got <= applies,
                    f"reason {res['message']!r}, applicable {applies}")
            t.label("stop: " + ",".join(sorted(got)))
        if switch and stable:
            switch = False
            t.label("entropy switch")
        if stable is not None:
            t.check(bool(s["entropy_switch"]) == switch,
                    f"{where}: entropy switch")
        else:
            # (undecidable, e.g. no evaluation in the window)
            switch = switch and bool(s["entropy_switch"])
        was = warm[i - 1] if i else bool(o["warmup"])
        if not was:
            t.check(not warm[i], f"{where}: warm-up came back")
        elif i:
            trims = list(prev["data_trim_list"])
            over, margin = hist.warmup_over(
                h, i, o, s["N"], trims[-1] if len(trims) else -np.inf)
            if margin > 1e-9:
                final = over and (
                    r < o["stop_warmup_reliability"] or len(trims) >= 1)
                t.check(
                    warm[i] == (not final),
                    f"{where}: warm-up is {warm[i]}, expected {not final}",
                )
                t.check(
                    len(s["data_trim_list"])
                    == len(trims) + (over and not final),
                    f"{where}: list of trims",
                )
                if over:
                    t.label("warm-up ended" if final else "false alarm")
    t.nontrivial(n > 2)
    hist.recorded(t, ih, o, true=true)
    t.check(res["iterations"] == n - 1, "iterations in the results")
    t.check(
        res["convergence_status"]
        == ("probable" if ih["stable"][res["best_iter"]] else "no"),
        "convergence status",
    )
    t.check(
        bool(res["success_flag"]) == bool(ih["stable"][res["best_iter"]]),
        "success flag",
    )
    t.check(n <= max(o["max_iter"], math.ceil(o["min_iter"]) + 1)
            or h["func_count"][-2] < o["min_fun_evals"],
            "more iterations than allowed")


PROPS = [
    Prop("termination", term_case, termination, 1500),
    Prop("warmup", warm_case, warmup, 900),
    Prop("trim", trim_case, trim, 700),
    Prop("run", run_case, run, 56, 600, shrink=False, cpu_limit=300),
]
