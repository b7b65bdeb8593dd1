"""C24: the reported solution is the recorded iterate the rule selects."""
import copy

import numpy as np

from pbt import gen, hist, runs
from pbt.checks.c23_decisions import history, vbmc
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C24"
TECHNIQUE = (
    "model-based property testing: independent selection rule over generated "
    "histories and over the histories of generated runs"
)
RULE = (
    "Cases: generated histories (ELBO, uncertainty, reliability, stability "
    "flags) and selection arguments, on which the selected iteration, its "
    "posterior and values are compared with an independently written rule; "
    "final boosts of generated posteriors on generated surrogates; "
    "and complete small runs with and without a final boost whose returned "
    "posterior and results are compared with the record, before and after "
    "the returned posterior is overwritten. Non-trivial: at least two "
    "iterations were candidates and the selection was compared."
)
ASSUMPTIONS = [
    "several iterations with equal criterion are all acceptable",
    "the penalty rank of unstable iterations is the number of iterations, "
    "counted from zero or from one",
]


@st.composite
def select_case(draw):
    h = draw(history(1, 25))
    n = h["n"]
    return {
        "h": h,
        "stable": draw(st.lists(
            st.sampled_from([False, False, False, True]),
            min_size=n, max_size=n)),
        "m": draw(st.one_of(st.none(), st.integers(0, n - 1))),
        "sd": draw(st.sampled_from([5, 0, 1.0, 20])),
        "back": draw(st.sampled_from([0.25, 0.0, 0.5, 1.0])),
        "rank": draw(st.booleans()),
        "plain": draw(st.booleans()),
    }


def select(c, t):
    v = vbmc({}, 1)
    n = c["h"]["n"]
    h = {
        "elbo": c["h"]["elbo"], "elbo_sd": c["h"]["elbo_sd"],
        "r_index": ([np.inf, np.inf] + c["h"]["r"])[:n],
        "stable": c["stable"],
    }
    for i in range(n):
        vp = copy.deepcopy(v.vp)
        vp.mu[0, 0] = i
        vp.stats = {"elbo": h["elbo"][i], "elbo_sd": h["elbo_sd"][i]}
        v.iteration_history.record_iteration(
            {"iter": i, "vp": vp, **{k: h[k][i] for k in h}}, i
        )
    kw = {}
    m = n - 1
    if c["m"] is not None:
        kw["max_idx"] = m = c["m"]
    sd, back = 5, 0.25
    if not c["plain"]:
        sd, back = c["sd"], c["back"]
        kw.update(safe_sd=sd, frac_back=back)
    if c["rank"]:
        kw["rank_criterion_flag"] = True
    want = hist.best(h, m, sd, back, c["rank"])
    vp, elbo, elbo_sd, idx = v.determine_best_vp(**kw)
    t.nontrivial(m > 0)
    t.label("rank" if c["rank"] else
            ("last is stable" if h["stable"][m] else
             "earlier stable" if any(h["stable"][:m]) else "none stable"))
    t.check(
        int(idx) in want,
        f"selected {int(idx)} up to {m}, the rule allows {sorted(want)}",
    )
    t.check(
        float(elbo) == h["elbo"][idx] and float(elbo_sd) == h["elbo_sd"][idx],
        "ELBO of another iteration",
    )
    t.check(vp.mu[0, 0] == idx, "posterior of another iteration")
    t.check(bool(vp.stats["stable"]) == bool(h["stable"][idx]),
            "stability of another iteration")
    t.check(vp.stats["elbo"] == h["elbo"][idx], "statistics")
    for k in h:
        t.check(
            [float(x) for x in v.iteration_history[k]]
            == [float(x) for x in h[k]], f"the recorded {k} changed",
        )
    t.check(
        [p.mu[0, 0] for p in v.iteration_history["vp"]] == list(range(n)),
        "recorded posteriors changed",
    )


@st.composite
def run_case(draw):
    return {
        "D": draw(st.integers(1, 2)),
        "seed": draw(gen.SEED),
        "noise": draw(st.sampled_from([0, 0, 2])),
        "bounded": draw(st.booleans()),
        "o": {
            "max_iter": draw(st.integers(1, 10)),
            "min_iter": 0,
            "tol_stable_count": draw(st.sampled_from([12, 20, 60])),
            "warmup": draw(st.sampled_from([True, False])),
            "do_final_boost": draw(st.booleans()),
            "min_final_components": draw(st.sampled_from([1, 4, 6])),
            "k_warmup": draw(st.sampled_from([2, 4])),
            "ns_ent": draw(st.sampled_from([20, 30])),
            "ns_ent_boost": draw(st.sampled_from([20, 30])),
            "ns_ent_fine": 100,
            "ns_ent_fine_boost": draw(st.sampled_from([[], 100, 150])),
            "tol_sd": draw(st.sampled_from([0.1, 0.5])),
            "best_safe_sd": draw(st.sampled_from([0, 5, 5, 50])),
            "best_frac_back": draw(st.sampled_from([0.25, 0.25, 0.5, 0, 1])),
            "rank_criterion": draw(st.booleans()),
            "variable_weights": draw(st.sampled_from([True, True, False])),
        },
    }


def snapshot(vp):
    return [np.array(x, copy=True) for x in
            (vp.mu, vp.sigma, vp.lambd, vp.w, vp.eta)] + [
        repr(sorted((k, v) for k, v in vp.stats.items() if k != "stable"))
    ]


def same(a, b):
    return all(
        np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
        for x, y in zip(a, b)
    )


def run(c, t):
    from pyvbmc import VBMC

    D, o = c["D"], c["o"]
    np.random.seed(c["seed"] % 2**31)

    def f(x):
        x = np.asarray(x)
        y = -0.5 * float(np.sum(x**2)) - 0.1 * float(np.sum(x**4))
        y += (0.0, -150.0, 70.0)[c["seed"] % 3]
        return (y + 0.3 * np.random.randn(), 0.3) if c["noise"] else y

    b = {}
    if c["bounded"]:
        b = {"lower_bounds": np.full((1, D), -5.0),
             "upper_bounds": np.full((1, D), 5.0)}
    v = VBMC(
        f, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options=runs.fast(specify_target_noise=bool(c["noise"]), **o), **b,
    )
    before = {k: repr(v.options[k]) for k in v.options}
    vp, res = v.optimize()
    after = {k: repr(v.options[k]) for k in v.options}
    diff = sorted(k for k in before if before[k] != after[k])
    # (one-dimensional searches use another optimiser)
    t.check(not set(diff) - {"search_optimizer"}, f"options changed: {diff}")
    ih = v.iteration_history
    n = len(ih["iter"])
    t.nontrivial(n > 1)
    h = {k: [float(x) for x in ih[k]]
         for k in ("elbo", "elbo_sd", "r_index")}
    h["stable"] = [bool(x) for x in ih["stable"]]
    idx = int(res["best_iter"])
    want = hist.best(h, n - 1, o["best_safe_sd"], o["best_frac_back"],
                     o["rank_criterion"])
    t.check(idx in want, f"best_iter {idx} of {n}, rule allows {want}")
    rec = ih["vp"][idx]
    t.check(float(rec.stats["elbo"]) == h["elbo"][idx], "recorded ELBO")
    t.check(float(rec.stats["elbo_sd"]) == h["elbo_sd"][idx], "recorded SD")
    boost = o["do_final_boost"] and (
        rec.K < o["min_final_components"]
        or o["ns_ent"] != o["ns_ent_boost"]
        or o["ns_ent_fine_boost"] not in ([], o["ns_ent_fine"])
    )
    t.label("boosted" if boost else "as recorded")
    if boost:
        t.check(vp.K == max(rec.K, o["min_final_components"]),
                f"{vp.K} components after boosting {rec.K} to at least "
                f"{o['min_final_components']}")
        t.check(bool(vp.optimize_mu) == bool(v.options["variable_means"])
                and bool(vp.optimize_weights)
                == bool(v.options["variable_weights"]),
                "the boost optimised means "
                f"{vp.optimize_mu}, weights {vp.optimize_weights}")
        if o["min_final_components"] > 1 and vp.K > 1:
            same_w = np.ptp(vp.w) < 1e-12
            t.check(same_w != bool(v.options["variable_weights"]),
                    f"weights {vp.w} after the boost")
    else:
        t.check(same(snapshot(vp), snapshot(rec)),
                "returned posterior is not the recorded one")
    t.check(res["elbo"] == vp.stats["elbo"], "ELBO of the results")
    t.check(res["elbo_sd"] == vp.stats["elbo_sd"], "SD of the results")
    t.check(res["components"] == vp.K == vp.w.size, "components")
    t.check(bool(res["success_flag"]) == h["stable"][idx], "success flag")
    t.check(bool(vp.stats["stable"]) == h["stable"][idx], "stable")
    t.check(
        res["convergence_status"]
        == ("probable" if h["stable"][idx] else "no"), "convergence",
    )
    t.check(float(res["r_index"]) == h["r_index"][idx], "reliability")
    t.check(int(res["train_set_size"]) == int(ih["n_eff"][idx]),
            "training set size")
    t.check(res["func_count"] == v.function_logger.func_count, "count")
    t.check(res["iterations"] == n - 1, "iterations")
    t.check(
        res["problem_type"] == ("bounded" if c["bounded"]
                                else "unconstrained"), "problem type",
    )
    bvp, belbo, bsd, bidx = v.determine_best_vp(
        safe_sd=o["best_safe_sd"], frac_back=o["best_frac_back"],
        rank_criterion_flag=o["rank_criterion"],
    )
    t.check(int(bidx) == idx and float(belbo) == h["elbo"][idx]
            and float(bsd) == h["elbo_sd"][idx], "asking again")
    # overwriting what was returned leaves the record and the object alone
    mine = [snapshot(v.vp)] + [snapshot(p) for p in ih["vp"]]
    vp.mu[:] = 99.0
    vp.sigma[:] = 99.0
    vp.lambd[:] = 99.0
    vp.w[:] = 0.0
    vp.eta[:] = 99.0
    vp.stats["elbo"] = 99.0
    vp.parameter_transformer.mu[:] = 99.0
    res["elbo"] = 99.0
    after = [snapshot(v.vp)] + [snapshot(p) for p in ih["vp"]]
    for i, (a, b) in enumerate(zip(mine, after)):
        t.check(same(a, b), "overwriting the returned posterior changed "
                + ("the object's" if i == 0 else f"recorded {i - 1}"))
    for p in [v.vp] + list(ih["vp"]):
        t.check(np.all(p.parameter_transformer.mu != 99.0),
                "the returned posterior shares its transform")
    if boost:
        mine = [snapshot(p) for p in ih["vp"]]
        v.vp.mu[:] = 77.0
        v.vp.stats["elbo"] = 77.0
        t.check(
            all(same(a, snapshot(p)) for a, p in zip(mine, ih["vp"])),
            "the boosted posterior shares arrays with the record",
        )


# --------------------------------------------- the final boost by itself
@st.composite
def boost_case(draw):
    from pbt.checks.c13_objective import opt_case

    c = draw(opt_case())
    K = c["vp"]["K"]
    return {
        "vp": c["vp"], "gp": c["gp"], "seed": c["seed"],
        "lw": draw(st.lists(gen.fl(-9, 0), min_size=K, max_size=K)),
        "stable": draw(st.booleans()), "warmup": draw(st.booleans()),
        "final": draw(st.sampled_from([1, 2, 3, 5])),
        "ent": draw(st.sampled_from([10, 20])),
        "ent_boost": draw(st.sampled_from([[], 10, 20])),
        "fine": draw(st.sampled_from([100, 200])),
        "fine_boost": draw(st.sampled_from([[], 100, 200])),
        "means": draw(st.sampled_from([True, True, True, False])),
        "weights": draw(st.sampled_from([True, True, False])),
        "det": draw(st.booleans()),
    }


def boost(c, t):
    from pyvbmc import VBMC
    from pyvbmc.vbmc.variational_optimization import _neg_elcbo

    from pbt import gpref

    D, K = c["vp"]["D"], c["vp"]["K"]
    np.random.seed(c["seed"] % 2**31)
    vp, gp = gen.build_vp(c["vp"]), gpref.build(c["gp"])
    if c["weights"] and not c["warmup"]:
        vp.w = np.exp([c["lw"]])
        vp.w /= vp.w.sum()
    else:
        vp.w = np.full((1, K), 1 / K)
    vp.eta = np.log(vp.w)
    vp.optimize_weights = c["weights"] and not c["warmup"]
    vp.optimize_mu = c["means"] or c["warmup"]
    v = VBMC(
        lambda x: 0.0, np.zeros((1, D)),
        plausible_lower_bounds=-np.ones((1, D)),
        plausible_upper_bounds=np.ones((1, D)),
        options=runs.fast(
            min_final_components=c["final"], ns_ent=c["ent"],
            ns_ent_boost=c["ent_boost"], ns_ent_fine=c["fine"],
            ns_ent_fine_boost=c["fine_boost"], variable_means=c["means"],
            variable_weights=c["weights"],
        ),
    )
    # (a stochastic boost is not limited in its iterations)
    v.optim_state["entropy_switch"] = True
    v.optim_state["warmup"] = c["warmup"]
    a = copy.deepcopy(vp)
    f0, _, _, _, v0 = _neg_elcbo(
        a.get_parameters(), gp, a, 0, 200 if K > 1 else 0, False, True)[:5]
    sd0 = float(np.sqrt(v0))
    vp.stats = {"elbo": -float(f0), "elbo_sd": sd0, "stable": c["stable"]}
    before = copy.deepcopy(vp)
    X, y = gp.X.copy(), gp.y.copy()
    hyp = gp.get_hyperparameters(as_array=True).copy()
    opts = {k: repr(v.options[k]) for k in v.options}
    new, elbo, sd, changed = v.final_boost(vp, gp)
    t.check({k: repr(v.options[k]) for k in v.options} == opts,
            "options changed")
    t.check(np.array_equal(gp.X, X) and np.array_equal(gp.y, y)
            and np.array_equal(gp.get_hyperparameters(as_array=True), hyp),
            "surrogate changed")
    K1 = max(K, c["final"]) if c["means"] else K
    wants = (
        K < c["final"] or c["ent_boost"] not in ([], c["ent"])
        or c["fine_boost"] not in ([], c["fine"])
    )
    t.check(changed == wants, f"boosted: {changed}, expected {wants}")
    t.check(elbo == new.stats["elbo"] and sd == new.stats["elbo_sd"],
            "ELBO of the boosted posterior")
    t.check(new.stats["stable"] == c["stable"], "stability")
    t.label("boosted" if changed else "not boosted")
    if not changed:
        t.check(same(snapshot(new), snapshot(before)),
                "changed without a boost")
        return
    t.nontrivial()
    t.check(new.K == K1 == new.w.size == new.mu.shape[1] == new.sigma.size,
            f"{new.K} components, expected {K1}: none is removed")
    t.check(abs(new.w.sum() - 1) < 1e-9 and np.all(new.w >= 0), "weights")
    if not c["weights"]:
        t.check(np.ptp(new.w) < 1e-12, "weights that are not variable moved")
    elif K1 > 1:
        t.check(np.ptp(new.w) > 1e-12, "weights were not optimised")
    if not c["means"]:
        t.check(np.array_equal(new.mu, before.mu), "fixed means moved")
    t.check(new.w.min() > 0 or c["weights"], "weight lost")
    if new.w.min() < v.options["tol_weight"]:
        t.label("small weight kept")


PROPS = [
    Prop("boost", boost_case, boost, 160, 4000),
    Prop("select", select_case, select, 1500),
    Prop("run", run_case, run, 48, 500, shrink=False, cpu_limit=300),
]
