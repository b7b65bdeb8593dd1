"""C22: search candidates and the initial design."""
import numpy as np
from scipy import stats

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C22"
TECHNIQUE = (
    "generated designs, sources, bounds and sizes; counts and membership "
    "checked exactly on separable sources, distributions with "
    "Kolmogorov-Smirnov bounds"
)
RULE = (
    "Cases: mixes of candidate sources whose regions do not overlap, search "
    "bounds (finite or not), caches of starting and search points; initial "
    "designs with 0-12 provided points, some with values, integer variables. "
    "Non-trivial: at least two sources, or provided and drawn points."
)
ASSUMPTIONS = [
    "distributional differences below 0.03 in the distribution function "
    "(20000 draws) are not detected",
]

KS = 0.0255  # 20000 draws, p < 1e-11
NBIG = 20000
FRACS = ["search_cache_frac", "heavy_tail_search_frac", "mvn_search_frac",
         "hpd_search_frac", "box_search_frac"]


class Opts(dict):
    def eval(self, k, _):
        return self[k]


class FL:
    pass


# ------------------------------------------------------------- candidates
@st.composite
def mix_case(draw):
    D = draw(st.integers(1, 4))
    # fractions in sixteenths: at most all of the points
    left, fr = 16, {}
    for k in draw(st.permutations(FRACS)):
        v = draw(st.integers(0, left)) if draw(st.booleans()) else 0
        fr[k] = v
        left -= v
    return {
        "D": D, "fr": fr,
        "n": draw(st.sampled_from([1, 2, 5, 16, 48, 160, 320, 33])),
        "cache": draw(st.sampled_from([0, 0, 0, 1, 3, 10, 200])),
        "cache_frac": draw(st.sampled_from([0, 0.25, 0.5, 1])),
        "n_sc": draw(st.sampled_from([0, 1, 7, 400])),
        "hpd": draw(st.sampled_from([0.8, 0.5, 0.2])),
        "bnd": draw(st.sampled_from(["inf", "wide", "tight", "one"])),
        "seed": draw(gen.SEED),
    }


def mix_setup(c):
    """Sources at separate places along the first coordinate."""
    D, r = c["D"], np.random.RandomState(c["seed"] % 2**31)
    vp = gen.build_vp({
        "D": D, "K": 2, "tr": None, "mu": list(1e3 + r.randn(2 * D) * 1e-3),
        "sigma": [1e-3, 1e-3], "lambd": [1.0] * D, "w": [0.5, 0.5],
    })
    n = 60
    X = r.randn(n, D) * 1e-3 - 1e3
    X[: n // 8] -= 1.0
    # the best points are the ones around -1000
    y = -np.abs(np.arange(n) - n) / n
    y[: n // 8] = -100.0
    f = FL()
    f.X, f.y = np.zeros((80, D)), np.zeros((80, 1))
    f.X[:n], f.y[:n, 0] = X, y
    f.X[n:] = np.nan
    f.y[n:] = np.nan
    f.X_flag = np.arange(80) < n
    f.parameter_transformer = vp.parameter_transformer
    sc = np.full((c["n_sc"], D), 3e3) + r.randn(c["n_sc"], D) * 1e-3
    cache = np.full((c["cache"], D), -3e3) + np.arange(c["cache"])[:, None]
    if c["bnd"] == "inf":
        lb, ub = np.full((1, D), -np.inf), np.full((1, D), np.inf)
    elif c["bnd"] == "wide":
        lb, ub = np.full((1, D), -1e4), np.full((1, D), 1e4)
    elif c["bnd"] == "tight":
        lb, ub = np.full((1, D), -1e3), np.full((1, D), 2e3)
    else:
        lb, ub = np.full((1, D), -np.inf), np.full((1, D), np.inf)
        lb[0, 0], ub[0, 0] = -1e3, 2e3
    os = {
        "cache": {"x_orig": cache,
                  "y_orig": np.full(len(cache), np.nan)},
        "lb_search": lb, "ub_search": ub,
        "plb_tran": np.full((1, D), -1.5e3),
        "pub_tran": np.full((1, D), 1.5e3),
        "search_cache": sc if len(sc) else [],
    }
    o = Opts({k: v / 16 for k, v in c["fr"].items()})
    o["cache_frac"], o["hpd_frac"] = c["cache_frac"], c["hpd"]
    return vp, f, os, o, sc, cache


def mix(c, t):
    from pyvbmc.vbmc.active_sample import _get_search_points

    vp, f, os, o, sc, cache = mix_setup(c)
    n, D = c["n"], c["D"]
    nc = min(int(np.ceil(n * c["cache_frac"])), len(cache))
    m = n - nc
    cnt = {k: round(v / 16 * m) for k, v in c["fr"].items()}
    want_sc = min(cnt["search_cache_frac"], len(sc))
    total = sum(cnt.values())
    if total > m:
        # documented: options that ask for more than the requested number
        t.label("too many")
        try:
            X, idx = _get_search_points(n, os, f, vp, o)
        except ValueError:
            return
    else:
        X, idx = _get_search_points(n, os, f, vp, o)
    t.check(X.shape == (n, D), f"{X.shape} candidates for {n}")
    t.check(idx.shape == (n,), f"{idx.shape} cache indices for {n}")
    t.check(np.all(np.isfinite(X)), "candidate not finite")
    lb, ub = os["lb_search"], os["ub_search"]
    t.check(np.all(X >= lb) and np.all(X <= ub), "outside the bounds")
    used = int(np.sum([v > 0 for v in cnt.values()]))
    t.nontrivial(used + (nc > 0) + (total < m) > 1)
    # cached starting points
    from_c = ~np.isnan(idx)
    t.check(from_c.sum() == nc, f"{from_c.sum()} cached points, not {nc}")
    i = idx[from_c].astype(int)
    t.check(len(set(i)) == nc, "cached point twice")
    t.check(
        np.array_equal(X[from_c], np.clip(cache[i], lb, ub)),
        "not the cached points",
    )
    if total > m:
        return
    # the others, by where they are
    R = X[~from_c]
    clip = lambda p: np.clip(np.full((1, D), p), lb, ub)[0]

    def near(p):
        return np.sum(np.all(np.abs(R - clip(p)) < 0.5, axis=1))

    def at(p):
        return np.sum(np.all(R == clip(p), axis=1))

    n_sc = sum(
        int(np.any(np.all(R == np.clip(s, lb, ub), axis=1))) for s in sc[
            :want_sc]
    )
    t.check(n_sc == want_sc, f"{n_sc} of the search cache, not {want_sc}")
    if c["bnd"] != "inf" and c["bnd"] != "wide":
        return
    if cnt["box_search_frac"] and D == 1:
        return
    t.check(near(3e3) == want_sc, "other points than the cached ones")
    # heavy tails may leave the neighbourhood, but rarely
    w_vp = m - total + cnt["search_cache_frac"] - want_sc
    w_vp += cnt["mvn_search_frac"]
    h = cnt["heavy_tail_search_frac"]
    got = near(1e3)
    t.check(w_vp <= got <= w_vp + h + 0, lambda: (
        f"{got} points of the posterior, not {w_vp} to {w_vp + h}"))
    h = near(-1e3) - cnt["hpd_search_frac"]
    t.check(0 <= h <= cnt["box_search_frac"], lambda: (
        f"{near(-1e3)} high-density points, "
        f"not {cnt['hpd_search_frac']}"))
    rest = n - nc - want_sc - got - cnt["hpd_search_frac"]
    t.check(rest >= cnt["box_search_frac"], "points of the box missing")


@st.composite
def dist_case(draw):
    return {
        "vp": draw(gen.vp_spec(max_d=3, max_k=4, tr=False)),
        "src": draw(st.sampled_from(
            ["vp", "heavy_tail_search_frac", "mvn_search_frac",
             "hpd_search_frac"])),
        "seed": draw(gen.SEED),
        "n": draw(st.integers(3, 40)),
    }


def dist(c, t):
    """Each source follows the distribution it is named after."""
    from pyvbmc.vbmc.active_sample import _get_search_points

    vp = gen.build_vp(c["vp"])
    D = vp.D
    r = np.random.RandomState(c["seed"] % 2**31)
    f = FL()
    f.X = r.randn(c["n"], D) * 2
    f.y = -np.sum(f.X**2, 1, keepdims=True)
    f.X_flag = np.full(c["n"], True)
    f.parameter_transformer = vp.parameter_transformer
    inf = np.full((1, D), np.inf)
    os = {"cache": {"x_orig": np.zeros((0, D)), "y_orig": np.zeros(0)},
          "lb_search": -inf, "ub_search": inf,
          "plb_tran": np.full((1, D), -1.0), "pub_tran": np.full((1, D), 1.0),
          "search_cache": []}
    o = Opts({k: 0 for k in FRACS})
    o["cache_frac"], o["hpd_frac"] = 0.5, 0.8
    if c["src"] != "vp":
        o[c["src"]] = 1.0
    X, _ = _get_search_points(NBIG, os, f, vp, o)
    t.nontrivial(vp.K > 1)
    t.label(c["src"])
    a = r.randn(D)
    a /= np.linalg.norm(a)
    if c["src"] == "mvn_search_frac":
        w, lam, sig = np.ravel(vp.w), np.ravel(vp.lambd), np.ravel(vp.sigma)
        mu = vp.mu @ w
        C = np.diag(lam**2) * (w @ sig**2) + (
            (vp.mu - mu[:, None]) * w) @ (vp.mu - mu[:, None]).T
        d = stats.kstest(X @ a, stats.norm(a @ mu, np.sqrt(a @ C @ a)).cdf)
        t.check(d.statistic < KS, f"not the moment-matched normal: {d}")
    elif c["src"] == "hpd_search_frac":
        # a mixture of normals fitted to the best k points, k between
        k0 = max(1, int(np.floor(0.1 * c["n"])))
        k1 = int(np.ceil(0.8 * c["n"]))
        order = np.argsort(-f.y[:, 0], kind="stable")
        ms = [f.X[order[:k]].mean(0) for k in range(k0, k1 + 1)]
        vs = [f.X[order[:k]].var(0) for k in range(k0, k1 + 1)]
        last = np.min(vs[-2:], 0)
        if 0.1 * c["n"] <= 1:
            # no point at all: around the best, as wide as all of them
            ms.append(f.X[order[0]])
            vs.append(f.X.var(0, ddof=1))
        lo, hi = np.min(ms, 0), np.max(ms, 0)
        sd = np.sqrt(np.max(vs, 0) + (hi - lo) ** 2 / 4 + 1e-12)
        z = 8 * sd / np.sqrt(NBIG)
        m = X.mean(0)
        t.check(np.all(m > lo - z) and np.all(m < hi + z),
                f"mean {m} not between {lo} and {hi}")
        t.check(np.all(X.std(0) < sd * 1.1 + 1e-9),
                f"spread {X.std(0)} above {sd}")
        # the largest fraction is used for a sixth of the points
        t.check(np.all(X.std(0) ** 2 > last / 6 * 0.5),
                f"spread {X.std(0)} too small")
    else:
        df = 3 if c["src"] != "vp" else np.inf
        for d in range(D):
            s = np.ravel(vp.sigma) * np.ravel(vp.lambd)[d]

            def cdf(x):
                z = (np.asarray(x)[:, None] - vp.mu[d]) / s
                F = stats.norm.cdf(z) if df == np.inf else stats.t(3).cdf(z)
                return F @ np.ravel(vp.w)

            q = stats.kstest(X[:, d], cdf)
            t.check(q.statistic < KS, f"coordinate {d}: {q}")
        if df == 3 and D > 1 and vp.K == 1:
            # one multivariate t: the coordinates share their scale
            z = (X - vp.mu[:, 0]) / (
                np.ravel(vp.sigma)[0] * np.ravel(vp.lambd))
            q = stats.kstest(np.sum(z**2, 1) / D, stats.f(D, 3).cdf)
            t.check(q.statistic < KS, f"not a multivariate t: {q}")


# ---------------------------------------------------------- initial design
@st.composite
def init_case(draw):
    D = draw(st.integers(1, 3))
    ds = draw(st.lists(gen.dim_spec(), min_size=D, max_size=D))
    ints = [0] * D
    if draw(st.integers(0, 2)) == 0:
        ints = draw(st.lists(st.integers(0, 1), min_size=D, max_size=D))
    for d in range(D):
        if ints[d]:
            a, n = draw(st.integers(-20, 20)), draw(st.integers(3, 40))
            ds[d] = {"k": "b", "lb": a - 0.5, "ub": a + n + 0.5,
                     "plb": a + 0.2 * n, "pub": a + 0.8 * n}
    n0 = draw(st.integers(0, 12))
    return {
        "dims": ds, "ints": ints,
        "x0": [draw(st.lists(gen.fl(0.02, 0.98), min_size=D, max_size=D))
               for _ in range(n0)],
        "given": draw(st.lists(st.integers(0, 1), min_size=n0, max_size=n0)),
        "n": draw(st.integers(1, 25)),
        "design": draw(st.sampled_from(["plausible", "narrow"])),
        "noise": draw(st.sampled_from([0, 0, 1])),
        "seed": draw(gen.SEED),
        "big": draw(st.integers(0, 9)) == 0,
    }


def initial(c, t):
    from pyvbmc import VBMC
    from pyvbmc.vbmc.active_sample import active_sample

    lb, ub, plb, pub = gen.bounds_of(c["dims"])
    D, n = lb.shape[1], (3000 if c["big"] else c["n"])
    x0 = np.array(
        [[plb[0, d] + f * (pub - plb)[0, d] for d, f in enumerate(x)]
         for x in c["x0"]]
    ).reshape(-1, D)
    ii = np.array(c["ints"], dtype=bool)
    x0[:, ii] = np.round(x0[:, ii])
    if len(np.unique(x0, axis=0)) < len(x0):
        t.discard()
    calls = []

    def target(x):
        calls.append(np.array(x, dtype=float).ravel())
        return float(-np.sum(((np.ravel(x) - plb) / (pub - plb)) ** 2))

    given = np.array(c["given"], dtype=bool)
    opts = {"display": "off", "init_design": c["design"]}
    vals = np.full(len(x0), np.nan)
    vals[given] = -10.0 - np.arange(given.sum())
    if given.any():
        opts["f_vals"] = vals
    if ii.any():
        opts["integer_vars"] = np.array(c["ints"])
    if c["noise"]:
        opts["uncertainty_handling"] = True
    np.random.seed(c["seed"] % 2**32)
    v = VBMC(target, x0 if len(x0) else None, lb, ub, plb, pub, options=opts)
    auto = not len(x0)
    X0 = x0 if not auto else v.parameter_transformer.inverse(v.x0)
    plb, pub = v.plausible_lower_bounds, v.plausible_upper_bounds
    if auto:
        t.check(X0.shape == (1, D) and np.all(X0 >= plb)
                and np.all(X0 <= pub), f"default starting point {X0}")
        X0[:, ii] = np.round(X0[:, ii])
        vals = np.array([np.nan])
    n0 = len(X0)
    f, os, vp, gp = active_sample(
        None, n, v.optim_state, v.function_logger, v.iteration_history,
        v.vp, v.options,
    )
    T = v.parameter_transformer
    called = np.array(calls).reshape(-1, D)
    m = min(n, n0)
    t.nontrivial(0 < m < n or (given[:m].any() and not given[:m].all()))
    t.check(gp is None, "surrogate")
    t.check(os["cache"]["x_orig"].shape[0] == 0
            and os["cache"]["y_orig"].shape[0] == 0, "cache left over")
    L = f.Xn + 1
    # draws may coincide for integers (values are then averaged)
    # (and when clipped to the plausible box)
    distinct = not ii.any() and c["design"] == "plausible"
    t.check(L == n if distinct else L <= n,
            f"{L} points in the log for {n}")
    t.check(np.sum(f.n_evals[: L]) == n, "number of evaluations")
    X, y = f.X_orig[:L], f.y_orig[:L, 0]
    w = pub - plb
    if L == n:
        t.check(np.allclose((X[:m] - X0[:m]) / w, 0, atol=1e-7),
                lambda: f"starting points: {X[:m]} {X0[:m]}")
        for i in range(m):
            if not np.isnan(vals[i]):
                t.check(y[i] == vals[i], "provided value")
    want = [i for i in range(n) if i >= m or np.isnan(vals[i])]
    t.check(len(calls) == len(want), lambda: (
        f"{len(calls)} calls for {len(want)} missing values"))
    C = called
    if L == n:
        t.check(np.array_equal(C, X[want]), "called elsewhere")
        yt = [target(x) for x in C]
        t.close(y[want], yt, "logged values", rtol=1e-12)
    t.check(np.all(np.abs(C[:, ii] - np.round(C[:, ii])) < 1e-6),
            lambda: f"not an integer: {C[:, ii]}")
    # drawn points: in the plausible box, evenly or around the first
    if m < n and len(C):
        new = C[len(want) - (n - m):]
        slack = np.where(ii, 0.5, 0.0) + 1e-9 * w
        t.check(np.all(new >= plb - slack) and np.all(new <= pub + slack),
                "drawn outside the plausible box")
        U = T(new)
        a, b = T(plb)[0], T(pub)[0]
        if c["design"] == "narrow":
            u0 = T(X0[:1])[0]
            far = np.abs(U - u0)[:, ~ii] > (0.05 * (b - a) + 1e-9)[~ii]
            t.check(not np.any(far), "drawn far from the first point")
            lo, hi = np.maximum(u0 - 0.05 * (b - a), a), np.minimum(
                u0 + 0.05 * (b - a), b)
        else:
            lo, hi = a, b
        if len(new) > 2000:
            t.label("distribution")
            for d in np.flatnonzero(~ii):
                # clipped values pile up at the ends of the narrow box
                z = U[:, d]
                z = z[(z > a[d] + 1e-9) & (z < b[d] - 1e-9)]
                if len(z) < 500:
                    continue
                q = stats.kstest(z, stats.uniform(
                    lo[d], hi[d] - lo[d]).cdf)
                t.check(q.pvalue > 1e-11, f"coordinate {d}: {q}")
            c0 = np.corrcoef(U[:, ~ii].T) if (~ii).sum() > 1 else None
            if c0 is not None and c["design"] == "plausible":
                off = c0[np.triu_indices(len(c0), 1)]
                t.check(np.all(np.abs(off) < 7 / np.sqrt(len(U))),
                        f"coordinates depend on each other: {off}")
    if n0 > n:
        t.label("more provided")


def bad(c, t):
    from pyvbmc import VBMC
    from pyvbmc.vbmc.active_sample import active_sample

    calls = []

    def target(x):
        calls.append(x)
        return 0.0

    v = VBMC(target, np.zeros((1, 1)), [[-5.0]], [[5.0]], [[-1.0]], [[1.0]],
             options={"display": "off", "init_design": c["name"]})
    t.nontrivial()
    t.raises(
        ValueError,
        lambda: active_sample(
            None, 3, v.optim_state, v.function_logger, v.iteration_history,
            v.vp, v.options),
        "unknown design accepted",
    )
    t.check(not calls, "target called")


PROPS = [
    Prop("mix", mix_case, mix, 2400),
    Prop("dist", dist_case, dist, 240, 2400),
    Prop("initial", init_case, initial, 800),
    Prop("bad", lambda: gen.obj(
        name=st.sampled_from(["", "Plausible", "random", "wide", None])),
        bad, 5, 5),
]
