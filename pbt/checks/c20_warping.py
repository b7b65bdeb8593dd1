"""C20: rotation and rescaling of the inference space."""
import copy
from types import SimpleNamespace

import numpy as np

from pbt import gen, gpref, ref, runcfg, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C20"
TECHNIQUE = (
    "property-based testing against the exact affine map between the two "
    "spaces, and before/after comparison in complete runs"
)
RULE = (
    "Cases: mixtures, bounds and transform types, possibly already rotated "
    "spaces (also a mixture from an older space than the log's), logs with "
    "inactive and repeated points, surrogates, correlation thresholds and "
    "regularisation; complete runs that warp. Non-trivial: D > 1 and, for "
    "the map, correlated coordinates; for the runs, a warp took place."
)
ASSUMPTIONS = [
    "points are kept away from the bounds, where squashing loses digits",
]


class Space:
    """phi(x) = raw centred coordinates; u = phi R / s."""

    def __init__(self, T):
        D = len(T.mu)
        self.R = np.eye(D) if T.R_mat is None else np.array(T.R_mat)
        self.s = np.ones(D) if T.scale is None else np.ravel(T.scale)
        self.mu, self.delta = np.array(T.mu), np.array(T.delta)

    def to_raw(self, u):
        return ((u * self.s) @ self.R.T) * self.delta + self.mu

    def from_raw(self, y):
        return ((y - self.mu) / self.delta) @ self.R / self.s

    def log_det(self):
        """log |d raw / d u|."""
        return np.sum(np.log(self.s)) + np.sum(np.log(self.delta))


def affine(old, new):
    """u_new = u_old @ A + b, log|det A|."""
    D = len(old.s)
    b = new.from_raw(old.to_raw(np.zeros((1, D))))
    A = new.from_raw(old.to_raw(np.eye(D))) - b
    return A, b, old.log_det() - new.log_det()


# ---------------------------------------------------------------- the map
@st.composite
def map_case(draw):
    s = draw(gen.vp_spec(max_d=4, max_k=5, min_d=1))
    D = s["D"]
    return {
        "vp": s,
        # space of the log: that of the mixture, or a later one
        "later": draw(st.one_of(
            st.none(), st.none(),
            gen.obj(rot=gen.SEED, scale=gen.flist(0.2, 4, D)))),
        "thresh": draw(st.sampled_from([0.05, 0.0, 0.3, 0.95])),
        "reg": draw(st.sampled_from(["0", "0", "1", "0.3", "fun", "2"])),
        "pts": draw(st.lists(gen.flist(0.05, 0.95, D), min_size=1,
                             max_size=8)),
        "off": draw(st.lists(st.integers(0, 7), max_size=3)),
        "rep": draw(st.booleans()),
        "noisy": draw(st.booleans()),
        "cache": draw(st.lists(gen.flist(-1, 1, D), max_size=3)),
        "count": draw(st.integers(0, 3)),
        "iter": draw(st.integers(1, 30)),
        "box": [draw(gen.flist(-1.5, -0.1, D)),
                draw(gen.flist(0.1, 1.5, D))],
        "seed": draw(gen.SEED),
        "unbounded": draw(st.integers(0, 7)) == 0,
    }


def transformer(c, t):
    s = c["vp"]
    vp = gen.build_vp(s)
    if s["tr"]["center"] is False:
        # without centring, bounded coordinates are still those of raw
        t.label("uncentred")
    T = copy.deepcopy(vp.parameter_transformer)
    if c["later"]:
        D = s["D"]
        T.mu, T.delta = np.zeros(D), np.ones(D)
        T.R_mat = gen.rotation(c["later"]["rot"], D)
        T.scale = np.array(c["later"]["scale"])
    return vp, T


def whitening(c, t):
    from pyvbmc import VBMC
    from pyvbmc.function_logger import FunctionLogger
    from pyvbmc.whitening import warp_input

    vp, T_old = transformer(c, t)
    s = c["vp"]
    D = s["D"]
    lb, ub, plb, pub = gen.bounds_of(s["tr"]["dims"])
    reg = {"0": 0, "1": 1, "0.3": 0.3, "2": 2.0,
           "fun": lambda N: 1.0 / (1 + N)}[c["reg"]]
    v = VBMC(lambda x: 0.0, None, lb, ub, plb, pub, options=runs.fast(
        warp_roto_corr_thresh=c["thresh"], warp_cov_reg=reg))
    F = FunctionLogger(lambda x: 0.0, D, c["noisy"], 2 if c["noisy"] else 0,
                       3, T_old)
    for i, p in enumerate(c["pts"] + (c["pts"][:1] if c["rep"] else [])):
        x = plb[0] + np.array(p) * (pub - plb)[0]
        F.add(T_old(x[None])[0], float(np.sin(3.0 * i) * 5),
              0.5 + i if c["noisy"] else None)
    n = F.Xn + 1
    for i in c["off"]:
        if i < n and F.X_flag.sum() > 1:
            F.X_flag[i] = False
    o = v.optim_state
    o["N"], o["iter"], o["warping_count"] = n, c["iter"], c["count"]
    old_vp, old = Space(vp.parameter_transformer), Space(T_old)
    # search box and cache in the space of the log
    mid = T_old(0.5 * (plb + pub))
    ext = np.abs(np.ptp(T_old(np.vstack([plb, pub])), axis=0)) + 0.1
    o["lb_search"] = mid + ext * np.array(c["box"][0])
    o["ub_search"] = mid + ext * np.array(c["box"][1])
    if c["unbounded"]:
        o["lb_search"] = np.full((1, D), -np.inf)
        o["ub_search"] = np.full((1, D), np.inf)
    if c["cache"]:
        o["search_cache"] = mid + 0.5 * ext * np.array(c["cache"])
    before = copy.deepcopy((o, F, vp))
    np.random.seed(c["seed"] % 2**32)
    T, o2, F2, action = warp_input(vp, o, F, v.options)
    new = Space(T)
    A, b, ld = affine(old, new)

    # the arguments are left as they were
    t.check(np.array_equal(F.X, before[1].X, equal_nan=True)
            and np.array_equal(F.y, before[1].y, equal_nan=True)
            and F.parameter_transformer == before[1].parameter_transformer,
            "the old log changed")
    t.check(vp.parameter_transformer == before[2].parameter_transformer
            and np.array_equal(vp.mu, before[2].mu), "the mixture changed")
    for k in ("lb_search", "ub_search", "plb_tran", "warping_count",
              "last_warping", "skip_active_sampling", "search_cache"):
        t.check(np.array_equal(o[k], before[0][k]), f"old {k} changed")

    # a proper rotation that whitens the regularised covariance
    R = new.R
    t.close(R.T @ R, np.eye(D), "rotation", rtol=0, atol=1e-10)
    t.check(np.linalg.det(R) > 0, "a reflection")
    t.check(np.all(new.s > 0), "scale")
    w, mu, sg, lam = (np.ravel(vp.w), vp.mu, np.ravel(vp.sigma),
                      np.ravel(vp.lambd))
    m = mu @ w
    C = (mu - m[:, None]) @ np.diag(w) @ (mu - m[:, None]).T + np.diag(
        np.sum(w * sg**2) * lam**2)
    J = (old_vp.R * old_vp.s) * old_vp.delta[:, None]
    C = J @ C @ J.T
    corr = C / np.sqrt(np.outer(np.diag(C), np.diag(C)))
    near = np.abs(np.abs(corr) - c["thresh"]) < 1e-9
    C0 = np.where((np.abs(corr) <= c["thresh"]) & (c["thresh"] > 0), 0, C)
    r = min(1, max(0, reg(n) if callable(reg) else reg))
    C0 = (1 - r) * C0 + r * np.diag(np.diag(C0))
    ev = np.linalg.eigvalsh(C0)
    t.nontrivial(D > 1 and np.any(np.abs(corr - np.eye(D)) > 0.1))
    t.label("later space", c["later"] is not None)
    if not near.any() and ev.min() > 1e-9 * ev.max() and ev.min() > 1e-10:
        W = R / new.s
        I = W.T @ C0 @ W
        e = 1e-6 + 4 * np.finfo(float).eps / ev.min()
        t.close(I, np.eye(D), "whitened covariance", rtol=0, atol=e)
    t.check(np.all(new.mu == 0) and np.all(new.delta == 1),
            "shift and scale of the raw coordinates")

    # the log
    a = F.X_flag
    t.check(np.array_equal(F2.X_flag, a), "active points")
    for k in ("X_orig", "y_orig", "n_evals", "fun_eval_time"):
        t.check(np.array_equal(getattr(F2, k), getattr(F, k),
                               equal_nan=True), f"{k} changed")
    if c["noisy"]:
        t.check(np.array_equal(F2.S, F.S, equal_nan=True), "noise changed")
    t.check(F2.Xn == F.Xn and F2.func_count == F.func_count, "counts")
    X = F.X[a] @ A + b
    e = 1e-8 * (1 + np.abs(A).sum() * (1 + np.abs(F.X[a]).max()))
    t.close(F2.X[a], X, "transformed points", rtol=1e-8, atol=e)
    t.close(F2.y[a], F.y[a] - ld, "corrected values", rtol=1e-8, atol=1e-6)
    t.check(F2.parameter_transformer == T, "transformer of the log")

    # the remaining state
    t.check(o2["warping_count"] == c["count"] + 1, "count of warps")
    t.check(o2["last_warping"] == c["iter"], "last warping")
    t.check(o2["last_successful_warping"] == c["iter"], "last success")
    t.check(bool(o2["recompute_var_post"]), "posterior not recomputed")
    t.check(action == "rotoscale", f"action {action}")

    # boxes
    raw_plb, raw_pub = plb, pub
    U = np.random.RandomState(5).uniform(size=(20000, D))
    Y = T(raw_plb + U * (raw_pub - raw_plb))
    q = np.quantile(Y, [0.05, 0.95], axis=0)
    d = q[1] - q[0]
    t.check(np.shape(o2["plb_tran"]) == (1, D)
            and np.shape(o2["pub_tran"]) == (1, D), "plausible box shape")
    t.check(np.all(np.abs(o2["plb_tran"] - (q[0] - d / 9)) < 0.06 * d)
            and np.all(np.abs(o2["pub_tran"] - (q[1] + d / 9)) < 0.06 * d),
            lambda: f"plausible box {o2['plb_tran']} {o2['pub_tran']}, "
            f"expected {q[0] - d / 9} {q[1] + d / 9}")
    if c["unbounded"]:
        t.check(np.all(o2["lb_search"] == -np.inf)
                and np.all(o2["ub_search"] == np.inf), "unbounded search")
        return
    lo, hi = before[0]["lb_search"], before[0]["ub_search"]
    cen, half = 0.5 * (lo + hi) @ A + b, 0.5 * (hi - lo) @ np.abs(A)
    corners = np.array(np.meshgrid(*np.vstack([lo, hi]).T)).reshape(D, -1).T
    # where the inverse map has digits left
    sat = ref.ref_transform(s["tr"]).dist.sf(np.abs(
        old.to_raw(corners)[:, np.isfinite(lb[0])])).min(initial=1) < 1e-9
    if not sat:
        t.label("search box")
        L, H = o2["lb_search"], o2["ub_search"]
        t.check(L.shape == (1, D) and H.shape == (1, D), "search box shape")
        e = 0.0021 * half + 1e-5
        t.check(np.all(L >= cen - half - e) and np.all(H <= cen + half + e),
                lambda: f"search box [{L}, {H}] exceeds the image of the old "
                f"one, [{cen - half}, {cen + half}]")
        t.check(np.all(L <= cen - 0.3 * half) and np.all(
            H >= cen + 0.3 * half), lambda: (
            f"search box [{L}, {H}] does not cover [{cen - half}, "
            f"{cen + half}]"))
        if c["cache"]:
            Z = before[0]["search_cache"] @ A + b
            t.close(o2["search_cache"], Z, "search cache", rtol=1e-5,
                    atol=1e-5 * (1 + np.abs(Z).max()))


# ------------------------------------------- posterior and surrogate moved
@st.composite
def move_case(draw):
    s = draw(gen.vp_spec(max_d=3, max_k=4))
    D = s["D"]
    return {
        "vp": s,
        "gp": draw(gpref.gp_spec(D, means=("const", "negquad"))),
        "rot": draw(gen.SEED), "scale": draw(gen.flist(0.3, 3, D)),
        "axes": draw(st.booleans()), "perm": draw(gen.SEED),
        "q": draw(gen.SEED),
    }


def move(c, t):
    from pyvbmc.whitening import warp_gp_and_vp

    s = c["vp"]
    D, K = s["D"], s["K"]
    vp = gen.build_vp(s)
    # the normalisation of the scales used throughout
    n = np.sqrt(np.sum(vp.lambd**2) / D)
    vp.lambd, vp.sigma = vp.lambd / n, vp.sigma * n
    T_old = vp.parameter_transformer
    T = copy.deepcopy(T_old)
    T.mu, T.delta = np.zeros(D), np.ones(D)
    old = Space(T_old)
    if c["axes"]:
        # axis-aligned: a permutation of the coordinates and a rescaling
        P = np.eye(D)[np.random.RandomState(c["perm"] % 2**31).permutation(D)]
        T.R_mat = old.R @ P
        if not np.allclose(old.delta, old.delta[0]):
            T.R_mat, P = P, P
            if not np.allclose(old.R, np.eye(D)):
                t.discard()
    else:
        T.R_mat = gen.rotation(c["rot"], D)
    T.scale = np.array(c["scale"])
    new = Space(T)
    A, b, ld = affine(old, new)
    if np.abs(A).max() > 1e4 or np.abs(np.linalg.inv(A)).max() > 1e4:
        t.discard()
    aligned = np.all((np.abs(A) > 1e-9 * np.abs(A).max()).sum(0) == 1)
    gp = gpref.build(c["gp"])
    # where the inverse map has digits left
    h = [gpref.vec(c["gp"], x) for x in c["gp"]["hyps"]]
    far = [vp.mu.T, gp.X]
    scales = [(vp.lambd * vp.sigma).max()]
    for x in c["gp"]["hyps"]:
        scales += list(x["ell"]) + list(x.get("omega", []))
        if "xm" in x:
            far.append(np.array([x["xm"]]))
    far = np.vstack(far)
    far = np.vstack([far + k * np.sqrt(D) * max(scales) * e
                     for k in (-1, 0, 1) for e in np.eye(D)])
    raw = old.to_raw(far)
    bd = np.isfinite(gen.bounds_of(s["tr"]["dims"])[0][0])
    dist = ref.ref_transform(s["tr"]).dist
    if dist.sf(np.abs(raw[:, bd])).min(initial=1) < 1e-7:
        t.discard()
    t.nontrivial(D > 1)
    t.label("aligned", aligned)
    before = copy.deepcopy((gp, vp))
    vb = SimpleNamespace(D=D, optim_state={}, vp=vp, gp=gp)
    vp2, hyp = warp_gp_and_vp(T, gp, vp, vb)
    t.check(np.array_equal(vp.mu, before[1].mu)
            and np.array_equal(vp.sigma, before[1].sigma)
            and np.array_equal(vp.lambd, before[1].lambd)
            and np.array_equal(vp.w, before[1].w)
            and vp.parameter_transformer == before[1].parameter_transformer,
            "the old mixture changed")
    t.check(np.array_equal(gp.X, before[0].X) and np.array_equal(
        gp.get_hyperparameters(as_array=True),
        before[0].get_hyperparameters(as_array=True)), "old surrogate")
    t.check(vp2.parameter_transformer == T, "transformer")
    t.check(vp2 is not vp, "same object")

    # the mixture: exact under an affine map
    e = dict(rtol=1e-4, atol=1e-4)
    t.check(vp2.K == K and vp2.mu.shape == (D, K) and vp2.lambd.shape == (
        D, 1) and vp2.sigma.shape == (1, K) and vp2.w.shape == (1, K),
        "shapes")
    t.close(vp2.mu.T, vp.mu.T @ A + b, "means", **e)
    t.close(vp2.w, vp.w, "weights", rtol=1e-4)
    t.close(vp2.w.sum(), 1.0, "sum of the weights")
    t.close(np.sum(vp2.lambd**2), D, "normalisation of the scales")
    S = np.sqrt((vp.lambd * vp.sigma).T ** 2 @ A**2)  # (K, D)
    S2 = (vp2.lambd * vp2.sigma).T
    if K == 1 or aligned:
        t.close(S2, S, "component scales", **e)
    # in general: geometric mean over the coordinates of each component
    t.close(np.exp(np.mean(np.log(S2), 1)), np.exp(np.mean(np.log(S), 1)),
            "component volumes", **e)
    lam = np.sqrt(D * np.mean(S**2 / np.sum(S**2, 1, keepdims=True), 0))
    t.close(vp2.lambd[:, 0], lam, "relative scales", **e)
    if aligned:
        # the same density in the original space
        r = np.random.RandomState(c["q"] % 2**31)
        k = r.randint(K, size=20)
        u = vp.mu[:, k].T + r.randn(20, D) * (
            np.ravel(vp.sigma)[k, None] * vp.lambd.T)
        x = T_old.inverse(u)
        p1 = vp.pdf(x, orig_flag=True, log_flag=True)
        p2 = vp2.pdf(x, orig_flag=True, log_flag=True)
        t.close(p2, p1, "log density in the original space", rtol=1e-4,
                atol=1e-3)

    # the surrogate
    H = np.array(h)
    t.check(hyp.shape == H.shape, f"hyperparameters of shape {hyp.shape}")
    Nc = D + 1
    ell = np.sqrt(np.exp(2 * H[:, :D]) @ A**2)
    t.close(hyp[:, :D], np.log(ell), "length scales", **e)
    t.close(hyp[:, D:Nc + 1], H[:, D:Nc + 1], "output scale and noise")
    t.close(hyp[:, Nc + 1], H[:, Nc + 1] - ld, "constant of the mean", **e)
    if c["gp"]["mean"] == "negquad":
        t.close(hyp[:, Nc + 2:Nc + 2 + D], H[:, Nc + 2:Nc + 2 + D] @ A + b,
                "location of the mean", **e)
        om = np.sqrt(np.exp(2 * H[:, Nc + 2 + D:]) @ A**2)
        t.close(hyp[:, Nc + 2 + D:], np.log(om), "scale of the mean", **e)
    if aligned:
        # with the moved data, the same predictions up to the Jacobian
        g2 = copy.deepcopy(gp)
        g2.X, g2.y = gp.X @ A + b, gp.y - ld
        g2.update(hyp=hyp)
        q = np.random.RandomState(c["q"] % 2**31).uniform(-2, 2, (10, D))
        m1, v1 = gp.predict(q, add_noise=False)
        m2, v2 = g2.predict(q @ A + b, add_noise=False)
        t.close(m2, m1 - ld, "prediction", rtol=1e-2, atol=2e-2)
        t.close(v2, v1, "variance of the prediction", rtol=1e-2, atol=2e-2)


# ---------------------------------------------------------- unscented map
def unscent_case():
    return gen.obj(
        D=st.integers(1, 4), n=st.sampled_from([[1, 1], [3, 3], [1, 3],
                                                [3, 1], [2, 3], [1, 4]]),
        flat=st.tuples(st.booleans(), st.booleans()).map(list),
        dx=st.sampled_from([0, 0, 0, 1]), seed=gen.SEED,
        kind=st.sampled_from(["affine", "cubic"]))


def unscent(c, t):
    from pyvbmc.whitening import unscent_warp

    D, (n1, n2) = c["D"], c["n"]
    r = np.random.RandomState(c["seed"] % 2**31)
    x, s = r.randn(n1, D), np.exp(r.randn(n2, D + c["dx"]))
    B, b = r.randn(D, D), r.randn(D)

    def fun(z):
        y = z @ B + b
        return y if c["kind"] == "affine" else y + 0.1 * y**3

    X = x[0] if c["flat"][0] and n1 == 1 else x
    S = s[0] if c["flat"][1] and n2 == 1 else s
    n = max(n1, n2)
    t.nontrivial(n > 1)
    if c["dx"] or n1 not in (1, n) or n2 not in (1, n):
        t.raises(ValueError, lambda: unscent_warp(fun, X, S),
                 f"shapes {X.shape}, {S.shape}")
        return
    X0, S0 = X.copy(), S.copy()
    m, sd, P = unscent_warp(fun, X, S)
    t.check(np.array_equal(X, X0) and np.array_equal(S, S0), "in place")
    t.check(P.shape == (2 * D + 1, n, D), f"points of shape {P.shape}")
    xx = np.broadcast_to(x, (n, D))
    ss = np.broadcast_to(s, (n, D))
    Q = [fun(xx)]
    for d in range(D):
        e = np.sqrt(D) * ss[:, [d]] * np.eye(D)[d]
        Q += [fun(xx + e), fun(xx - e)]
    Q = np.array(Q)
    t.close(P, Q, "points")
    t.close(np.reshape(m, (n, D)), Q.mean(0), "mean")
    t.close(np.reshape(sd, (n, D)), Q.std(0, ddof=1), "sd")
    if n1 == n:
        t.check(np.shape(m) == X.shape, f"mean of shape {np.shape(m)}")
    if c["kind"] == "affine":
        t.close(np.reshape(m, (n, D)), fun(xx), "affine mean", atol=1e-9)
        t.close(np.reshape(sd, (n, D)), np.sqrt(ss**2 @ B**2), "affine sd")


# ----------------------------------------------------------- whole runs
@st.composite
def run_case(draw):
    c = draw(runcfg.spec(max_d=2, noise=(0, 0, 2), ints=False, opts=2,
                         kinds=("gauss", "banana")))
    while len(c["dims"]) < 2:
        c["dims"] = c["dims"] * 2
        for k in ("c", "s", "ints"):
            c[k] = c[k] * 2
        c["x0"] = [x * 2 for x in c["x0"]]
    c["undo"] = draw(st.sampled_from(["never", "always", "always", "off"]))
    c["given"] = [0] * len(c["given"])
    c["evals"], c["iters"] = 60, 9
    for k in ("warp_rotoscaling", "warp_undo_check", "warmup",
              "variable_means", "variable_weights"):
        c["o"].pop(k, None)
    return c


def freeze(v):
    f = v.function_logger
    return {
        "X": f.X.copy(), "y": f.y.copy(), "X_orig": f.X_orig.copy(),
        "y_orig": f.y_orig.copy(), "flag": f.X_flag.copy(),
        "T": copy.deepcopy(v.vp.parameter_transformer),
        "FT": copy.deepcopy(f.parameter_transformer),
        "vp": [np.array(q) for q in (v.vp.mu, v.vp.sigma, v.vp.lambd,
                                     v.vp.w)],
        "gpX": v.gp.X.copy(), "gpy": v.gp.y.copy(),
        "hyp": v.gp.get_hyperparameters(as_array=True),
        "state": copy.deepcopy(v.optim_state),
        "dict": copy.deepcopy(v.hyp_dict),
    }


def same(a, b):
    if isinstance(a, dict):
        return (isinstance(b, dict) and set(a) == set(b)
                and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    try:
        return bool(np.array_equal(np.asarray(a), np.asarray(b),
                                   equal_nan=True))
    except TypeError:
        try:
            return bool(np.all(a == b))
        except Exception:
            return True


def in_run(c, t):
    """A kept warp leaves a consistent record; an undone one leaves none."""
    import pyvbmc.vbmc.vbmc as M

    R = runcfg.Run(c)
    np.random.seed(c["seed"] % 2**32)
    tol = {"never": -np.inf, "always": np.inf}.get(c["undo"], 0.0)
    v = R.vbmc({
        "warmup": False, "warp_min_k": 1, "warp_every_iters": 1,
        "warp_tol_reliability": np.inf, "warp_rotoscaling": True,
        "warp_undo_check": c["undo"] != "off", "warp_tol_improvement": tol,
        "warp_tol_sd_multiplier": 1e9,
    })
    snaps, seen = [], []
    warp, sample = M.warp_input, M.active_sample

    def on_warp(*a, **k):
        snaps.append(freeze(v))
        return warp(*a, **k)

    def on_sample(*a, **k):
        if snaps and snaps[-1] is not None:
            seen.append((snaps[-1], freeze(v)))
            snaps[-1] = None
        return sample(*a, **k)

    M.warp_input, M.active_sample = on_warp, on_sample
    try:
        v.optimize()
    finally:
        M.warp_input, M.active_sample = warp, sample
    n = len(snaps)
    t.label("warps", n)
    t.nontrivial(n > 0)
    H = v.iteration_history
    if c["undo"] == "always":
        for a, b in seen:
            for k in sorted(a):
                if k == "state":
                    continue
                if k in ("T", "FT"):
                    t.check(a[k] == b[k], f"{k} after an undone warp")
                    continue
                t.check(same(a[k], b[k]), f"{k} after an undone warp")
            for k in sorted(a["state"]):
                if k in ("warping_count", "last_warping", "hyp_dict"):
                    continue
                t.check(same(a["state"][k], b["state"].get(k)),
                        f"state '{k}' after an undone warp")
            t.check(b["state"]["warping_count"]
                    == a["state"]["warping_count"] + 2, "count of warps")
            t.check(b["state"]["last_warping"] == b["state"]["iter"],
                    "last warping")
        t.check(v.optim_state["warping_count"] == 2 * n, "count of warps")
    else:
        t.check(v.optim_state["warping_count"] == n, "count of warps")
        t.check(not seen, "active sampling right after a warp") if (
            c["undo"] == "never" and False) else None
    # every iteration: surrogate data are the values in its own space
    for i, (gp, vp) in enumerate(zip(H["gp"], H["vp"])):
        F = H["function_logger"][i]
        T = vp.parameter_transformer
        t.check(F.parameter_transformer == T, "space of the log")
        a = F.X_flag
        t.close(F.X[a], T(F.X_orig[a]), f"iteration {i}: points", rtol=1e-6,
                atol=1e-6)
        t.close(F.y[a].ravel(), F.y_orig[a].ravel()
                + T.log_abs_det_jacobian(F.X[a]), f"iteration {i}: values",
                rtol=1e-6, atol=1e-6)
        t.check(gp.X.shape == F.X[a].shape and np.array_equal(gp.X, F.X[a])
                and np.array_equal(gp.y, F.y[a]),
                f"iteration {i}: the surrogate's data are not the record")
    C, n_calls = np.array(R.calls), len(R.calls)
    t.check(np.all(C > R.lb) and np.all(C < R.ub), "outside the bounds")
    t.check(v.function_logger.func_count == n_calls, "count of calls")


PROPS = [
    Prop("whitening", map_case, whitening, 600, 15000),
    Prop("move", move_case, move, 900, 20000),
    Prop("unscent", unscent_case, unscent, 1500, 20000),
    Prop("in_run", run_case, in_run, 40, 800, shrink=False, cpu_limit=400),
]
