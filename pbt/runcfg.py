"""Generated complete runs: configuration, target with a recorder."""
import numpy as np

from pbt import gen, runs
from pbt.gen import st

CLEAN = ["AcqFcn()", "AcqFcnLog()", "AcqFcnVanilla()"]
NOISY = ["AcqFcnNoisy()", "AcqFcnVIQR()", "AcqFcnVIQR(0.9)",
         "AcqFcnIMIQR()"]

# name -> values; most runs change only a few of them
OPTIONS = {
    "search_optimizer": ["cmaes", "Nelder-Mead", "none"],
    "search_cmaes_vp_init": [True, False],
    "search_cache_frac": [0, 0.1, 0.25],
    "hpd_search_frac": [0, 0.25],
    "ns_search": [60, 200],
    "init_design": ["plausible", "narrow"],
    "fun_evals_per_iter": [5, 1, 2, 9],
    "active_search_bound": [2, 0.5, np.inf],
    "active_sample_vp_update": [False, True],
    "active_sample_gp_update": [False, True],
    "warmup": [True, False],
    "skip_active_sampling_after_warmup": [False, True],
    "warp_rotoscaling": [True, False],
    "warp_undo_check": [True, False],
    "separate_search_gp": [False, True],
    "gp_mean_fun": ["negquad", "const"],
    "bounded_transform": ["probit", "logit", "student4", "norminv"],
    "det_entropy_min_d": [5, 1],
    "ns_gp_max": [6, 1, 2],
    "variable_means": [True, False],
    "variable_weights": [True, False],
    "active_sample_full_update_threshold": [3, 0],
    "cache_size": [500, 4],
    "tol_bound_x": [1e-5, 1e-3],
    "gp_hyp_sampler": ["slicesample"],
    "always_refit_vp": [False, True],
    "stable_gp_vp_k": [np.inf, 3],
}


@st.composite
def spec(draw, max_d=3, noise=(0, 0, 0, 1, 2), ints=True, opts=6,
         kinds=("gauss", "edge", "flat", "spike", "banana")):
    D = draw(st.integers(1, max_d))
    ds = draw(st.lists(gen.dim_spec(), min_size=D, max_size=D))
    iv = [0] * D
    if ints and draw(st.integers(0, 3)) == 0:
        iv = draw(st.lists(st.integers(0, 1), min_size=D, max_size=D))
    for d in range(D):
        if iv[d]:
            a, n = draw(st.integers(-20, 20)), draw(st.integers(14, 40))
            ds[d] = {"k": "b", "lb": a - 0.5, "ub": a + n + 0.5,
                     "plb": a + 0.2 * n, "pub": a + 0.8 * n}
    nz = draw(st.sampled_from(list(noise)))
    o = {}
    for k in draw(st.lists(st.sampled_from(sorted(OPTIONS)), unique=True,
                           max_size=opts)):
        o[k] = draw(st.sampled_from(OPTIONS[k]))
        if o[k] == np.inf:
            o[k] = "inf"
    if draw(st.booleans()):
        o["search_acq_fcn"] = draw(
            st.lists(st.sampled_from(NOISY if nz else CLEAN), min_size=1,
                     max_size=2))
    n0 = draw(st.integers(0, 4))
    return {
        "dims": ds, "ints": iv, "noise": nz, "o": o,
        "kind": draw(st.sampled_from(list(kinds))),
        "c": draw(st.lists(gen.fl(-0.6, 0.6), min_size=D, max_size=D)),
        "s": draw(st.lists(gen.fl(0.2, 1.0), min_size=D, max_size=D)),
        "x0": [draw(st.lists(gen.fl(0.05, 0.95), min_size=D, max_size=D))
               for _ in range(n0)],
        "given": draw(st.lists(st.integers(0, 1), min_size=n0, max_size=n0))
        if nz == 0 and draw(st.booleans()) else [0] * n0,
        "prior": draw(st.sampled_from(["none", "none", "log_prior"])),
        "ret": draw(st.sampled_from(["float", "float64", "(1,)", "(1,1)",
                                     "0d"])),
        "start": draw(st.sampled_from([10, 5, 7, 12])),
        "evals": draw(st.sampled_from([20, 26, 33, 41])),
        "iters": draw(st.integers(3, 7)),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


class Run:
    """Target, bounds and options of a generated run."""

    def __init__(self, c):
        self.c = c
        self.lb, self.ub, self.plb, self.pub = gen.bounds_of(c["dims"])
        self.D = self.lb.shape[1]
        self.w = self.pub - self.plb
        self.calls, self.vals, self.sds, self.shapes = [], [], [], []
        self.priors = []
        self.ints = np.array(c["ints"], dtype=bool)
        self.x0 = np.array(
            [[self.plb[0, d] + f * self.w[0, d] for d, f in enumerate(x)]
             for x in c["x0"]]
        ).reshape(-1, self.D)
        self.x0[:, self.ints] = np.round(self.x0[:, self.ints])
        self.noise_rng = np.random.RandomState(c["seed"] % 2**31 + 1)

    def z(self, x):
        """Coordinates in which the plausible box is [-1/2, 1/2]."""
        return (np.ravel(x) - self.plb[0]) / self.w[0] - 0.5

    def log_lik(self, x):
        """The noiseless target without the prior."""
        c, z = self.c, self.z(x)
        m, s = np.array(c["c"]), np.array(c["s"])
        if c["kind"] == "edge":
            # towards a corner of the bounded box; else Gaussian
            u = np.where(np.isfinite(self.lb[0]), 0.0, 1.0)
            v = np.sum(8.0 * np.sign(m + 1e-3) * z * (1 - u))
            return float(v - 0.5 * np.sum(u * ((z - m) / s) ** 2))
        if c["kind"] == "flat":
            u = np.where(np.isfinite(self.lb[0]), 0.0, 1.0)
            return float(-0.5 * np.sum(u * ((z - m) / s) ** 2))
        if c["kind"] == "spike":
            return float(-0.5 * np.sum(((z - m) / (0.1 * s)) ** 2))
        if c["kind"] == "banana" and self.D > 1:
            q = z.copy()
            q[1:] = q[1:] + 1.5 * q[:-1] ** 2
            return float(-0.5 * np.sum(((q - m) / s) ** 2))
        return float(-0.5 * np.sum(((z - m) / s) ** 2))

    def log_prior(self, x):
        return float(-0.1 * np.sum(self.z(x) ** 2))

    def sd(self, x):
        return float(0.1 + 0.2 * np.exp(-np.sum(self.z(x) ** 2)))

    def target(self, x):
        self.shapes.append(np.shape(x))
        self.calls.append(np.array(x, dtype=float).ravel())
        v = self.log_lik(x)
        s = None
        if self.c["noise"]:
            s = self.sd(x)
            v += s * self.noise_rng.randn()
        self.vals.append(v)
        self.sds.append(s)
        try:
            # the target may do what it likes with its argument
            x *= 0.0
        except (ValueError, TypeError):
            pass
        r = self.c["ret"]
        if r == "float64":
            v = np.float64(v)
        elif r == "(1,)":
            v = np.array([v])
        elif r == "(1,1)":
            v = np.array([[v]])
        elif r == "0d":
            v = np.array(v)
        return (v, s) if self.c["noise"] == 2 else v

    def options(self):
        c = self.c
        o = runs.fast(max_fun_evals=c["evals"], max_iter=c["iters"],
                      fun_eval_start=c["start"], min_fun_evals=0,
                      min_iter=0)
        for k, v in c["o"].items():
            o[k] = np.inf if v == "inf" else v
        if o.get("search_cache_frac", 0) and o.get("hpd_search_frac", 0):
            o["box_search_frac"] = 0  # at most all of the points
        if any(c["ints"]):
            # a coordinate that does not vary has no length scale
            o["init_design"] = "plausible"
            o["fun_eval_start"] = max(o["fun_eval_start"], 9)
        if c["noise"] == 1:
            o["uncertainty_handling"] = True
        if c["noise"] == 2:
            o["specify_target_noise"] = True
        if any(c["ints"]):
            o["integer_vars"] = np.array(c["ints"])
        g = np.array(c["given"], dtype=bool)
        if g.any():
            f = np.full(len(g), np.nan)
            f[g] = [self.joint(x) for x in self.x0[g]]
            o["f_vals"] = f
        return o

    def joint(self, x):
        v = self.log_lik(x)
        return v + (self.log_prior(x) if self.c["prior"] != "none" else 0)

    def vbmc(self, extra=None):
        from pyvbmc import VBMC

        o = self.options()
        o.update(extra or {})
        kw = {}
        if self.c["prior"] == "log_prior":
            def lp(x):
                self.priors.append(np.array(x, dtype=float).ravel())
                return self.log_prior(x)
            kw["log_prior"] = lp
        return VBMC(
            self.target, np.copy(self.x0) if len(self.x0) else None,
            np.copy(self.lb), np.copy(self.ub), np.copy(self.plb),
            np.copy(self.pub), options=o, **kw,
        )
