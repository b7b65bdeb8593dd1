"""C36: the target's constant and the units of its variables are immaterial.

Metamorphic relation between complete runs: the same problem stated with
another normalising constant, in other units (scale and origin of every
variable) and with the prior inside or outside of the target has to be solved
in the same way, step by step.
"""
import numpy as np

from pbt import gen, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C36"
TECHNIQUE = "metamorphic property-based testing of complete runs"
RULE = (
    "Cases: pairs of small complete runs from the same random state of one "
    "generated problem (one to three dimensions, exact, noisy and with "
    "estimated noise, each variable bounded or not, with and without "
    "warm-up, re-whitening and given values, Gaussian and lighter-tailed "
    "targets) stated in two ways: with a constant added to the log-density, "
    "with rescaled and shifted variables, with the prior given separately "
    "or inside the target. The runs must agree iteration by iteration up to "
    "rounding; since rounding can flip a decision of a run, a problem counts "
    "as treated differently only if the two statements disagree from five "
    "of five random states, each time in an iteration up to which four runs "
    "of the first statement, with its log-density perturbed by 1e-10 and "
    "3e-10 either way, all agree with the unperturbed one. Non-trivial: the two statements differ and both runs have at "
    "least two iterations."
)
ASSUMPTIONS = [
    "the rounding errors of the second statement have effects like those of "
    "a perturbation of the log-density by 1e-10",
]
# agreement of two runs
TOL = 2e-3
# random states which all have to disagree
ROUNDS = 5


@st.composite
def case(draw):
    D = draw(st.integers(1, 3))
    mode = draw(st.sampled_from(
        ["const", "units", "origin", "all", "split", "split-units"]))
    return {
        "D": D,
        "mode": mode,
        "N": draw(st.integers(2, 7)),
        "stable": draw(st.sampled_from([4, 4, 15])),
        "seed": draw(gen.SEED),
        "noise": draw(st.sampled_from([0, 0, 0, 0, 1, 2])),
        "warmup": draw(st.sampled_from([True, True, False])),
        "bounded": draw(st.lists(st.booleans(), min_size=D, max_size=D)),
        "tr": draw(st.sampled_from(["probit", "logit", "student4"])),
        "prior": draw(st.booleans()),
        "corr": draw(gen.fl(-0.7, 0.7)),
        "quartic": draw(gen.fl(0.03, 0.2)),
        "wave": draw(gen.fl(0.2, 0.6)),
        "widths": draw(gen.flist(0.5, 1.5, D)),
        "plausible": draw(gen.flist(0.6, 2.0, D)),
        "given": draw(st.sampled_from([1, 1, 3, 12])),
        "values": draw(st.booleans()),
        "samples": draw(st.sampled_from([0, 2, 4])),
        "per": draw(st.integers(3, 6)),
        "const": draw(st.one_of(
            st.integers(-60, 60).map(float), st.sampled_from([-300., 300.]),
            gen.fl(-50, 50))),
        "scale": draw(st.lists(st.one_of(
            st.integers(-12, 12).map(lambda k: 2.0**k),
            st.integers(-4, 4).map(lambda k: 10.0**k)),
            min_size=D, max_size=D)),
        "shift": draw(gen.flist(-8, 8, D)),
    }


def solve(c, mode, seed, eps=0.0):
    """The problem of the case, stated in the given way, and its run.

    eps: relative size of a deterministic perturbation of the target.
    """
    import scipy.stats as ss

    from pyvbmc import VBMC

    D = c["D"]
    a = np.array(c["scale"]) if mode in ("units", "all", "split-units") else (
        np.ones(D))
    b = a * np.array(c["shift"]) if mode in ("origin", "all") else (
        np.zeros(D))
    const = c["const"] if mode in ("const", "all") else 0.0
    prior = c["prior"] or c["mode"].startswith("split")
    inside = mode.startswith("split")
    jac = float(np.sum(np.log(a)))
    w, rho = np.array(c["widths"]), c["corr"]
    pri = [ss.norm(0.3 * a[i] + b[i], 2.5 * a[i]) for i in range(D)]

    def value(x):
        z = (np.ravel(np.asarray(x)) - b) / a
        y = -0.5 * float(np.sum(z**2 / w)) - 0.5 * rho * float(
            np.sum(z[1:] * z[:-1])) - c["quartic"] * float(np.sum(z**4))
        y = y + c["wave"] * float(np.sum(np.sin(2 * z)))
        y = y + eps * float(np.sin(1e3 * np.sum(z)))
        y = y + const
        if not prior:
            return y - jac
        if inside:
            x = np.ravel(np.asarray(x))
            y = y + float(sum(p.logpdf(t) for p, t in zip(pri, x)))
        return y

    def target(x):
        y = value(x)
        if c["noise"] == 0:
            return y
        y = y + 0.2 * np.random.randn()
        return (y, 0.2) if c["noise"] == 2 else y

    kw = {}
    if any(c["bounded"]):
        m = np.array(c["bounded"])
        kw["lower_bounds"] = np.where(m, -6.0 * a + b, -np.inf)[None]
        kw["upper_bounds"] = np.where(m, 8.0 * a + b, np.inf)[None]
    if prior and not inside:
        kw["prior"] = pri
    p = np.array(c["plausible"])
    z0 = np.linspace(-0.6, 0.5, c["given"])[:, None] * p[None, :]
    if c["given"] == 1:
        z0 = np.zeros((1, D))
    x0 = z0 * a + b
    o = runs.fast(
        specify_target_noise=c["noise"] == 2,
        uncertainty_handling=[] if c["noise"] != 1 else True,
        max_iter=c["N"], fun_evals_per_iter=c["per"], warp_min_k=2,
        warp_every_iters=1, warmup=c["warmup"], tol_stable_count=1000,
        min_iter=0, min_fun_evals=0, stop_warmup_thresh=5.0,
        tol_stable_warmup=c["stable"], warmup_check_max=c["stable"] > 8,
        ns_gp_max=c["samples"], ns_gp_max_warmup=c["samples"],
        bounded_transform=c["tr"],
    )
    if c["values"] and c["noise"] == 0 and c["given"] > 1:
        add = 0.0
        o["f_vals"] = np.array([
            value(x) + add + (
                sum(q.logpdf(t) for q, t in zip(pri, x))
                if prior and not inside else 0.0
            ) for x in x0
        ])
    np.random.seed(seed)
    v = VBMC(
        target, x0, plausible_lower_bounds=(-p * a + b)[None],
        plausible_upper_bounds=(1.2 * p * a + b)[None], options=o, **kw,
    )
    vp, res = v.optimize()
    np.random.seed(seed)
    xs = (vp.sample(200)[0] - b) / a
    return v, vp, res, xs, const


def trace(v, vp, res, xs, const):
    """What must agree: (name, exact) -> value, in order of the run."""
    ih = v.iteration_history
    out = []
    for i in range(len(ih["iter"])):
        q, fl = ih["vp"][i], ih["function_logger"][i]
        out += [
            (f"evaluations in iteration {i}", True, int(fl.func_count)),
            (f"points of iteration {i}", False, fl.X[: fl.Xn + 1]),
            (f"points known after iteration {i}", True,
             fl.X_flag[: fl.Xn + 1]),
            (f"values of iteration {i}", False,
             fl.y[: fl.Xn + 1] - const),
            (f"components in iteration {i}", True, int(q.K)),
            (f"means of iteration {i}", False, q.mu),
            (f"scales of iteration {i}", False, q.sigma * q.lambd),
            (f"weights of iteration {i}", False, q.w),
            (f"ELBO of iteration {i}", False, ih["elbo"][i] - const),
            (f"its standard deviation in iteration {i}", False,
             ih["elbo_sd"][i]),
            (f"actions of iteration {i}", True,
             tuple(ih["logging_action"][i])),
            (f"warm-up in iteration {i}", True, bool(ih["warmup"][i])),
            (f"stability of iteration {i}", True, bool(ih["stable"][i])),
        ]
    out += [
        ("number of iterations", True, len(ih["iter"])),
        ("message", True, res["message"]),
        ("convergence", True, res["convergence_status"]),
        ("best iteration", True, res["best_iter"]),
        ("components", True, int(vp.K)),
        ("returned ELBO", False, vp.stats["elbo"] - const),
        ("reported ELBO", False, res["elbo"] - const),
        ("reported deviation", False, res["elbo_sd"]),
        ("returned means", False, vp.mu),
        ("samples in the original space", False, xs),
    ]
    return out


def differ(p, q):
    """(iteration, message) of the first disagreement of two traces, or None.

    What is compared after the run counts as one more iteration.
    """
    i = -1
    for (n, exact, x), (m, _, y) in zip(p, q):
        i += n.startswith("evaluations in") or n == "number of iterations"
        if n != m:
            return i, f"{n} and {m}"
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return i, f"{n}: {x} and {y}"
        if exact:
            if not np.array_equal(x, y):
                return i, f"{n}: {x} and {y}"
        elif not np.allclose(x, y, rtol=TOL, atol=TOL, equal_nan=True):
            e = np.abs(x - y)
            k = np.unravel_index(np.nanargmax(e), e.shape)
            return i, f"{n}: {x[k]} and {y[k]} at {k}"
    return None


def equivalent(c, t):
    ref = "split" if c["mode"] == "split-units" else "as given"
    first = None
    for j in range(ROUNDS):
        seed = (c["seed"] + 7919 * j) % 2**31
        p = trace(*solve(c, ref, seed))
        d = differ(p, trace(*solve(c, c["mode"], seed)))
        if j == 0:
            t.label(c["mode"] + (" agrees" if d is None else " differs"))
            t.label(f"{c['N']} iterations")
            t.nontrivial({
                "const": c["const"] != 0,
                "units": any(x != 1 for x in c["scale"]),
                "split-units": any(x != 1 for x in c["scale"]),
                "origin": any(c["shift"]),
            }.get(c["mode"], True))
            for n, _, x in p:
                if n.startswith("actions"):
                    for y in x:
                        t.label(y)
        if d is None:
            return
        # Is the run itself reproducible up to rounding?
        for eps in (1e-10, -1e-10, 3e-10, -3e-10):
            e = differ(p, trace(*solve(c, ref, seed, eps)))
            if e is not None and e[0] <= d[0]:
                t.label("not reproducible under rounding")
                return
        first = first or d[1]
    t.fail(f"{c['mode']}: {ROUNDS} of {ROUNDS} pairs of runs disagree: {first}")


PROPS = [Prop("equivalent", case, equivalent, 48, 800, shrink=False,
              cpu_limit=300)]
