"""C35: an interrupted run keeps its record, saves, reloads and resumes."""
import os
import tempfile

import numpy as np

from pbt import gen, runs
from pbt.checks import c19_saving
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C35"
TECHNIQUE = "fault-injection property-based testing, differential against the uninterrupted run"
RULE = (
    "Cases: small generated runs (one to three dimensions, exact and noisy, "
    "bounded and not, with and without warm-up, re-whitening, the undo of "
    "it, and a prior) in which an exception of a generated type is raised in "
    "the k-th evaluation of the target, or before or after the k-th call of "
    "a generated step of the algorithm, one to three times; each time the "
    "run is resumed on the same object or from a file, with or without the "
    "recorded random state, and compared with the same run left alone. "
    "Non-trivial: a run was really interrupted and resumed."
)
ASSUMPTIONS = [
    "the interruptions of steps other than the target are injected by "
    "replacing names of the package's modules; a name that no longer exists "
    "is not interrupted",
]


class Boom(Exception):
    pass


class Base(BaseException):
    pass


KINDS = {"error": Boom, "value": ValueError, "interrupt": KeyboardInterrupt,
         "base": Base, "arithmetic": FloatingPointError,
         "linalg": np.linalg.LinAlgError, "stop": StopIteration,
         "key": KeyError}
STEPS = [
    "active_sample", "train_gp", "optimize_vp", "warp_input",
    "warp_gp_and_vp", "reupdate_gp", "VBMC._check_termination_conditions",
    "VBMC._check_warmup_end_conditions", "VBMC._setup_vbmc_after_warmup",
    "VBMC.determine_best_vp", "VBMC.final_boost",
    "IterationHistory.record_iteration", "IterationHistory.record",
]
# calls: evaluations that succeeded; fail: the evaluation to fail
CONTROL = {"calls": 0, "at": None, "exc": None, "last": None}


def tick():
    if CONTROL["at"] is not None and CONTROL["calls"] >= CONTROL["at"]:
        CONTROL["at"] = None
        raise CONTROL["exc"]
    CONTROL["calls"] += 1


@st.composite
def case(draw):
    D = draw(st.integers(1, 3))
    cut = gen.obj(
        site=st.sampled_from(["target"] * 4 + STEPS),
        at=gen.fl(0, 0.999), nth=st.integers(0, 6),
        after=st.booleans(), exc=st.sampled_from(sorted(KINDS)),
        how=st.sampled_from(["again", "load", "again", "load", "both"]),
        state=st.sampled_from([True, True, True, False]),
    )
    return {
        "D": D,
        "N": draw(st.integers(2, 8)),
        "seed": draw(gen.SEED),
        "noise": draw(st.sampled_from([0, 0, 2])),
        "warmup": draw(st.sampled_from([True, True, False])),
        "bounded": draw(st.booleans()),
        "prior": draw(st.booleans()),
        "corr": draw(gen.fl(-0.8, 0.8)),
        "undo": draw(st.booleans()),
        "given": draw(st.sampled_from([1, 1, 2, 12])),
        "design": draw(st.sampled_from(["plausible", "narrow"])),
        "cuts": draw(st.lists(cut, min_size=1, max_size=3)),
    }


def make(c):
    import scipy.stats as ss

    from pyvbmc import VBMC

    D, rho, noise = c["D"], c["corr"], c["noise"]

    def target(x):
        import numpy as np

        from pbt.checks import c35_interrupt as m

        m.tick()
        x = np.asarray(x)
        y = -0.5 * float(np.sum(x**2)) - (
            0.5 * rho * float(np.sum(x[1:] * x[:-1]))
        )
        return (y + 0.2 * np.random.randn(), 0.2) if noise == 2 else y

    o = runs.fast(
        specify_target_noise=noise == 2, max_iter=c["N"],
        warmup=c["warmup"], tol_stable_count=1000, warp_min_k=2,
        warp_every_iters=2, fun_evals_per_iter=4, warmup_check_max=False,
        stop_warmup_thresh=5.0 if c["seed"] % 2 else 0.2,
        warp_undo_check=c["undo"], init_design=c["design"],
        min_iter=0, min_fun_evals=0,
    )
    b = {}
    if c["bounded"]:
        b = {"lower_bounds": np.full((1, D), -6.0),
             "upper_bounds": np.full((1, D), 8.0)}
    if c["prior"]:
        b["prior"] = [ss.norm(0.2, 2.0)] * D
    x0 = np.linspace(-0.9, 0.8, c["given"])[:, None] * np.ones((1, D))
    if c["given"] == 1:
        x0 = np.zeros((1, D))
    return VBMC(
        target, x0, plausible_lower_bounds=np.full((1, D), -1.),
        plausible_upper_bounds=np.full((1, D), 1.0), options=o, **b,
    )


class Cut:
    """Raises before or after the n-th call of a step."""

    def __init__(self, site, nth, after, exc):
        import pyvbmc.vbmc.vbmc as m
        from pyvbmc import VBMC
        from pyvbmc.vbmc.iteration_history import IterationHistory

        owner, name = m, site
        if "." in site:
            cls, name = site.split(".")
            owner = {"VBMC": VBMC, "IterationHistory": IterationHistory}[cls]
        self.owner, self.name = owner, name
        self.old = getattr(owner, name, None)
        self.nth, self.after, self.exc = nth, after, exc
        self.fired = False

    def __enter__(self):
        if self.old is None:
            return self
        me = self

        def step(*a, **k):
            n, me.nth = me.nth, me.nth - 1
            if n == 0 and not me.after:
                me.fired = True
                raise me.exc
            out = me.old(*a, **k)
            if n == 0:
                me.fired = True
                raise me.exc
            return out

        setattr(self.owner, self.name, step)
        return self

    def __exit__(self, *a):
        if self.old is not None:
            setattr(self.owner, self.name, self.old)
        return False


def complete(v):
    """Number of complete iterations according to the record."""
    r = v.iteration_history["random_state"]
    return 0 if r is None else len(r)


def record(v, n):
    ih = v.iteration_history
    out = {}
    if n == 0:
        return out
    for k in ("iter", "elbo", "elbo_sd", "sKL", "r_index", "func_count",
              "n_eff", "lcb_max", "warmup", "stable", "logging_action",
              "Ns_gp", "pruned"):
        out[k] = [repr(x) for x in ih[k][:n]]
    out["mu"] = [x.mu.tolist() for x in ih["vp"][:n]]
    out["w"] = [x.w.tolist() for x in ih["vp"][:n]]
    out["X"] = [x.X.tolist() for x in ih["gp"][:n]]
    out["log"] = [
        (x.func_count, x.X_flag.tolist(), x.X_orig[: x.Xn + 1].tolist(),
         x.y_orig[: x.Xn + 1].tolist())
        for x in ih["function_logger"][:n]
    ]
    out["state"] = [x[1].tolist() for x in ih["random_state"][:n]]
    return out


def diff(a, b):
    if set(a) != set(b):
        return f"{sorted(set(a) ^ set(b))}"
    for k in a:
        if a[k] != b[k]:
            i = next((j for j, (p, q) in enumerate(zip(a[k], b[k]))
                      if p != q), min(len(a[k]), len(b[k])))
            return (f"{k}[{i}]: {str(b[k][i:i + 1])[:90]} instead of "
                    f"{str(a[k][i:i + 1])[:90]}")
    return None


def sound(t, v, what):
    """The record of a finished run has no gap."""
    ih = v.iteration_history
    n = len(ih["iter"])
    t.check(list(ih["iter"]) == list(range(n)),
            f"{what}: iterations {list(ih['iter'])}")
    t.check(v.iteration == n - 1, f"{what}: iteration {v.iteration} of {n}")
    for k in ("elbo", "elbo_sd", "vp", "gp", "r_index", "stable", "warmup",
              "func_count", "function_logger", "optim_state",
              "random_state", "logging_action", "sKL", "lcb_max"):
        t.check(
            len(ih[k]) == n and not any(x is None for x in ih[k]),
            f"{what}: {k} has {len(ih[k])} entries for {n} iterations",
        )
    fc = list(ih["func_count"])
    t.check(all(p <= q for p, q in zip(fc, fc[1:])), f"{what}: counts {fc}")
    fl = v.function_logger
    X = fl.parameter_transformer.inverse(fl.X[: fl.Xn + 1])
    t.check(
        bool(np.allclose(X, fl.X_orig[: fl.Xn + 1], atol=1e-6)),
        f"{what}: logged points in the two spaces do not agree",
    )
    t.check(fc[-1] == fl.func_count, f"{what}: final count")
    t.check(
        v.optim_state["iter"] == n - 1, f"{what}: iteration of the state")


def interrupted(c, t):
    from pyvbmc import VBMC

    CONTROL.update(calls=0, at=None)
    np.random.seed(c["seed"] % 2**31)
    v = make(c)
    count = {x["site"]: Cut(x["site"], 10**9, False, None)
             for x in c["cuts"] if x["site"] != "target"}
    for x in count.values():
        x.__enter__()
    try:
        vp, res = v.optimize()
    finally:
        for x in count.values():
            x.__exit__()
    count = {k: 10**9 - x.nth for k, x in count.items()}
    total = CONTROL["calls"]
    ref = c19_saving.trace(v, vp, res)
    N = len(v.iteration_history["iter"])
    full = record(v, N)
    refv = v

    np.random.seed(c["seed"] % 2**31)
    v = make(c)
    exact = True  # still on the path of the uninterrupted run
    done = False
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        for j, cut in enumerate(c["cuts"]):
            exc = KINDS[cut["exc"]]("stop here")
            CONTROL.update(calls=0, at=None, exc=exc)
            before = record(v, complete(v))
            base = v.function_logger.func_count
            if v.iteration + 1 > complete(v):
                # what is discarded when it resumes
                n = complete(v)
                base = (v.iteration_history["func_count"][n - 1] if n else 0)
            got = None
            if cut["site"] == "target":
                left = max(1, total - base)
                CONTROL["at"] = int(cut["at"] * left)
                ctx = None
            else:
                left = count[cut["site"]] * (1 - complete(v) / N)
                ctx = Cut(cut["site"], int(cut["at"] * left),
                          cut["after"], exc)
                ctx.__enter__()
            try:
                vp, res = v.optimize()
            except BaseException as e:
                if e is not exc:
                    raise
                got = e
            finally:
                if ctx is not None:
                    ctx.__exit__()
                fired = CONTROL["at"] is None if ctx is None else ctx.fired
                CONTROL["at"] = None
            t.check((got is not None) == fired,
                    f"exception in {cut['site']} was swallowed")
            if got is None:
                done = True
                break
            n = complete(v)
            t.label(cut["site"])
            t.label(f"{min(n, 3)} complete")
            t.nontrivial()
            now = record(v, n)
            if exact:
                want = {k: x[:n] for k, x in full.items()} if n else {}
                m = diff(want, now)
                t.check(m is None, f"record after an interruption: {m}")
            if before:
                m = diff(before, {k: x[: len(before["iter"])]
                                  for k, x in now.items()})
                t.check(m is None, f"earlier record: {m}")
            if ctx is None:
                fl = v.function_logger
                t.check(
                    fl.func_count == base + CONTROL["calls"],
                    f"{fl.func_count} evaluations logged, {base} + "
                    f"{CONTROL['calls']} returned a value",
                )
                if n:
                    r = v.determine_best_vp()
                    if exact:
                        q = refv.determine_best_vp(max_idx=n - 1)
                        t.check(
                            int(r[3]) == int(q[3]) and float(r[1])
                            == float(q[1]),
                            f"best of the first {n} iterations: {r[3]}, "
                            f"{r[1]} instead of {q[3]}, {q[1]}",
                        )
            if n == c["N"] or (v.is_finished and v.iteration == n - 1):
                t.label("at the end")  # in the final steps
                f = os.path.join(d, f"cut{j}.pkl")
                v.save(f)
                w = VBMC.load(f)
                m = diff(now, record(w, complete(w)))
                t.check(m is None, f"loaded after the last iteration: {m}")
                return
            if cut["how"] in ("load", "both"):
                f = os.path.join(d, f"cut{j}.pkl")
                v.save(f)
                w = VBMC.load(f, set_random_state=cut["state"])
                t.check(w.iteration == n - 1,
                        f"iteration {w.iteration} after loading, {n} complete")
                m = diff(now, record(w, complete(w)))
                t.check(m is None, f"record after loading: {m}")
                t.raises(ValueError, lambda: VBMC.load(f, iteration=n),
                         "loading an iteration that was not completed")
                if n:
                    i = int(cut["at"] * n)
                    u = VBMC.load(f, iteration=i)
                    m = diff({k: x[: i + 1] for k, x in now.items()},
                             record(u, complete(u)))
                    t.check(m is None and u.iteration == i,
                            f"loaded at iteration {i}: {m}")
                if cut["how"] == "load":
                    v = w
                t.label("loaded")
            if cut["state"]:
                s = v.iteration_history["random_state"]
                np.random.set_state(v.random_state if s is None else s[-1])
            else:
                np.random.seed(cut["nth"] + 5)
                exact = False
        CONTROL.update(calls=0, at=None)
        if not done:
            vp, res = v.optimize()
        sound(t, v, "resumed run")
        t.check(len(v.iteration_history["iter"]) <= c["N"],
                "more iterations than max_iter")
        t.check(
            vp.stats["elbo"] == res["elbo"]
            and res["func_count"] == v.function_logger.func_count
            and res["iterations"] == v.iteration, "result of a resumed run")
        if exact:
            m = c19_saving.differ(ref, c19_saving.trace(v, vp, res))
            t.check(m is None, f"resumed and plain run: {m}")
            t.label("compared")


PROPS = [Prop("interrupted", case, interrupted, 32, 500, shrink=False,
              cpu_limit=300)]
