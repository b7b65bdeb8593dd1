"""C19: saved state reloads identically, resumes, is never overwritten."""
import json
import os
import subprocess
import tempfile
from pathlib import Path

import numpy as np

from pbt import boot, gen, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C19"
TECHNIQUE = "round-trip and differential property-based testing, with injected serialisation failures"
RULE = (
    "Cases: generated posteriors (all transformers, cached mode or not, any "
    "statistics) and inference objects saved under generated file names with "
    "and without overwriting, over histories of saves, loads, failing saves "
    "(an attribute that cannot be serialised, a missing directory) and "
    "truncated files; complete small runs (one to three dimensions, noisy "
    "and exact, with and without warm-up and re-whitening) reloaded at every "
    "iteration and continued with the random state restored, in the same and "
    "in a new process. Non-trivial: a load was compared with what was saved, "
    "a save was refused or failed, or a run was resumed."
)
ASSUMPTIONS = [
    "the saved target is deterministic given NumPy's global random state",
    "statistics of timing are not compared",
]
NAMES = ["a", "b", "a.pkl", "b.dat", "c.d.e", "dir/a", "no/such/dir/a"]


def vp_equal(t, a, b, what, seed):
    X = a.parameter_transformer.inverse(
        np.random.RandomState(seed).uniform(-2, 2, (6, a.D))
    )
    for of in (True, False):
        t.check(
            np.array_equal(a.pdf(X, orig_flag=of), b.pdf(X, orig_flag=of)),
            f"{what}: density differs (orig_flag={of})",
        )
    out = []
    for v in (a, b):
        np.random.seed(seed % 2**31)
        out.append(v.sample(20))
    t.check(
        np.array_equal(out[0][0], out[1][0])
        and np.array_equal(out[0][1], out[1][1]),
        f"{what}: samples differ under the same random state",
    )
    t.check(
        np.array_equal(a.get_parameters(), b.get_parameters()),
        f"{what}: parameters differ",
    )
    t.check(a.parameter_transformer == b.parameter_transformer,
            f"{what}: transformers differ")
    t.check(
        repr(sorted((a.stats or {}).items()))
        == repr(sorted((b.stats or {}).items())),
        f"{what}: statistics differ",
    )


@st.composite
def file_case(draw):
    op = st.one_of(
        gen.obj(op=st.just("save"), obj=st.integers(0, 2),
                name=st.integers(0, len(NAMES) - 1),
                over=st.sampled_from([None, False, True]),
                path=st.booleans()),
        gen.obj(op=st.just("save"), obj=st.integers(0, 2),
                name=st.integers(0, 2),
                over=st.sampled_from([None, False, True]),
                path=st.booleans()),
        gen.obj(op=st.just("load"), name=st.integers(0, len(NAMES) - 1),
                path=st.booleans()),
        gen.obj(op=st.just("failsave"), obj=st.integers(0, 2),
                name=st.integers(0, len(NAMES) - 1),
                over=st.booleans(), path=st.booleans()),
        gen.obj(op=st.just("truncate"), name=st.integers(0, 3)),
        gen.obj(op=st.just("foreign"), name=st.integers(0, 3)),
        gen.obj(op=st.just("change"), obj=st.integers(0, 2)),
    )
    return {
        "kind": draw(st.sampled_from(["vp", "vp", "vbmc"])),
        "vps": [draw(gen.vp_spec(max_d=2, max_k=3)) for _ in range(3)],
        "seed": draw(gen.SEED),
        "mode": draw(st.booleans()),
        "ops": draw(st.lists(op, min_size=1, max_size=10)),
    }


class Unserialisable:
    def __reduce_ex__(self, protocol):
        raise RuntimeError("cannot be serialised")

    def __deepcopy__(self, memo):
        return self


def listing(d):
    return {
        os.path.relpath(os.path.join(r, f), d): Path(r, f).read_bytes()
        for r, _, fs in os.walk(d) for f in fs
    }


def files(c, t):
    from pyvbmc import VBMC
    from pyvbmc.variational_posterior import VariationalPosterior

    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        os.mkdir(os.path.join(d, "dir"))
        objs = []
        for s in c["vps"]:
            vp = gen.build_vp(s)
            vp.stats = {"elbo": s["w"][0], "I_sk": np.array([s["w"]])}
            if c["mode"]:
                vp.mode()
            if c["kind"] == "vbmc":
                D = vp.D
                k = float(s["w"][0])
                v = VBMC(
                    lambda x, k=k: -k * float(np.sum(np.asarray(x) ** 2)),
                    np.zeros((1, D)),
                    plausible_lower_bounds=np.full((1, D), -k - 0.5),
                    plausible_upper_bounds=np.full((1, D), 2.0),
                    options={"display": "off", "max_iter": 7},
                )
                v.vp = vp
                for j in range(3):
                    v.function_logger(np.full((1, D), 0.1 * j))
                vp = v
            objs.append(vp)
        cls = VBMC if c["kind"] == "vbmc" else VariationalPosterior
        content = {}  # file -> object that was saved there (a copy), or None

        def final(name):
            p = Path(name)
            return str(p if p.suffix else p.with_suffix(".pkl"))

        def full(name, path):
            p = os.path.join(d, name)
            return Path(p) if path else p

        import copy

        for o in c["ops"]:
            before = listing(d)
            if o["op"] in ("save", "failsave"):
                n = NAMES[o["name"]]
                ob = objs[o["obj"]]
                target = full(n, o["path"])
                over = o["over"]
                kw = {} if over is None else {"overwrite": over}
                fail = o["op"] == "failsave"
                if fail:
                    ob = copy.deepcopy(ob)
                    ob.trouble = Unserialisable()
                missing = n.startswith("no/")
                exists = final(n) in before
                if missing:
                    t.raises(Exception if fail else OSError,
                             lambda: ob.save(target, **kw),
                             "save into a missing directory")
                elif exists and not over:
                    t.raises(Exception if fail else FileExistsError,
                             lambda: ob.save(target, **kw),
                             "save over an existing file")
                    t.label("refused")
                elif fail:
                    t.raises(Exception, lambda: ob.save(target, **kw),
                             "save of an unserialisable object")
                    t.label("failed save")
                else:
                    state = np.random.get_state()[1].copy()
                    ob.save(target, **kw)
                    t.check(
                        np.array_equal(state, np.random.get_state()[1]),
                        "saving consumed random numbers",
                    )
                    content[final(n)] = copy.deepcopy(ob)
                    before = None
                if before is not None:
                    t.nontrivial()
                    t.check(
                        listing(d) == before,
                        f"{o['op']}: files changed by a save that raised",
                    )
                else:
                    t.check(
                        set(listing(d)) == set(content),
                        f"files {sorted(listing(d))} after saving "
                        f"{sorted(content)}",
                    )
            elif o["op"] == "load":
                n = NAMES[o["name"]]
                src = full(n, o["path"])
                if final(n) not in before:
                    t.raises(OSError, lambda: cls.load(src), "missing file")
                elif content[final(n)] is None:
                    t.raises(Exception, lambda: cls.load(src), "bad file")
                    t.label("bad file")
                else:
                    t.nontrivial()
                    t.label("loaded")
                    # a copy: asking for the parameters rescales them
                    got = cls.load(src)
                    want = copy.deepcopy(content[final(n)])
                    if c["kind"] == "vbmc":
                        compare_vbmc(t, got, want)
                        got, want = got.vp, want.vp
                    vp_equal(t, got, want, "loaded", c["seed"])
                    if c["mode"] and c["kind"] == "vp":
                        t.check(np.array_equal(got.mode(), want.mode()),
                                "mode differs after loading")
                t.check(listing(d) == before, "loading changed the files")
            elif o["op"] == "truncate":
                f = final(NAMES[o["name"]])
                if f in before:
                    Path(d, f).write_bytes(before[f][: len(before[f]) // 2])
                    content[f] = None
            elif o["op"] == "foreign":
                f = final(NAMES[o["name"]])
                Path(d, f).write_bytes(b"not a pickle")
                content[f] = None
            else:
                ob = objs[o["obj"]]
                vp = ob.vp if c["kind"] == "vbmc" else ob
                vp.mu = vp.mu + 0.25
                vp.stats["elbo"] += 1


def compare_vbmc(t, got, want):
    x = np.full((1, want.D), 0.37)
    t.check(got.log_joint(x[0]) == want.log_joint(x[0]), "target differs")
    fg, fw = got.function_logger, want.function_logger
    for a in ("X", "y", "X_orig", "y_orig", "X_flag", "n_evals"):
        t.check(
            np.array_equal(getattr(fg, a), getattr(fw, a), equal_nan=True)
            if a != "X_flag" else np.array_equal(fg.X_flag, fw.X_flag),
            f"log ({a}) differs after loading",
        )
    t.check(fg.func_count == fw.func_count, "function count")
    for a in ("lower_bounds", "upper_bounds", "plausible_lower_bounds",
              "plausible_upper_bounds", "x0"):
        t.check(np.array_equal(getattr(got, a), getattr(want, a)), a)
    for k in ("max_iter", "max_fun_evals", "display"):
        t.check(got.options[k] == want.options[k], f"option {k}")
    t.raises(AttributeError,
             lambda: got.options.__setitem__("max_iter", 1),
             "options of a loaded object can be changed")


@st.composite
def run_case(draw):
    D = draw(st.integers(1, 3))
    return {
        "D": D,
        "N": draw(st.integers(2, 11)),
        "seed": draw(gen.SEED),
        "noise": draw(st.sampled_from([0, 0, 2])),
        "warmup": draw(st.sampled_from([True, True, False])),
        "bounded": draw(st.booleans()),
        "prior": draw(st.booleans()),
        "at": draw(st.lists(gen.fl(0, 0.999), min_size=3, max_size=3)),
        "extra": draw(st.integers(1, 3)),
        "proc": draw(st.booleans()),
        "corr": draw(gen.fl(-0.8, 0.8)),
        "copyrun": draw(st.booleans()),
    }


def make_vbmc(c, **kw):
    import scipy.stats as ss

    from pyvbmc import VBMC

    D, rho, noise = c["D"], c["corr"], c["noise"]

    def target(x):
        import numpy as np

        x = np.asarray(x)
        y = -0.5 * float(np.sum(x**2)) - (
            0.5 * rho * float(np.sum(x[1:] * x[:-1]))
        )
        return (y + 0.2 * np.random.randn(), 0.2) if noise == 2 else y

    o = runs.fast(
        specify_target_noise=noise == 2, max_iter=c["N"],
        warmup=c["warmup"], tol_stable_count=1000, warp_min_k=2,
        warp_every_iters=2, fun_evals_per_iter=4, warmup_check_max=False,
        stop_warmup_thresh=5.0 if c["seed"] % 2 else 0.2,
    )
    o.update(kw)
    b = {}
    if c["bounded"]:
        b = {"lower_bounds": np.full((1, D), -6.0),
             "upper_bounds": np.full((1, D), 8.0)}
    if c["prior"]:
        b["prior"] = [ss.norm(0.2, 2.0)] * D
    return VBMC(
        target, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -1.),
        plausible_upper_bounds=np.full((1, D), 1.0), options=o, **b,
    )


def trace(v, vp, res):
    """What is compared between an interrupted and a plain run."""
    ih = v.iteration_history
    out = {
        k: [None if x is None else float(x) for x in ih[k]]
        for k in ("elbo", "elbo_sd", "sKL", "r_index", "func_count", "n_eff",
                  "lcb_max")
    }
    out["warmup"] = [bool(x) for x in ih["warmup"]]
    out["action"] = [list(x) for x in ih["logging_action"]]
    fl = v.function_logger
    out["X"] = fl.X[: fl.Xn + 1].tolist()
    out["y"] = fl.y[: fl.Xn + 1].tolist()
    out["mu"] = vp.mu.tolist()
    out["w"] = vp.w.tolist()
    out["res"] = [float(res["elbo"]), float(res["elbo_sd"]),
                  int(res["func_count"]), int(res["best_iter"])]
    return out


CHILD = """
import json, sys
import numpy as np
from pyvbmc import VBMC
from pbt.checks import c19_saving as m
v = VBMC.load(sys.argv[1], iteration=json.loads(sys.argv[2]),
              new_options=json.loads(sys.argv[3]), set_random_state=True)
vp, res = v.optimize()
json.dump(m.trace(v, vp, res), open(sys.argv[4], "w"))
"""


def differ(a, b, upto=None):
    for k in a:
        x, y = a[k], b[k]
        if upto is not None and k in ("X", "y", "mu", "w", "res"):
            continue
        if upto is not None:
            x, y = x[:upto], y[:upto]
        if repr(x) != repr(y):
            i = next(
                (j for j, (p, q) in enumerate(zip(x, y))
                 if repr(p) != repr(q)), min(len(x), len(y)))
            return (
                f"{k}[{i}]: {repr(y[i:i + 1])[:80]} instead of "
                f"{repr(x[i:i + 1])[:80]} ({len(y)} vs {len(x)} entries)"
            )
    return None


def resume(c, t):
    from pyvbmc import VBMC

    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        np.random.seed(c["seed"] % 2**31)
        v = make_vbmc(c)
        f0 = os.path.join(d, "start")
        v.save(f0)
        if c["copyrun"]:
            # an object saved before running gives the same run
            w = VBMC.load(f0)
        state = np.random.get_state()
        vp, res = v.optimize()
        ref = trace(v, vp, res)
        N = len(v.iteration_history["iter"])
        t.nontrivial()
        if c["copyrun"]:
            if c["proc"]:
                np.random.seed(99)
                w = VBMC.load(f0, set_random_state=True)
            else:
                np.random.set_state(state)
            vp2, res2 = w.optimize()
            m = differ(ref, trace(w, vp2, res2))
            t.check(m is None, f"run of an object loaded before it: {m}")
        f = os.path.join(d, "run.pkl")
        v.save(f)
        blob = Path(f).read_bytes()
        # plain load: same record
        w = VBMC.load(f)
        m = differ(ref, trace(w, vp, res))
        t.check(m is None, f"loaded record: {m}")
        t.check(w.iteration == v.iteration, "iteration number")
        its = sorted({int(a * N) for a in c["at"]})
        wu = ref["warmup"]
        ends = [i for i in range(1, N) if wu[i - 1] and not wu[i]]
        its = sorted(set(its[:2] + ends))
        for i in its:
            np.random.seed(99)
            w = VBMC.load(f, iteration=i, set_random_state=True)
            t.check(w.iteration == i, "iteration after loading")
            for k in ("elbo", "vp", "func_count", "warmup"):
                t.check(len(w.iteration_history[k]) == i + 1,
                        f"{k} has entries after the loaded iteration")
            t.check(
                np.array_equal(w.vp.mu, v.iteration_history["vp"][i].mu),
                "posterior of the loaded iteration",
            )
            t.check(
                w.function_logger.func_count
                == v.iteration_history["func_count"][i],
                "log of the loaded iteration",
            )
            if i == N - 1:
                continue
            if c["proc"] and i == its[0]:
                out = os.path.join(d, "out.json")
                r = subprocess.run(
                    [boot.PY, "-c", CHILD, f, str(i), "{}", out],
                    capture_output=True, text=True, check=False,
                    timeout=600,
                )
                t.check(r.returncode == 0,
                        f"resume in a new process: {r.stderr[-300:]}")
                with open(out, encoding="utf-8") as fh:
                    got = json.load(fh)
                t.label("resumed in a new process")
            else:
                vp2, res2 = w.optimize()
                got = trace(w, vp2, res2)
            t.label("resumed" + (" at warm-up end" if i in ends else ""))
            m = differ(ref, got)
            t.check(
                m is None,
                f"resumed from iteration {i} of {N} "
                f"(warm-up ends at {ends}): {m}",
            )
        # a larger budget continues the run: the first N iterations are kept
        w = VBMC.load(f, new_options={"max_iter": c["N"] + c["extra"]},
                      set_random_state=True)
        t.check(w.options["max_iter"] == c["N"] + c["extra"], "new option")
        t.check(v.options["max_iter"] == c["N"], "option of the original")
        t.raises(AttributeError,
                 lambda: w.options.__setitem__("max_iter", 1), "frozen")
        vp2, res2 = w.optimize()
        got = trace(w, vp2, res2)
        m = differ(ref, got, upto=N)
        t.check(m is None, f"record after continuing: {m}")
        if N == c["N"]:
            t.check(
                len(got["elbo"]) == N + c["extra"],
                f"{len(got['elbo'])} iterations after raising the limit "
                f"from {N} by {c['extra']}",
            )
            np.random.seed(c["seed"] % 2**31)
            long = make_vbmc(c, max_iter=c["N"] + c["extra"])
            lvp, lres = long.optimize()
            m = differ(trace(long, lvp, lres), got)
            t.check(m is None, f"continued run vs one long run: {m}")
            t.label("continued")
        t.check(Path(f).read_bytes() == blob, "the file changed")
        for bad in (-1, N, N + 5):
            t.raises(ValueError, lambda: VBMC.load(f, iteration=bad),
                     f"load at iteration {bad} of {N}")


PROPS = [
    Prop("files", file_case, files, 700),
    Prop("resume", run_case, resume, 24, 160, shrink=False, cpu_limit=600),
]
