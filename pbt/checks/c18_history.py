"""C18: iteration history against a dictionary-of-snapshots model."""
import copy
import pickle

import dill
import numpy as np

from pbt import gen, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C18"
TECHNIQUE = "stateful property-based testing against a reference model"
RULE = (
    "Cases: histories of 1-30 operations on an IterationHistory with 1-5 "
    "keys: record one value, record several, record under an unknown key or "
    "negative iteration, mutate an object recorded earlier, read and mutate "
    "nothing, copy / pickle / dill the history and go on with the copy. "
    "Values are numbers, text, None, arrays, nested containers, posteriors "
    "and iteration histories' own rows. Non-trivial: an object was mutated "
    "after having been recorded, or an operation was rejected."
)
ASSUMPTIONS = [
    "zero-dimensional arrays may be stored as the scalar they hold",
]
KEYS = ["elbo", "vp", "r_index", "timer", "stable"]


def value():
    leaf = st.one_of(
        gen.fl(-10, 10),
        st.integers(-5, 5),
        st.booleans(),
        st.sampled_from(["a", "trim"]),
        st.none(),
    )
    return st.one_of(
        gen.obj(k=st.just("leaf"), v=leaf),
        gen.obj(k=st.just("array"), v=st.lists(gen.fl(-3, 3), max_size=4)),
        gen.obj(k=st.just("array2"), v=gen.flist(-3, 3, 4)),
        gen.obj(k=st.just("objarray"), v=gen.flist(-3, 3, 3)),
        gen.obj(k=st.just("list"), v=st.lists(leaf, max_size=3)),
        gen.obj(k=st.just("dict"), v=st.lists(leaf, max_size=3)),
        gen.obj(k=st.just("nested"), v=gen.flist(-3, 3, 3)),
        gen.obj(k=st.just("vp"), v=gen.flist(0.1, 2, 3)),
        gen.obj(k=st.just("own"), v=gen.flist(0.1, 2, 2)),
    )


class Own:
    """A user-level object with mutable content."""

    def __init__(self, v):
        self.v = list(v)
        self.a = np.array(v)


def build(s):
    k, v = s["k"], s["v"]
    if k == "leaf":
        return v
    if k == "array":
        return np.array(v, dtype=float)
    if k == "array2":
        return np.array(v).reshape(2, 2)
    if k == "objarray":
        a = np.full([3], None)
        for i, x in enumerate(v):
            a[i] = [x]
        return a
    if k == "list":
        return list(v)
    if k == "dict":
        return {str(i): x for i, x in enumerate(v)}
    if k == "nested":
        return {"a": np.array(v), "b": [list(v), {"c": np.array(v)}]}
    if k == "vp":
        from pyvbmc.variational_posterior import VariationalPosterior

        vp = VariationalPosterior(1, len(v), np.zeros((1, 1)))
        vp.sigma = np.array([v])
        vp.stats = {"elbo": v[0], "I_sk": np.array([v])}
        return vp
    return Own(v)


def mutate(o):
    """Change the content of an object in place (as much as possible)."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o:
                x.append(99)
        elif o.size:
            o += 17.5
        return o.size > 0
    if isinstance(o, list):
        for x in o:
            mutate(x)
        o.append(123)
        return True
    if isinstance(o, dict):
        for x in list(o.values()):
            mutate(x)
        o["new"] = 5
        return True
    if isinstance(o, Own):
        mutate(o.v)
        mutate(o.a)
        return True
    if hasattr(o, "sigma"):
        o.sigma *= 3
        o.mu += 2.0
        mutate(o.stats)
        o.K += 1
        return True
    return False


def fp(o):
    """Deep fingerprint of a value (type, content)."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("oa", o.shape, [fp(x) for x in o.ravel()])
        return ("a", o.dtype.kind, o.shape, o.tolist())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [fp(x) for x in o])
    if isinstance(o, dict):
        return ("d", sorted((k, repr(fp(x))) for k, x in o.items()))
    if isinstance(o, (bool, np.bool_)):
        return ("b", bool(o))
    if isinstance(o, (int, np.integer)):
        return ("i", int(o))
    if isinstance(o, (float, np.floating)):
        return ("f", float(o))
    if o is None or isinstance(o, str):
        return o
    if hasattr(o, "__dict__"):
        return (
            type(o).__name__,
            sorted(
                (k, repr(fp(x)))
                for k, x in o.__dict__.items()
                if k != "parameter_transformer"
            ),
        )
    return repr(o)


def op():
    it = st.integers(0, 6)
    key = st.integers(0, 4)
    return st.one_of(
        gen.obj(op=st.just("rec"), key=key, it=it, v=value()),
        gen.obj(op=st.just("rec"), key=key, it=it, v=value()),
        gen.obj(
            op=st.just("many"),
            it=it,
            kv=st.lists(st.tuples(key, value()), min_size=1, max_size=4),
        ),
        gen.obj(op=st.just("neg"), key=key, it=st.integers(-5, -1),
                v=value(), many=st.booleans()),
        gen.obj(op=st.just("unknown"), it=it, v=value(),
                many=st.sampled_from(["record", "many", "set"])),
        gen.obj(op=st.just("mutate"), i=st.integers(0, 30)),
        gen.obj(op=st.just("mutate"), i=st.integers(0, 30)),
        gen.obj(op=st.just("set"), key=key, v=value()),
        gen.obj(op=st.just("jump"), key=key, it=st.integers(7, 40),
                v=value()),
        gen.obj(op=st.just("copy"), how=st.sampled_from(
            ["deepcopy", "pickle", "dill"])),
    )


def case():
    return gen.obj(
        n=st.integers(1, 5), ops=st.lists(op(), min_size=1, max_size=30)
    )


def history(c, t):
    from pyvbmc.vbmc.iteration_history import IterationHistory

    n = c["n"]
    keys = KEYS[:n]
    ih = IterationHistory(list(keys))
    model = {k: None for k in keys}  # None or list of fingerprints
    objs = []

    def verify(what):
        t.check(sorted(ih.keys()) == sorted(keys), "set of keys changed")
        t.check(len(ih) == n, "number of keys")
        for k in keys:
            got, want = ih[k], model[k]
            if isinstance(want, tuple):  # assigned as a whole
                t.check(
                    fp(got) == want[1], f"{what}: whole entry {k} changed"
                )
                continue
            if want is None:
                t.check(got is None, f"{what}: {k} never recorded")
                continue
            t.check(
                len(got) == len(want),
                lambda: f"{what}: {k} has {len(got)} entries, "
                f"{len(want)} expected",
            )
            for i, w in enumerate(want):
                t.check(
                    fp(got[i]) == w,
                    lambda: f"{what}: {k}[{i}] is {fp(got[i])!r}, "
                    f"recorded {w!r}",
                )

    def rec(k, it, v):
        if model[k] is None:
            model[k] = []
        if len(model[k]) <= it:
            model[k] += [None] * (it + 1 - len(model[k]))
        model[k][it] = fp(v)

    for o in c["ops"]:
        if o["op"] in ("rec", "jump"):
            k = keys[o["key"] % n]
            if isinstance(model[k], tuple):
                continue
            v = build(o["v"])
            objs.append(v)
            rec(k, o["it"], v)
            ih.record(k, v, o["it"])
        elif o["op"] == "many":
            kv = {}
            for j, s in o["kv"]:
                k = keys[j % n]
                if not isinstance(model[k], tuple):
                    kv[k] = build(s)
            objs.extend(kv.values())
            for k, v in kv.items():
                rec(k, o["it"], v)
            ih.record_iteration(kv, o["it"])
        elif o["op"] == "neg":
            t.nontrivial()
            k = keys[o["key"] % n]
            v = build(o["v"])
            t.raises(
                ValueError,
                (lambda: ih.record_iteration({k: v}, o["it"]))
                if o["many"]
                else (lambda: ih.record(k, v, o["it"])),
                "negative iteration",
            )
        elif o["op"] == "unknown":
            t.nontrivial()
            v = build(o["v"])
            f = {
                "record": lambda: ih.record("nokey", v, o["it"]),
                "many": lambda: ih.record_iteration({"nokey": v}, o["it"]),
                "set": lambda: ih.__setitem__("nokey", v),
            }[o["many"]]
            t.raises(ValueError, f, "unknown key")
        elif o["op"] == "mutate":
            if objs and mutate(objs[o["i"] % len(objs)]):
                t.nontrivial()
                t.label("mutated")
        elif o["op"] == "set":
            k = keys[o["key"] % n]
            v = build(o["v"])
            objs.append(v)
            if v is None:
                model[k] = None
            else:
                model[k] = ("whole", fp(v))
            ih[k] = v
        elif o["op"] == "copy":
            old = ih
            if o["how"] == "deepcopy":
                ih = copy.deepcopy(old)
            elif o["how"] == "pickle" and not any(
                hasattr(x, "sigma") for x in objs
            ):
                ih = pickle.loads(pickle.dumps(old))
            else:
                ih = dill.loads(dill.dumps(old, recurse=True))
            t.check(type(ih) is type(old), "type of the copy")
            # the copy is independent of the original
            for k in keys:
                if isinstance(model[k], list):
                    for x in old[k]:
                        mutate(x)
            t.label("copied")
        str(ih)
        repr(ih)
        verify(o["op"])


@st.composite
def run_case(draw):
    D = draw(st.integers(1, 2))
    return {
        "D": D,
        "iters": draw(st.integers(1, 7)),
        "again": draw(st.booleans()),
        "seed": draw(gen.SEED),
        "bounded": draw(st.booleans()),
        "sd": draw(st.sampled_from([0, 0, 1])),
        "warmup": draw(st.booleans()),
    }


def real_run(c, t):
    """After a real (short) run all sequences have one entry per iteration."""
    from pyvbmc import VBMC

    D = c["D"]
    np.random.seed(c["seed"] % 2**31)

    def f(x):
        y = -0.5 * np.sum(np.asarray(x) ** 2)
        return (y + 0.1 * np.random.randn(), 0.1) if c["sd"] else y

    b = ({"lower_bounds": np.full((1, D), -10.0),
          "upper_bounds": np.full((1, D), 10.0)} if c["bounded"] else {})
    vbmc = VBMC(
        f, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -2.0),
        plausible_upper_bounds=np.full((1, D), 2.0),
        options=runs.fast(
            max_iter=c["iters"], min_iter=0,
            specify_target_noise=bool(c["sd"]), warmup=c["warmup"],
        ), **b,
    )
    past = {}
    ih = vbmc.iteration_history

    class Spy(type(ih)):
        """Entries of completed iterations must not change afterwards."""

        def record_iteration(self, key_value, iteration):
            super().record_iteration(key_value, iteration)
            compare(self, iteration)

    def compare(h, upto):
        for k in h.keys():
            for i in range(min(upto, len(h[k]) if h[k] is not None else 0)):
                if k in ("timer", "logging_action"):
                    continue
                w = fp_light(h[k][i])
                t.check(
                    past.setdefault((k, i), w) == w,
                    lambda k=k, i=i: f"{k} of iteration {i} changed later",
                )

    ih.__class__ = Spy
    vp, res = vbmc.optimize()
    t.nontrivial()
    compare(ih, len(ih["iter"]))
    # using and changing the returned posterior must not change the record
    vp.mode(orig_flag=False)
    vp.mu += 1.0
    vp.stats["elbo"] = 99.0
    compare(ih, len(ih["iter"]))
    if c["again"]:
        # continuing a finished run must not change the entries so far
        vbmc.is_finished = True
        vbmc.optim_state["max_fun_evals"] = 10**6
        vbmc.options.__setitem__("max_iter", c["iters"] + 1, force=True)
        vbmc.optimize()
        t.label("continued")
        compare(ih, len(ih["iter"]))
    n = len(ih["iter"])
    t.check(n >= 1, "no iteration recorded")
    t.check(list(ih["iter"]) == list(range(n)), "iteration numbers")
    for k in ("vp", "gp", "elbo", "elbo_sd", "warmup", "timer",
              "optim_state", "sKL", "func_count", "pruned", "var_ss",
              "n_eff", "Ns_gp", "r_index", "stable", "elcbo_impro",
              "function_logger", "random_state"):
        t.check(
            ih[k] is not None and len(ih[k]) == n,
            lambda k=k: f"{k} has {len(ih[k]) if ih[k] is not None else 0} "
            f"entries in a run of {n} iterations",
        )
    for i in range(n):
        vp = ih["vp"][i]
        t.check(vp.stats["elbo"] == ih["elbo"][i] or i == 0 or
                np.isclose(vp.stats["elbo"], ih["elbo"][i]),
                f"elbo of iteration {i} is not that of its posterior")
        t.check(
            int(ih["func_count"][i])
            == int(ih["function_logger"][i].func_count),
            f"function count of iteration {i}",
        )
    compare(ih, n - 1)
    vps = [id(v) for v in ih["vp"]]
    t.check(len(set(vps)) == n, "iterations share a posterior object")


def fp_light(v):
    if hasattr(v, "mu") and hasattr(v, "sigma"):
        return repr([v.mu.tolist(), v.sigma.tolist(), v.w.tolist(),
                     sorted((v.stats or {}).keys()),
                     (v.stats or {}).get("elbo")])
    if hasattr(v, "posteriors"):
        return repr([v.X.tolist(), v.y.tolist(),
                     v.get_hyperparameters(as_array=True).tolist()])
    if hasattr(v, "X_orig"):
        return repr([v.X_orig.tolist(), v.y_orig.tolist(), v.func_count])
    if isinstance(v, (int, float, bool, np.generic)) or v is None:
        return repr(v)
    if isinstance(v, np.ndarray):
        return repr(v.tolist())
    if type(v) is dict:
        return repr(sorted((k, fp_light(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return repr([fp_light(x) for x in v])
    return type(v).__name__


PROPS = [
    Prop("snapshots", case, history, 2500),
    Prop("run", run_case, real_run, 8, 60, shrink=False, cpu_limit=400),
]
