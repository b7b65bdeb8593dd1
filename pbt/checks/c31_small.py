"""C31: timers, input-shape adaptation, text summaries."""
import inspect
import logging
import time as time_module

import numpy as np
from scipy import stats as ss

from pbt import gen, pref, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C31"
TECHNIQUE = "stateful property-based testing (timers), metamorphic relations over input forms, invariance of printed objects"
RULE = (
    "Cases: timer histories of 1-40 operations over 3 names with a "
    "controlled clock; points passed to the shape-adapting functions as "
    "scalar, vector, matrix, list, positionally and by keyword; every class "
    "of the package, in generated states (fresh, used, with unusual "
    "attribute values, after a short run), printed in every form. "
    "Non-trivial: a timer was stopped while running, at least two input "
    "forms compared, or an object printed."
)
ASSUMPTIONS = [
    "the timers read one of the clocks of the `time` module",
    "a zero-dimensional input may give any output holding one number",
]
NAMES = ["a", "b", "total"]


def timer_case():
    op = st.one_of(
        gen.obj(op=st.sampled_from(["start", "stop"]), n=st.integers(0, 2)),
        gen.obj(op=st.sampled_from(["start", "stop", "get"]),
                n=st.integers(0, 2)),
        gen.obj(op=st.just("wait"), dt=gen.fl(0, 100)),
        gen.obj(op=st.just("wait"), dt=gen.fl(0, 100)),
        gen.obj(op=st.sampled_from(["reset", "get", "print"]),
                n=st.integers(0, 2)),
    )
    return gen.obj(
        ops=st.lists(op, min_size=1, max_size=40),
        t0=st.sampled_from([0.0, 1e9]),
    )


def timers(c, t):
    from pyvbmc.timer import Timer
    import pyvbmc.timer.timer as mod

    now = [c["t0"]]
    clocks = ["time", "perf_counter", "monotonic", "process_time"]
    saved = {k: getattr(time_module, k) for k in clocks}
    saved_ns = {k: getattr(time_module, k + "_ns") for k in clocks}
    local = {
        k: v for k, v in vars(mod).items()
        if any(v is s for s in saved.values())
    }
    level = logging.getLogger("timer").level
    try:
        logging.getLogger("timer").setLevel(logging.CRITICAL)
        for k in clocks:
            setattr(time_module, k, lambda: now[0])
            setattr(time_module, k + "_ns", lambda: int(now[0] * 1e9))
        for k in local:
            setattr(mod, k, lambda: now[0])
        _timers(c, t, Timer, now)
    finally:
        for k in clocks:
            setattr(time_module, k, saved[k])
            setattr(time_module, k + "_ns", saved_ns[k])
        for k, v in local.items():
            setattr(mod, k, v)
        logging.getLogger("timer").setLevel(level)


def _timers(c, t, Timer, now):
    tm = Timer()
    other = Timer()
    run, dur = {}, {}
    for o in c["ops"]:
        n = NAMES[o.get("n", 0)]
        if o["op"] == "start":
            tm.start_timer(n)
            run.setdefault(n, now[0])
        elif o["op"] == "stop":
            tm.stop_timer(n)
            if n in run:
                t.nontrivial()
                dur[n] = dur.get(n, 0.0) + now[0] - run.pop(n)
        elif o["op"] == "wait":
            now[0] += o["dt"]
        elif o["op"] == "reset":
            tm.reset()
            run, dur = {}, {}
        elif o["op"] == "print":
            str(tm)
            repr(tm)
        for k in NAMES:
            g = tm.get_duration(k)
            if k not in dur:
                t.check(g is None, f"duration of {k} is {g}, never stopped")
            else:
                t.check(g is not None, f"duration of {k} lost")
                t.close(g, dur[k], f"duration of {k}", rtol=1e-6, atol=1e-5)
            t.check(other.get_duration(k) is None, "timers share state")


def shape_case():
    return gen.obj(
        vp=gen.vp_spec(max_d=3, max_k=3),
        u=st.lists(gen.flist(-2, 2, 3), min_size=1, max_size=4),
        fn=st.sampled_from(
            ["forward", "inverse", "jacobian", "pdf", "pdf_grad", "log_pdf",
             "pdf_t", "kl", "prior"]
        ),
        orig=st.booleans(),
        prior=pref.prior_spec(max_d=3),
        seed=gen.SEED,
    )


def values(r):
    if isinstance(r, tuple):
        return [np.asarray(x, dtype=float).ravel() for x in r]
    return [np.asarray(r, dtype=float).ravel()]


def shapes(c, t):
    D = c["vp"]["D"]
    U = np.array([r[:D] for r in c["u"]])
    fn = c["fn"]
    t.label(fn)
    t.nontrivial()
    if fn == "kl":
        return kl_forms(c, t, D)
    if fn == "prior":
        p = pref.build(c["prior"])
        m = pref.marginals(c["prior"])
        D = len(m)
        U = np.array([
            [m[d].support[0] + 0.4 * (1 + r[d % 3] / 3) for d in range(D)]
            for r in c["u"]
        ])
        U = np.array([[q if np.isfinite(q) else 0.0 for q in r] for r in U])
        return forms(t, lambda x: p.log_pdf(x), "x", U, D, "log_pdf",
                     prior=True)
    vp = gen.build_vp(c["vp"])
    pt = vp.parameter_transformer
    X = pt.inverse(U)
    if fn == "forward":
        forms(t, pt, "x", X, D, fn, same=True)
    elif fn == "inverse":
        forms(t, pt.inverse, "u", U, D, fn, same=True)
    elif fn == "jacobian":
        forms(t, pt.log_abs_det_jacobian, "u", U, D, fn)
    else:
        P = X if c["orig"] else U
        kw = {"orig_flag": c["orig"]}
        if fn == "pdf_grad":
            kw.update(orig_flag=False, grad_flag=True)
            P = U
        if fn == "pdf_t":
            kw.update(df=5.0)
        f = vp.log_pdf if fn == "log_pdf" else vp.pdf
        forms(t, f, "x", P, D, fn, **kw)
    return None


def forms(t, f, name, P, D, what, same=False, prior=False, **kw):
    """f at the points P in all accepted forms."""
    N = len(P)
    full = values(f(P, **kw))
    atol = (
        1e-300 if what == "pdf"
        else 1e-11 * (1 + np.abs(P).max()) + 1e-9 * (what == "pdf_grad")
    )
    if not prior:
        t.check(
            values(f(**{name: P}, **kw))[0].tolist() == full[0].tolist(),
            f"{what}: keyword and positional call differ",
        )
        r = f(P, **kw)
        r0 = r[0] if isinstance(r, tuple) else r
        t.check(
            np.shape(r0) in (
                [(N, D)] if same else [(N, 1), (N,)]
            ),
            f"{what}: shape {np.shape(r0)} for a matrix of {N} points",
        )
    for i in range(N):
        v = P[i].copy()
        alts = {
            "vector": v, "row": P[i: i + 1].copy(),
            "list": v.tolist() if not prior else v,
            "keyword": None,
        }
        if D == 1:
            alts["scalar"] = float(v[0])
            alts["0-d"] = np.array(v[0])
        if prior:
            del alts["keyword"]
            alts.pop("scalar", None)
            alts.pop("0-d", None)
        for k, a in alts.items():
            r = f(**{name: v}, **kw) if k == "keyword" else f(a, **kw)
            got = values(r)
            for j, g in enumerate(got):
                w = full[j].reshape(N, -1)[i]
                t.close(g, w, f"{what} of a {k}", rtol=1e-9, atol=atol)
            if prior:
                continue
            r0 = r[0] if isinstance(r, tuple) else r
            if k in ("vector", "keyword", "list"):
                # the same number of dimensions as the input
                t.check(
                    np.ndim(r0) <= 1 and (not same or np.shape(r0) == (D,)),
                    f"{what}: shape {np.shape(r0)} for a {k}",
                )
            if k == "row":
                t.check(
                    np.shape(r0) == ((1, D) if same else (1, 1))
                    or (not same and np.shape(r0) == (1,)),
                    f"{what}: shape {np.shape(r0)} for one row",
                )
        t.check(np.array_equal(v, P[i]), f"{what}: argument modified")


def kl_forms(c, t, D):
    from pyvbmc.stats import kl_div_mvn

    rs = np.random.RandomState(c["seed"])
    m1, m2 = rs.randn(D), rs.randn(D)
    A, B = rs.randn(D, D), rs.randn(D, D)
    S1, S2 = A @ A.T + np.eye(D), B @ B.T + np.eye(D)

    def ref(m1, S1, m2, S2):
        iS2 = np.linalg.inv(S2)
        d = m2 - m1
        return 0.5 * (
            np.trace(iS2 @ S1) + d @ iS2 @ d - D
            + np.linalg.slogdet(S2)[1] - np.linalg.slogdet(S1)[1]
        )

    want = [ref(m1, S1, m2, S2), ref(m2, S2, m1, S1)]
    calls = {
        "vectors": lambda: kl_div_mvn(m1, S1, m2, S2),
        "rows": lambda: kl_div_mvn(m1[None], S1, m2[None], S2),
        "columns": lambda: kl_div_mvn(m1[:, None], S1, m2[:, None], S2),
        "keywords": lambda: kl_div_mvn(
            mu1=m1, sigma1=S1, mu2=m2, sigma2=S2),
        "mixed": lambda: kl_div_mvn(m1, sigma1=S1, mu2=m2[None], sigma2=S2),
    }
    if D == 1:
        calls["scalars"] = lambda: kl_div_mvn(
            float(m1[0]), float(S1[0, 0]), float(m2[0]), float(S2[0, 0]))
        calls["1-d"] = lambda: kl_div_mvn(m1, S1[0], m2, S2[0])
    for k, f in calls.items():
        t.close(np.ravel(f()), want, f"Gaussian divergence of {k}",
                rtol=1e-6, atol=1e-9)


# --- printing ------------------------------------------------------------

KINDS = ["vp", "vp", "transformer", "logger", "history", "options", "timer",
         "prior", "product", "scipy", "user", "acq", "vbmc", "vbmc"]


def print_case():
    return gen.obj(
        kind=st.sampled_from(KINDS),
        vp=gen.vp_spec(max_d=3, max_k=3),
        prior=pref.prior_spec(max_d=3),
        used=st.integers(0, 3),
        stats=st.integers(0, 3),
        thresh=st.sampled_from([0, 1, 10, 1000]),
        noise=st.sampled_from([0, 1, 2]),
    )


def freeze(o, seen=None, depth=0):
    """Structural fingerprint of an object."""
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("oa", [freeze(x, seen, depth + 1) for x in o.ravel()])
        return ("a", str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, (str, int, float, bool, bytes, type(None), np.generic)):
        return repr(o)
    if id(o) in seen or depth > 12:
        return "<seen>"
    seen.add(id(o))
    if isinstance(o, dict):
        return ("d", sorted(
            (repr(k), freeze(dict.__getitem__(o, k), seen, depth + 1))
            for k in dict.keys(o)
        ), freeze(getattr(o, "__dict__", None), seen, depth + 1))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(x, seen, depth + 1) for x in o])
    if isinstance(o, (logging.Logger, type)) or inspect.isroutine(o):
        return "<skip>"
    if hasattr(o, "__dict__") and type(o).__module__.startswith(
        ("pyvbmc", "gpyreg")
    ):
        return (type(o).__name__, sorted(
            (k, repr(freeze(v, seen, depth + 1)))
            for k, v in vars(o).items()
        ))
    return type(o).__name__


def make(c, t):
    k = c["kind"]
    if k == "vp":
        vp = gen.build_vp(c["vp"])
        vp.stats = [
            None, {}, {"elbo": 1.0, "I_sk": np.ones((2, 3))},
            {"elbo": np.float64(np.nan), 3: None, "n": {"x": np.zeros(3)}},
        ][c["stats"]]
        if c["used"]:
            vp.mode() if c["used"] == 2 else vp.moments(100)
        return vp
    if k == "transformer":
        return gen.build_vp(c["vp"]).parameter_transformer
    if k == "logger":
        from pyvbmc.function_logger import FunctionLogger

        D = c["vp"]["D"]

        def f(x):
            y = -float(np.sum(x**2))
            return (y, 0.5) if c["noise"] == 2 else y

        fl = FunctionLogger(
            f, D, c["noise"] > 0, c["noise"], cache_size=4,
            parameter_transformer=gen.build_vp(
                c["vp"]).parameter_transformer,
        )
        for i in range(3 * c["used"]):
            fl(np.full((1, D), 0.1 * i))
        if c["stats"] == 3 and c["used"]:
            fl.finalize()
        return fl
    if k == "history":
        from pyvbmc.vbmc.iteration_history import IterationHistory

        ih = IterationHistory(["a", "vp"])
        for i in range(c["used"]):
            ih.record_iteration({"a": i, "vp": gen.build_vp(c["vp"])}, i)
        return ih
    if k == "timer":
        from pyvbmc.timer import Timer

        tm = Timer()
        for i in range(c["used"]):
            tm.start_timer(str(i))
            if i:
                tm.stop_timer(str(i))
        return tm
    if k == "prior":
        return pref.build(c["prior"])
    if k in ("product", "scipy", "user"):
        from pyvbmc.priors import Product, SciPy, UserFunction

        n = ss.norm(c["used"], 2.0)
        if k == "scipy":
            return SciPy(
                n if c["stats"] % 2 else ss.multivariate_normal(np.zeros(2))
            )
        if k == "user":
            return UserFunction(
                (lambda x: 0.0) if c["stats"] % 2 else None,
                (lambda n: np.zeros((n, 1))), [None, 1][c["used"] % 2])
        return Product([n, SciPy(n), Product([n])][: 1 + c["used"]])
    if k == "acq":
        import pyvbmc.acquisition_functions as A

        names = sorted(
            x for x in dir(A) if x.startswith("AcqFcn")
        )
        return getattr(A, names[c["used"] % len(names)])()
    from pyvbmc import VBMC

    D = c["vp"]["D"]

    def ll(x):
        y = -0.5 * float(np.sum(np.asarray(x) ** 2))
        return (y, 0.5) if c["noise"] == 2 else y

    kw = {}
    if c["stats"] % 2:
        kw["prior"] = [ss.norm(0, 1)] * D
    vbmc = VBMC(
        ll, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options=runs.fast(
            specify_target_noise=c["noise"] == 2, max_iter=1,
            max_fun_evals=10, min_iter=0,
        ), **kw,
    )
    if k == "options":
        return vbmc.options
    if c["used"] and D == 1 and c["thresh"] == 10:
        vbmc.optimize()
        t.label("vbmc after a run")
    elif c["used"]:
        for i in range(c["used"]):
            vbmc.function_logger(np.full((1, D), 0.1 * i))
    return vbmc


def printing(c, t):
    o = make(c, t)
    k = c["kind"]
    t.nontrivial()
    t.label(k)
    before = repr(freeze(o))
    rs = np.random.get_state()[1].copy()
    outs = [("str", str(o)), ("repr", repr(o)), ("format", f"{o}")]
    sig = inspect.signature(type(o).__repr__)
    opts = [p for p in sig.parameters if p != "self"]
    if type(o).__repr__ is not object.__repr__:
        for e in (False, True):
            for full in (False, True):
                kw = {}
                if "expand" in opts:
                    kw["expand"] = e
                if "full" in opts:
                    kw["full"] = full
                if "arr_size_thresh" in opts:
                    kw["arr_size_thresh"] = c["thresh"]
                outs.append((f"repr{kw}", o.__repr__(**kw)))
    for what, s in outs:
        t.check(isinstance(s, str) and s, f"{what} of {k} is not text")
    t.check(repr(freeze(o)) == before, f"printing a {k} changed it")
    t.check(
        np.array_equal(rs, np.random.get_state()[1]),
        "printing consumed random numbers",
    )
    t.check(str(o) == outs[0][1], f"printing a {k} twice gives two texts")


PROPS = [
    Prop("timer", timer_case, timers, 1500),
    Prop("shapes", shape_case, shapes, 2500),
    Prop("printing", print_case, printing, 800),
]
