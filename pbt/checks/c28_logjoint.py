"""C28: the inferred log joint is exactly likelihood plus prior."""
import numpy as np
from scipy import stats as ss

from pbt import gen, pref
from pbt.checks import c15_prior_composition as c15
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C28"
TECHNIQUE = "property-based testing against an independent sum of likelihood and reference prior"
RULE = (
    "Cases: a likelihood (output as float, NumPy scalar or array of size "
    "one; exact, with inferred noise, or with its own noise estimate), a "
    "prior in every accepted form (none, built-in object, frozen SciPy "
    "distribution, list of marginals, log-prior function with or without "
    "sampler, sampler only, redundant but consistent combinations), bounded "
    "or unbounded space, and points evaluated through the inference object's "
    "function log. Also invalid or conflicting specifications. Non-trivial: "
    "a prior density is involved, or a specification is rejected."
)
ASSUMPTIONS = ["points lie where the prior density is positive"]


@st.composite
def case(draw):
    form = draw(st.sampled_from(
        ["none", "own", "list", "list", "mvn", "scipy1", "log", "log",
         "log+sample", "sample", "own+log", "userprior"]))
    if form in ("own", "own+log"):
        prior = draw(pref.prior_spec(max_d=3))
    elif form == "list":
        prior = draw(st.lists(c15.marginal(), min_size=1, max_size=3))
    elif form == "scipy1":
        prior = draw(c15.scipy_uni())
    else:
        prior = {"D": draw(st.integers(1, 3)), "m": draw(gen.flist(-2, 2, 3)),
                 "s": draw(gen.fl(0.3, 3))}
    return {
        "form": form, "prior": prior,
        "noise": draw(st.sampled_from([0, 0, 1, 2, 2])),
        "ret": draw(st.sampled_from(
            ["float", "np", "arr0", "arr1", "arr11", "int"])),
        "lpret": draw(st.sampled_from(["float", "np", "arr0", "arr1"])),
        "bounded": draw(st.booleans()),
        "q": draw(st.lists(gen.flist(0.05, 0.95, 3), min_size=1,
                           max_size=4)),
        "sd": draw(st.lists(gen.fl(0.1, 5), min_size=4, max_size=4)),
        "a": draw(gen.flist(-1, 1, 3)),
        "via": draw(st.sampled_from(["call", "fun", "log_joint"])),
    }


def wrap(v, kind):
    return {
        "float": lambda: float(v),
        "int": lambda: float(v),
        "np": lambda: np.float64(v),
        "arr0": lambda: np.array(v),
        "arr1": lambda: np.array([v]),
        "arr11": lambda: np.array([[v]]),
    }[kind]()


def prior_of(c):
    """(keyword arguments, reference log prior of a point, D, box)."""
    f, p = c["form"], c["prior"]
    if f in ("own", "own+log"):
        m = pref.marginals(p)
        o = pref.build(p)
        kw = {"prior": o}
        if f == "own+log":
            kw.update(log_prior=o.log_pdf, sample_prior=o.sample)
        parts = [(k.logpdf, k.cdf, k.support) for k in m]
    elif f == "list":
        b = [c15.build_marginal(s) for s in p]
        kw = {"prior": [x[0] for x in b]}
        parts = [x[1:4] for x in b]
    elif f == "scipy1":
        d = c15.build_uni(p)
        kw = {"prior": d}
        parts = [(d.logpdf, d.cdf, d.support())]
    else:
        D = p["D"]
        mu, s = np.array(p["m"][:D]), p["s"]
        n = ss.norm

        parts = [
            (n(m, s).logpdf, n(m, s).cdf, (-np.inf, np.inf)) for m in mu
        ]

        def lp(x):
            x = np.asarray(x)
            if x.shape != (D,):
                raise ValueError(f"log prior called with shape {x.shape}")
            v = -0.5 * np.sum(((x - mu) / s) ** 2) - D * np.log(
                s * np.sqrt(2 * np.pi))
            return wrap(v, c["lpret"])

        def smp(k):
            return mu + s * np.random.randn(k, D)

        if f == "mvn":
            kw = {"prior": ss.multivariate_normal(mu, s**2 * np.eye(D))}
        elif f == "log":
            kw = {"log_prior": lp}
        elif f == "log+sample":
            kw = {"log_prior": lp, "sample_prior": smp}
        elif f == "userprior":
            from pyvbmc.priors import UserFunction

            kw = {"prior": UserFunction(lp, smp, D)}
        elif f == "sample":
            kw = {"sample_prior": smp}
            parts = [(lambda x: 0 * x,) + q[1:] for q in parts]
        else:
            kw = {}
            parts = [(lambda x: 0 * x,) + q[1:] for q in parts]
    return kw, parts, len(parts)


def joint(c, t):
    from pyvbmc import VBMC

    kw, parts, D = prior_of(c)
    # a box of central quantiles for the plausible range
    lo = np.array([c15._quantile(p[1], 0.02, *p[2]) for p in parts])
    hi = np.array([c15._quantile(p[1], 0.98, *p[2]) for p in parts])
    if not np.all(hi - lo > 1e-9 * (np.abs(lo) + np.abs(hi))):
        t.discard()
    w = hi - lo
    b = {}
    if c["bounded"]:
        b = {
            "lower_bounds": (lo - 0.2 * w)[None, :],
            "upper_bounds": (hi + 0.2 * w)[None, :],
        }
    calls = []
    a = np.array(c["a"][:D])
    sds = iter(c["sd"])

    def ll(x):
        x = np.asarray(x)
        t.check(x.shape == (D,), f"likelihood called with shape {x.shape}")
        v = float(np.sum(a * (x - lo) / w) - 3.5)
        if c["ret"] == "int":
            v = round(v)
        sd = next(sds) if c["noise"] == 2 else None
        calls.append((x.copy(), float(v), sd))
        y = wrap(v, c["ret"])
        return (y, sd) if c["noise"] == 2 else y

    opts = {"display": "off"}
    if c["noise"] == 2:
        opts["specify_target_noise"] = True
    elif c["noise"] == 1:
        opts["uncertainty_handling"] = [1]
    keep = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    vbmc = VBMC(
        ll, 0.5 * (lo + hi)[None, :],
        plausible_lower_bounds=(lo + 0.1 * w)[None, :],
        plausible_upper_bounds=(hi - 0.1 * w)[None, :],
        options=opts, **b, **kw,
    )
    for k, v in keep.items():
        if isinstance(v, list):
            t.check(
                len(v) == len(kw[k]) and all(
                    x is y for x, y in zip(v, kw[k])),
                "the user's list of marginals was changed",
            )
    t.check(not calls, "likelihood evaluated by the constructor")
    t.nontrivial(c["form"] not in ("none", "sample"))
    t.label(c["form"])
    fl_ = vbmc.function_logger
    pt = vbmc.parameter_transformer
    for i, q in enumerate(c["q"]):
        x = lo + np.array(q[:D]) * w
        if np.any(~np.isfinite([p[0](x[d]) for d, p in enumerate(parts)])):
            continue
        u = pt(x[None, :])
        if c["via"] == "call":
            before = fl_.func_count
            fv, fsd, idx = fl_(u)
            t.check(fl_.func_count == before + 1, "evaluation count")
            y = float(np.ravel(fl_.y_orig[idx])[0])
            sd = (
                float(np.ravel(fl_.S[idx])[0]) if c["noise"] == 2 else None
            )
            dup = int(np.ravel(fl_.n_evals[idx])[0]) > 1
        else:
            dup = False
            g = fl_.fun if c["via"] == "fun" else vbmc.log_joint
            r = g(x)
            if c["noise"] == 2:
                y, sd = float(np.ravel(r[0])[0]), float(np.ravel(r[1])[0])
            else:
                y, sd = float(np.ravel(r)[0]), None
        t.check(len(calls) == 1, f"likelihood called {len(calls)} times")
        xc, v, s = calls.pop()
        t.close(xc, x, "evaluated point", rtol=1e-7, atol=1e-7 * w.max())
        lp = sum(float(p[0](xc[d])) for d, p in enumerate(parts))
        if dup:
            continue
        t.close(y, v + lp, "log joint", rtol=1e-9,
                atol=1e-9 * (abs(v) + abs(lp)) + 1e-8)
        if c["noise"] == 2:
            t.check(sd == s, f"noise {sd}, likelihood reported {s}")


def bad_case():
    return gen.obj(
        kind=st.sampled_from(
            ["dim", "conflict", "conflict-sample", "callable", "number",
             "generic", "tuple", "badlog", "badsample", "discrete",
             "list-dim", "class"]),
        prior=pref.prior_spec(max_d=3),
        D=st.integers(1, 4),
        seed=gen.SEED,
    )


def bad(c, t):
    from pyvbmc import VBMC
    from pyvbmc.priors import UniformBox

    k = c["kind"]
    D = c["D"]
    own = pref.build(c["prior"])
    t.nontrivial()
    t.label(k)

    def ll(x):
        return 0.0

    def lp(x):
        return 0.0

    exc = TypeError
    if k == "dim":
        if own.D == D:
            D = own.D + 1
        kw, exc = {"prior": own}, ValueError
    elif k == "list-dim":
        kw = {"prior": [ss.norm()] * (D + 1)}
        exc = ValueError
    elif k == "conflict":
        D = own.D
        kw, exc = {"prior": own, "log_prior": lp}, ValueError
    elif k == "conflict-sample":
        D = own.D
        kw = {"prior": own, "sample_prior": lambda n: np.zeros((n, D))}
        exc = ValueError
    elif k == "callable":
        kw = {"prior": lp}
    elif k == "number":
        kw = {"prior": 1.5}
    elif k == "generic":
        kw = {"prior": ss.norm}
    elif k == "tuple":
        kw = {"prior": tuple([ss.norm()] * D)}
    elif k == "badlog":
        kw = {"log_prior": 1.5}
    elif k == "badsample":
        kw = {"log_prior": lp, "sample_prior": 3}
    elif k == "discrete":
        kw, D = {"prior": ss.poisson(3.0)}, 1
    else:
        kw = {"prior": UniformBox}

    def make():
        VBMC(
            ll, np.zeros((1, D)), plausible_lower_bounds=np.full((1, D), -1.),
            plausible_upper_bounds=np.full((1, D), 1.0),
            options={"display": "off"}, **kw,
        )

    t.raises(exc, make, k)


PROPS = [
    Prop("joint", case, joint, 2000),
    Prop("invalid", bad_case, bad, 500),
]
