"""Strategies of JSON-able case fragments and builders from them."""
import numpy as np

from . import boot

boot.import_hypothesis()
from hypothesis import strategies as st  # noqa: E402

SEED = st.integers(0, 2**31 - 1)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_subnormal=False, width=64)


def flist(lo, hi, n):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


def obj(**kw):
    return st.fixed_dictionaries(kw)


# fractions of an interval, with mass close to both ends
FRAC = st.one_of(
    fl(0.02, 0.98),
    fl(0.02, 0.98),
    st.sampled_from(
        [1e-12, 1e-8, 1e-5, 1e-3, 0.5, 1 - 1e-3, 1 - 1e-5, 1 - 1e-8]
    ),
)


@st.composite
def dim_spec(draw, bounded=None, plausible=True):
    """One coordinate: kind u(nbounded) or b(ounded), plausible range."""
    kind = (
        draw(st.sampled_from("bbu"))
        if bounded is None
        else ("b" if bounded else "u")
    )
    scale = 10.0 ** draw(st.integers(-2, 3))
    c = draw(fl(-3, 3))
    w = draw(fl(0.2, 4))
    plb, pub = scale * (c - w / 2), scale * (c + w / 2)
    d = {"k": kind, "plb": plb, "pub": pub}
    if kind == "b":
        d["lb"] = plb - scale * draw(fl(0.05, 5))
        d["ub"] = pub + scale * draw(fl(0.05, 5))
    return d


def dims(max_d=4, bounded=None, min_d=1):
    return st.integers(min_d, max_d).flatmap(
        lambda d: st.lists(dim_spec(bounded), min_size=d, max_size=d)
    )


def bounds_of(ds):
    """(lb, ub, plb, pub) arrays of shape (1, D)."""
    lb = np.array([[d.get("lb", -np.inf) for d in ds]], dtype=float)
    ub = np.array([[d.get("ub", np.inf) for d in ds]], dtype=float)
    plb = np.array([[d["plb"] for d in ds]], dtype=float)
    pub = np.array([[d["pub"] for d in ds]], dtype=float)
    return lb, ub, plb, pub


def rotation(seed, D):
    g = np.random.RandomState(seed).randn(D, D)
    q, r = np.linalg.qr(g)
    return q * np.sign(np.diag(r))


TRANSFORMS = ["logit", "probit", "norminv", "student4"]


@st.composite
def transformer_spec(draw, max_d=4, bounded=None, roto=None, min_d=1):
    ds = draw(dims(max_d, bounded, min_d))
    D = len(ds)
    use_roto = draw(st.booleans()) if roto is None else roto
    return {
        "dims": ds,
        "type": draw(st.sampled_from(TRANSFORMS)),
        "center": draw(st.booleans()) if not use_roto else True,
        "rot": draw(st.one_of(st.none(), SEED)) if use_roto else None,
        "scale": (
            draw(st.one_of(st.none(), flist(0.1, 8, D))) if use_roto else None
        ),
    }


def build_transformer(spec):
    from pyvbmc.parameter_transformer import ParameterTransformer

    lb, ub, plb, pub = bounds_of(spec["dims"])
    D = lb.shape[1]
    kw = {}
    if spec["center"]:
        kw = {"plb_orig": plb, "pub_orig": pub}
    if spec["rot"] is not None:
        kw["rotation_matrix"] = rotation(spec["rot"], D)
    if spec["scale"] is not None:
        kw["scale"] = np.array(spec["scale"])
    # rotation/scale are applied after the centring, so build in two steps:
    # the constructor centres with whatever rotation it is given.
    roto = {k: kw.pop(k) for k in ("rotation_matrix", "scale") if k in kw}
    pt = ParameterTransformer(
        D, lb, ub, transform_type=spec["type"], **kw
    )
    if "rotation_matrix" in roto:
        pt.R_mat = roto["rotation_matrix"]
    if "scale" in roto:
        pt.scale = roto["scale"]
    return pt


@st.composite
def vp_spec(draw, max_d=4, max_k=5, min_d=1, min_k=1, tr=True, roto=None):
    """Mixture parameters plus an optional transformer."""
    if tr:
        tspec = draw(transformer_spec(max_d, roto=roto, min_d=min_d))
        D = len(tspec["dims"])
    else:
        tspec = None
        D = draw(st.integers(min_d, max_d))
    K = draw(st.integers(min_k, max_k))
    return {
        "D": D,
        "K": K,
        "tr": tspec,
        "mu": draw(flist(-1.5, 1.5, D * K)),
        "sigma": draw(flist(0.05, 1.2, K)),
        "lambd": draw(flist(0.3, 2.0, D)),
        "w": draw(flist(0.02, 1.0, K)),
    }


def build_vp(s):
    from pyvbmc.variational_posterior import VariationalPosterior

    D, K = s["D"], s["K"]
    pt = build_transformer(s["tr"]) if s.get("tr") else None
    vp = VariationalPosterior(D, K, np.zeros((1, D)), pt)
    vp.mu = np.array(s["mu"], dtype=float).reshape(D, K)
    vp.sigma = np.array(s["sigma"], dtype=float).reshape(1, K)
    vp.lambd = np.array(s["lambd"], dtype=float).reshape(D, 1)
    w = np.array(s["w"], dtype=float).reshape(1, K)
    vp.w = w / w.sum()
    vp.eta = np.log(vp.w)
    return vp
