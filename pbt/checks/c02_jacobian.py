"""C02: the reported log-Jacobian is that of the inverse map."""
import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C02"
RULE = (
    "Cases: transformers as in C01 (mixed bounded/unbounded coordinates, "
    "all link functions, centring, rotation, rescaling) and unconstrained "
    "points up to 1e3 in magnitude. Non-trivial: at least one bounded "
    "coordinate or a rotation/scale, and a finite reference value."
)
ASSUMPTIONS = [
    "scipy.stats log-densities of the three link distributions are the "
    "reference; determinants are also checked by central differences",
]


def case():
    return gen.obj(
        t=gen.transformer_spec(),
        u=st.lists(gen.flist(-3, 3, 4), min_size=1, max_size=3),
        big=st.sampled_from([1.0, 1.0, 1.0, 10.0, 100.0, 1000.0]),
    )


def mark(c, t):
    t.nontrivial(
        any(d["k"] == "b" for d in c["t"]["dims"])
        or c["t"]["rot"] is not None
        or c["t"]["scale"] is not None
    )
    t.label("type:" + c["t"]["type"])


def reference(c, t):
    mark(c, t)
    pt = gen.build_transformer(c["t"])
    r = ref.ref_transform(c["t"])
    u = np.array(c["u"])[:, : r.D] * c["big"]
    u0 = u.copy()
    got = pt.log_abs_det_jacobian(u)
    t.check(np.array_equal(u, u0), "input modified")
    want = r.log_jac(u)
    t.check(np.shape(got) == (len(u),), f"shape {np.shape(got)}")
    t.check(
        np.all(np.abs(got - want) <= 1e-8 + 1e-9 * np.abs(want)),
        lambda: f"log|det J| at u={u.tolist()}: got {got.tolist()}, "
        f"expected {want.tolist()}",
    )
    one = pt.log_abs_det_jacobian(u[0])
    t.check(np.ndim(one) == 0, "1-D input must give a scalar")
    t.check(
        abs(float(one) - want[0]) <= 1e-8 + 1e-9 * abs(want[0]),
        "1-D input gives another value",
    )


def differences(c, t):
    """Against the determinant of the numerically differentiated inverse."""
    pt = gen.build_transformer(c["t"])
    r = ref.ref_transform(c["t"])
    u = np.array(c["u"])[:1, : r.D]
    y = r.unroto(u)
    if np.any(np.abs(y[:, r.bounded]) > 4):
        t.discard()
    mark(c, t)
    D = r.D
    h = 1e-5
    J = np.zeros((D, D))
    # differentiate in units of the coordinate's range, for conditioning
    unit = np.where(np.isfinite(r.ub - r.lb), r.ub - r.lb, r.delta)[0]
    for i in range(D):
        e = np.zeros((1, D))
        e[0, i] = h
        J[:, i] = ((pt.inverse(u + e) - pt.inverse(u - e)) / (2 * h))[
            0
        ] / unit
    want = np.linalg.slogdet(J)[1] + np.sum(np.log(unit))
    got = float(pt.log_abs_det_jacobian(u)[0])
    t.check(
        abs(got - want) < 2e-3,
        lambda: f"log|det J|={got}, by differences {want}, u={u.tolist()}",
    )


PROPS = [
    Prop("reference", case, reference, 4000),
    Prop("differences", case, differences, 3200),
]
