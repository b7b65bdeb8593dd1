"""C08: parameter vectors round-trip; invalid ones are rejected."""
import copy

import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C08"
RULE = (
    "Cases: histories of up to 8 reads and writes of parameter vectors "
    "(log or plain scale, any subset of optimised parameters, negative "
    "means, scales over six orders of magnitude, invalid vectors) on random "
    "mixtures, against a model holding means, per-component scales and "
    "weights. Non-trivial: at least one successful write of a new vector."
)
ASSUMPTIONS = [
    "vectors are finite and of the documented length",
]


def op():
    return gen.obj(
        op=st.sampled_from(["set", "set", "set", "get", "bad", "back"]),
        raw=st.booleans(),
        mu=gen.flist(-30, 30, 20),
        ls=gen.flist(-6, 4, 5),
        ll=gen.flist(-4, 3, 4),
        eta=gen.flist(-7, 5, 5),
        far=st.sampled_from([None, None, None, "eta", "ll", "ls"]),
        where=st.integers(0, 10**6),
        bad=st.sampled_from([0.0, -1e-3, -5.0, -0.0]),
    )


def case():
    return gen.obj(
        vp=gen.vp_spec(tr=False),
        flags=st.lists(st.booleans(), min_size=4, max_size=4),
        ops=st.lists(op(), min_size=1, max_size=8),
    )


class Model:
    """mu, full scales (D, K) and weights: what the density depends on."""

    def __init__(self, vp):
        self.mu = np.array(vp.mu)
        self.scale = np.array(vp.lambd).reshape(-1, 1) * np.ravel(vp.sigma)
        self.w = np.ravel(vp.w) / np.sum(vp.w)

    def agrees(self, vp, t, what):
        D, K = self.mu.shape
        t.check(
            vp.mu.shape == (D, K)
            and vp.lambd.shape == (D, 1)
            and vp.sigma.shape == (1, K)
            and vp.w.shape == (1, K),
            f"{what}: shapes mu {vp.mu.shape}, lambd {vp.lambd.shape}, sigma "
            f"{vp.sigma.shape}, w {vp.w.shape}",
        )
        t.close(vp.mu, self.mu, f"{what}: means", 0, 0)
        t.close(
            vp.lambd * vp.sigma, self.scale, f"{what}: scales", 1e-10, 0
        )
        t.close(vp.w[0], self.w, f"{what}: weights", 1e-10, 1e-300)
        t.check(abs(vp.w.sum() - 1) < 1e-12, f"{what}: weights not normalised")

    def normalised(self, vp, t, what):
        nl = np.sqrt(np.mean(vp.lambd**2))
        t.check(abs(nl - 1) < 1e-10, f"{what}: scale vector norm {nl}")


def history(c, t):
    vp = gen.build_vp(c["vp"])
    D, K = vp.D, vp.K
    f = c["flags"]
    (
        vp.optimize_mu,
        vp.optimize_sigma,
        vp.optimize_lambd,
        vp.optimize_weights,
    ) = f
    if not any(f):
        t.discard()
    m = Model(vp)
    x = np.concatenate(
        [m.mu.T, m.mu.T + 0.7 * m.scale.T, np.zeros((1, D))], axis=0
    )
    size = f[0] * D * K + f[1] * K + f[2] * D + f[3] * K

    for j, o in enumerate(c["ops"]):
        raw, what = o["raw"], f"after op {j} ({o['op']})"
        if o["op"] in ("get", "back"):
            d0 = ref.mixture_logpdf(vp, x)
            th = vp.get_parameters(raw_flag=raw)
            t.check(th.shape == (size,), f"{what}: vector {th.shape}")
            m.agrees(vp, t, what)
            # the vector means what it says
            pos = 0
            if f[0]:
                t.close(
                    th[: D * K].reshape(K, D).T, m.mu, f"{what}: mu", 0, 0
                )
                pos = D * K
            tail = np.exp(th[pos:]) if raw else th[pos:]
            s = tail[:K] if f[1] else np.ravel(vp.sigma)
            lam = (
                tail[f[1] * K : f[1] * K + D] if f[2] else np.ravel(vp.lambd)
            )
            t.close(
                np.outer(lam, s), m.scale, f"{what}: scales read", 1e-9, 0
            )
            if f[3]:
                t.close(tail[-K:], m.w, f"{what}: weights read", 1e-9, 1e-300)
            if o["op"] == "back":
                vp.set_parameters(th, raw_flag=raw)
                m.agrees(vp, t, what + " and write-back")
            th[:] = 7.0  # the caller's vector is the caller's
            m.agrees(vp, t, what + ", changing the vector read")
            t.close(
                ref.mixture_logpdf(vp, x), d0, f"{what}: density", 1e-8, 1e-8
            )
            continue
        mu = np.array(o["mu"])[: D * K]
        ls, ll = np.array(o["ls"])[:K], np.array(o["ll"])[:D]
        eta = np.array(o["eta"])[:K]
        # extreme ratios that doubles can still represent
        if o["far"] == "eta":
            eta[o["where"] % K] += 715.0 if raw else 300.0
        elif o["far"] == "ll":
            ll[o["where"] % D] -= 25.0
        elif o["far"] == "ls":
            ls[o["where"] % K] -= 25.0
        parts = []
        if f[1]:
            parts.append(ls)
        if f[2]:
            parts.append(ll)
        if f[3]:
            parts.append(eta)
        tail = np.concatenate(parts) if parts else np.zeros(0)
        if not raw:
            tail = np.exp(tail)
        if o["op"] == "bad":
            if not tail.size:
                continue
            tail[o["where"] % tail.size] = o["bad"]
            th = np.concatenate([mu if f[0] else [], tail])
            old = copy.deepcopy(vp.__dict__)
            e = t.raises(
                ValueError,
                lambda: vp.set_parameters(th, raw_flag=False),
                f"{what}: non-positive value {o['bad']} at "
                f"{o['where'] % tail.size} of {tail.tolist()}",
            ) if not raw else None
            if e is not None:
                t.label("rejected")
                t.check(
                    all(
                        np.array_equal(old[k], vp.__dict__[k])
                        for k in ("mu", "sigma", "lambd", "w")
                    ),
                    f"{what}: rejected vector changed the posterior",
                )
            continue
        th = np.concatenate([mu if f[0] else [], tail])
        th0 = th.copy()
        vp.set_parameters(th, raw_flag=raw)
        t.check(np.array_equal(th, th0), f"{what}: argument modified")
        t.nontrivial()
        t.label("write")
        if f[0]:
            m.mu = mu.reshape(K, D).T
        # scales not in the vector keep the value they had
        if f[1] and f[2]:
            m.scale = np.outer(np.exp(ll), np.exp(ls))
        elif f[1]:
            lam = m.scale[:, :1] / np.sqrt(np.mean(m.scale[:, 0] ** 2))
            # direction of the scale vector is kept; its norm is whatever the
            # posterior stored, so compare up to the common factor
            got = vp.lambd * vp.sigma
            t.close(
                got[:, 0] / np.sqrt(np.mean(got[:, 0] ** 2)),
                lam[:, 0],
                f"{what}: lambda direction",
                1e-9,
                0,
            )
            t.close(
                np.log(vp.sigma[0]) - np.log(vp.sigma[0, 0]),
                ls - ls[0],
                f"{what}: relative sigma",
                1e-9,
                1e-9,
            )
            m.scale = got
        elif f[2]:
            got = vp.lambd * vp.sigma
            t.close(
                np.log(vp.lambd[:, 0]) - np.log(vp.lambd[0, 0]),
                ll - ll[0],
                f"{what}: relative lambda",
                1e-9,
                1e-9,
            )
            m.scale = got
        if f[3]:
            e = np.exp(eta - eta.max())
            m.w = e / e.sum()
            ee = np.exp(np.ravel(vp.eta) - np.max(vp.eta))
            t.close(
                ee / ee.sum(),
                m.w,
                f"{what}: eta is not the softmax parameter of the weights",
                1e-9,
                1e-300,
            )
        th[:] = 3.25
        m.agrees(vp, t, what)
        m.normalised(vp, t, what)


# -- soft bounds -----------------------------------------------------------


def b_case():
    return gen.obj(
        vp=gen.vp_spec(tr=False),
        flags=st.lists(st.booleans(), min_size=4, max_size=4),
        seed=gen.SEED,
        n=st.integers(2, 12),
        calls=st.integers(1, 3),
        K=st.one_of(st.none(), st.integers(1, 6)),
        tw=st.sampled_from([0.0, 1e-3, 0.02, 0.3]),
        tl=st.sampled_from([1e-6, 1e-3]),
    )


def soft_bounds(c, t):
    """Soft bounds cover all training inputs seen so far, in vector order."""
    vp = gen.build_vp(c["vp"])
    D = vp.D
    f = c["flags"]
    if not any(f):
        t.discard()
    (
        vp.optimize_mu,
        vp.optimize_sigma,
        vp.optimize_lambd,
        vp.optimize_weights,
    ) = f
    K = c["K"] or vp.K
    opt = {
        "tol_length": c["tl"],
        "tol_weight": c["tw"],
        "tol_con_loss": 0.01,
        "weight_penalty": 0.1,
    }
    rs = np.random.RandomState(c["seed"])
    lo, hi = np.full(D, np.inf), np.full(D, -np.inf)
    slo, shi = lo.copy(), hi.copy()
    t.nontrivial()
    for _ in range(c["calls"]):
        X = rs.randn(c["n"], D) * np.exp(rs.randn(D)) + rs.randn(D)
        b = vp.get_bounds(X, opt, c["K"])
        lo, hi = np.minimum(lo, X.min(0)), np.maximum(hi, X.max(0))
        rng = np.log(X.max(0) - X.min(0))
        slo = np.minimum(slo, rng + np.log(c["tl"]))
        shi = np.maximum(shi, rng)
        wl, wu = [], []
        if f[0]:
            wl.append(np.tile(lo, K))
            wu.append(np.tile(hi, K))
        if f[1] or f[2]:
            wl.append(np.tile(slo, K))
            wu.append(np.tile(shi, K))
        if f[3]:
            wl.append(np.full(K, np.log(0.5 * c["tw"])))
            wu.append(np.zeros(K))
        t.close(b["lb"], np.concatenate(wl), "soft lower bounds", 1e-12)
        t.close(b["ub"], np.concatenate(wu), "soft upper bounds", 1e-12)
        if f[3]:
            t.close(
                b["weight_threshold"],
                max(1 / (4 * K), c["tw"]),
                "weight threshold",
            )


PROPS = [
    Prop("history", case, history, 6000),
    Prop("soft-bounds", b_case, soft_bounds, 1500),
]
