"""Reference formulae for the decisions VBMC takes from its record."""
import math

import numpy as np


def slope(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    xc = x - x.mean()
    return float((xc * (y - y.mean())).sum() / (xc**2).sum())


def tol_iters(o, entropy_switch):
    if entropy_switch:
        return o["tol_stable_entropy_iters"]
    return int(math.ceil(o["tol_stable_count"] / o["fun_evals_per_iter"]))


def reliability(h, i, sn2, o, n_tol):
    """(reliability index, ELCBO improvement) at iteration i."""
    if i < 2:
        return np.inf, np.nan
    tol = o["tol_sd"]
    sd = min(max(tol, math.sqrt(math.sqrt(sn2) / tol) * tol), 10 * tol)
    r = (
        abs(h["elbo"][i] - h["elbo"][i - 1]) / sd
        + h["elbo_sd"][i] / sd
        + h["sKL"][i] / o["tol_skl"]
    ) / 3
    j = max(0, i - math.ceil(0.5 * n_tol) + 1)
    x = [float(v) for v in h["func_count"][j:i + 1]]
    y = [
        h["elbo"][k] - o["elcbo_impro_weight"] * h["elbo_sd"][k]
        for k in range(j, i + 1)
    ]
    return float(r), (slope(x, y) if len(set(x)) > 1 else None)


def stability(h, i, r, imp, o, n_tol):
    """Whether iteration i ends a stable stretch (None: undecidable)."""
    if i + 1 < n_tol:
        return False
    if not r < 1:
        return None if abs(r - 1) < 1e-9 else False
    if abs(r - 1) < 1e-9:
        return None
    if imp is None or abs(imp - o["tol_improvement"]) < 1e-9:
        return None
    if not imp < o["tol_improvement"]:
        return False
    good = sum(1 for k in range(i - n_tol + 1, i) if h["r_index"][k] < 1)
    slack = math.floor(n_tol * o["tol_stable_excpt_frac"]) + 1
    return good >= n_tol - slack


def warmup_over(h, i, o, N, last_trim):
    """Whether the data gathered up to i allow warm-up to end."""
    w = math.ceil(o["tol_stable_warmup"] / o["fun_evals_per_iter"])
    thr = o["stop_warmup_thresh"] * o["fun_evals_per_iter"]
    margins = []
    stable = False
    if i > max(w, 2):
        e = [
            h["elbo"][k] - o["elcbo_impro_weight"] * h["elbo_sd"][k]
            for k in range(i + 1)
        ]
        cut = max(3, i + 1 - w)
        d = max(e[cut:]) - max(e[2:cut])
        margins.append(abs(d - thr))
        stable = d < thr
    lcb = [float(v) for v in h["lcb_max"][:i + 1]]
    if o["warmup_check_max"]:
        cut = max(1, i - w - 1)
        impro = max(0, max(lcb[cut:]) - max(lcb[:cut]))
        margins.append(abs(impro - thr))
    else:
        impro = 0
    recent = impro < thr
    top = max(lcb) - o["tol_improvement"]
    first = next(k for k, v in enumerate(lcb) if v > top)
    margins.append(min(abs(v - top) for v in lcb))
    longterm = (
        h["func_count"][i] - h["func_count"][first]
        > o["warmup_no_impro_threshold"]
    )
    return (
        ((stable and recent) or longterm) and N - last_trim >= 10
    ), min(margins)


def best(h, m, safe_sd, frac_back, rank):
    """Set of iterations that the selection rule allows."""
    if h["stable"][m]:
        return {m}
    e = [h["elbo"][k] - safe_sd * h["elbo_sd"][k] for k in range(m + 1)]
    if not rank:
        st = [k for k in range(m + 1) if h["stable"][k]]
        # how far back to go: up to the given fraction of the iterations
        start = st[-1] if st else max(0, math.ceil(m - m * frac_back))
        top = max(e[start:])
        return {k for k in range(start, m + 1) if e[k] >= top - 1e-12}
    n = m + 1
    out = set()

    def ranks(v):
        lo = [1 + sum(1 for b in v if b < a) for a in v]
        hi = [sum(1 for b in v if b <= a) for a in v]
        return lo, hi

    e_lo, e_hi = ranks([-v for v in e])
    r_lo, r_hi = ranks([float(v) for v in h["r_index"][:n]])
    for pen in (m, n):
        base = [n - k + (1 if h["stable"][k] else pen) for k in range(n)]
        lo = [base[k] + e_lo[k] + r_lo[k] for k in range(n)]
        hi = [base[k] + e_hi[k] + r_hi[k] for k in range(n)]
        out |= {k for k in range(n) if lo[k] <= min(hi)}
    return out


def _gauss_skl(vp1, vp2, N=50000):
    """Symmetrised divergence of the Gaussians with the moments of two
    posteriors in the original space, and whether it is well determined."""
    m, S = [], []
    for q in (vp1, vp2):
        x, _ = q.sample(N)
        m.append(x.mean(0))
        S.append(np.atleast_2d(np.cov(x.T)))
    d = m[0] - m[1]
    P = [np.linalg.inv(s) for s in S]
    D = len(d)
    kl = 0.25 * (np.trace(P[1] @ S[0]) + np.trace(P[0] @ S[1]) - 2 * D
                 + d @ (P[0] + P[1]) @ d)
    return kl, all(np.linalg.cond(s / np.sqrt(np.outer(np.diag(s),
                   np.diag(s)))) < 1e4 for s in S)


def recorded(t, H, o, skip_skl=(), true=None):
    """Recorded quantities against the recorded objects they describe."""
    n = len(H["iter"])
    state = np.random.get_state()
    for i in range(n):
        where = f"iteration {i} of {n}"
        gp = H["gp"][i]
        mu, s2 = gp.predict(gp.X, add_noise=False)
        lcb = np.max(mu - o["elcbo_impro_weight"] * np.sqrt(s2))
        t.close(float(H["lcb_max"][i]), float(lcb),
                f"{where}: largest lower confidence bound", rtol=1e-6,
                atol=1e-6)
        hyp = gp.get_hyperparameters(as_array=True)
        t.check(np.array_equal(np.asarray(H["gp_hyp_full"][i], float),
                               np.asarray(hyp, float)),
                f"{where}: recorded hyperparameters")
        t.check(H["Ns_gp"][i] == 0 or H["Ns_gp"][i] == len(np.atleast_2d(hyp)),
                f"{where}: {H['Ns_gp'][i]} hyperparameter samples recorded, "
                f"{len(np.atleast_2d(hyp))} used")
        F = H["function_logger"][i]
        k = int(np.sum(F.n_evals[F.X_flag]))
        if F.X_flag.sum() == len(gp.X):
            t.check(int(H["n_eff"][i]) == k,
                    f"{where}: {H['n_eff'][i]} effective evaluations "
                    f"recorded, {k} in the training set")
            if F.X_flag.sum() <= F.Xn:
                t.label("trimmed training set")
        t.check(H["sKL"][i] >= 0 and np.isfinite(H["sKL"][i]),
                f"{where}: divergence {H['sKL'][i]}")
        if i and i not in skip_skl and o["kl_gauss"]:
            want, ok = _gauss_skl(H["vp"][i], H["vp"][i - 1])
            if ok:
                t.check(abs(H["sKL"][i] - want) < 0.02 + 0.2 * want,
                        lambda: (f"{where}: divergence between consecutive "
                                 f"posteriors {H['sKL'][i]}, expected "
                                 f"{want}"))
        if true is not None:
            m, S = true
            q = H["vp"][i]
            x, _ = q.sample(200000)
            a, C = x.mean(0), np.atleast_2d(np.cov(x.T))
            P, R = np.linalg.inv(S), np.linalg.inv(C)
            d = a - m
            want = 0.25 * (np.trace(P @ C) + np.trace(R @ S) - 2 * len(m)
                           + d @ (P + R) @ d)
            t.check(abs(H["sKL_true"][i] - want) < 0.01 + 0.1 * want,
                    lambda: (f"{where}: divergence from the truth "
                             f"{H['sKL_true'][i]}, expected {want}"))
        else:
            t.check(H["sKL_true"][i] is None, f"{where}: no truth was given")
    np.random.set_state(state)
