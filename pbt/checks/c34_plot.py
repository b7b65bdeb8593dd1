"""C34: plots show the posterior, its components and its data."""
import os
import shutil
import tempfile

import numpy as np

from pbt import gen, gpref, ref, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C34"
TECHNIQUE = (
    "generated posteriors, surrogates and runs; the artists of every figure "
    "are read back and compared with reference marginals, component centres "
    "and data in original coordinates"
)
RULE = (
    "Cases: posteriors of 1-3 dimensions (bounded, rotated, scaled spaces), "
    "surrogates of up to eight points, highlighted subsets given as list, "
    "array or nothing, generated styles and titles; small runs plotted while "
    "they go on and animated afterwards. Non-trivial: at least two "
    "dimensions, or a run."
)
ASSUMPTIONS = [
    "histograms are accepted up to a deviation of probability below 1e-11",
    "the title bars of a run's figures identify their iteration",
]


def look(fig, D, colours=("blue", "orange")):
    """What a figure shows: histograms, points by colour, single crosses."""
    from matplotlib.collections import PathCollection
    from matplotlib.colors import to_rgba
    from matplotlib.patches import Polygon

    axes = np.array(fig.axes).reshape(D, D)
    out = {"hist": [], "pts": {}, "crosses": {}}
    for d in range(D):
        p = [a for a in axes[d, d].patches if isinstance(a, Polygon)]
        out["hist"].append(p[0].get_xy() if p else None)
    for r in range(1, D):
        for c in range(r):
            ax = axes[r, c]
            cols = [a for a in ax.collections
                    if isinstance(a, PathCollection)]
            pts = {k: np.zeros((0, 2)) for k in colours}
            for a in cols:
                e = a.get_edgecolors()
                f = a.get_facecolors()
                rgba = e[0] if len(e) else f[0]
                for k in colours:
                    if np.allclose(rgba, to_rgba(k)):
                        pts[k] = np.concatenate(
                            [pts[k], np.asarray(a.get_offsets())])
            out["pts"][r, c] = pts
            out["crosses"][r, c] = np.array(
                [[np.ravel(a.get_xdata())[0], np.ravel(a.get_ydata())[0]]
                 for a in ax.lines if np.size(a.get_xdata()) == 1]
            ).reshape(-1, 2)
    return out


def same_set(a, b, scale):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not len(a):
        return True
    left = list(range(len(b)))
    for x in a:
        d = [np.max(np.abs(x - b[k]) / scale) for k in left]
        j = int(np.argmin(d))
        if not d[j] < 1e-6:
            return False
        left.pop(j)
    return True


def panels(t, s, D, X, hl, mu, what, colours):
    for (r, c), pts in s["pts"].items():
        ij = [c, r]
        for name, want in ((colours[0], X[~hl]), (colours[1], X[hl])):
            sc = 1 + np.abs(X[:, ij]).max(0) if len(X) else 1
            t.check(
                same_set(pts[name], want[:, ij], sc),
                lambda: f"{what}: panel {r},{c} shows {len(pts[name])} "
                f"{name} points, expected {len(want)} (or elsewhere)",
            )
        sc = 1 + np.abs(mu[:, ij]).max(0) if len(mu) else 1
        t.check(
            same_set(s["crosses"][r, c], mu[:, ij], sc),
            lambda: f"{what}: panel {r},{c} shows centres "
            f"{s['crosses'][r, c].tolist()}, expected {mu[:, ij].tolist()}",
        )


def histogram(t, xy, x, n, where):
    """A step histogram of n samples against reference samples x."""
    t.check(xy is not None, f"{where}: no histogram")
    edges = np.unique(xy[:, 0])
    # bottom of the outline at zero; one count per bin
    h = []
    for a, b in zip(edges[:-1], edges[1:]):
        k = [i for i in range(len(xy) - 1)
             if xy[i, 0] == a and xy[i + 1, 0] == b]
        h.append(max([xy[i, 1] for i in k], default=0.0))
    h = np.array(h)
    if not h.sum():
        return
    cum = np.concatenate([[0], np.cumsum(h)]) / h.sum()
    x = np.sort(x)
    # the outermost edges may be bounds with saturated samples
    eps = 1e-9 * (1 + np.abs(edges).max())
    edges[0], edges[-1] = edges[0] - eps, edges[-1] + eps
    want = np.searchsorted(x, edges) / len(x)
    lim = np.sqrt(26.0 / 2) * np.sqrt(1 / n + 1 / len(x)) + 1e-9
    d = np.max(np.abs(cum - want))
    t.check(d < lim, lambda: f"{where}: marginal off by {d} (limit {lim})")


@st.composite
def case(draw):
    v = draw(gen.vp_spec(max_d=3, max_k=4))
    N = draw(st.integers(0, 8))
    hl = draw(st.one_of(
        st.none(),
        st.lists(st.integers(0, max(N - 1, 0)), unique=True,
                 max_size=N)))
    return {
        "vp": v, "N": N, "hl": hl if N else None,
        "as": draw(st.sampled_from(["list", "array"])),
        "data": draw(st.sampled_from([True, True, False])),
        "centres": draw(st.booleans()),
        "style": draw(st.booleans()),
        "labels": draw(st.booleans()),
        "title": draw(st.one_of(st.none(), st.text(
            alphabet="abc XYZ123()", min_size=1, max_size=12))),
        "n": draw(st.sampled_from([400, 3000])),
        "pts": draw(gen.flist(-2, 2, N * v["D"])),
    }


def plot(c, t):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from types import SimpleNamespace

    vp = gen.build_vp(c["vp"])
    D, N = vp.D, c["N"]
    gp = None
    if N:
        gp = SimpleNamespace(X=np.array(c["pts"]).reshape(N, D))
    X0 = None if gp is None else gp.X.copy()
    before = [np.copy(getattr(vp, k)) for k in
              ("mu", "sigma", "lambd", "w", "eta")]
    hl = c["hl"]
    if hl is not None:
        hl = list(hl) if c["as"] == "list" else np.array(hl, dtype=int)
    kw, col = {}, ("blue", "orange")
    if c["style"]:
        col = ("green", "purple")
        kw["plot_style"] = {
            "data": {"color": "green", "s": 9},
            "highlight_data": {"color": "purple"},
            "vp_centre": {"color": "black", "marker": "+"},
            "corner": {"labels": [f"p{d}" for d in range(D)]}
            if c["labels"] else {"bins": 15},
        }
    try:
        fig = vp.plot(
            n_samples=c["n"], title=c["title"], plot_data=c["data"],
            highlight_data=hl, plot_vp_centres=c["centres"], gp=gp, **kw)
        s = look(fig, D, col)
        title = "" if fig._suptitle is None else fig._suptitle.get_text()
        labels = [a.get_xlabel() for a in fig.axes[-D:]]
    except ValueError as e:
        if "dynamic range" in str(e):
            t.discard()
        raise
    finally:
        plt.close("all")
    t.nontrivial(D > 1)
    t.check(title == (c["title"] or ""), f"title {title!r}")
    want = [f"p{d}" if c["style"] and c["labels"] else f"$x_{d}$" for d in range(D)]
    t.check(labels == want, f"labels {labels}")
    for k, a in zip(("mu", "sigma", "lambd", "w", "eta"), before):
        t.check(np.array_equal(a, getattr(vp, k)), f"{k} changed")
    if gp is not None:
        t.check(np.array_equal(X0, gp.X), "data changed")
    rt = ref.ref_transform(c["vp"]["tr"])
    show = c["data"] and N > 0
    X = rt.inverse(X0) if show else np.zeros((0, D))
    m = np.zeros(len(X), dtype=bool)
    if show and hl is not None:
        m[np.array(hl, dtype=int)] = True
        t.label("highlighted")
    mu = rt.inverse(vp.mu.T) if c["centres"] else np.zeros((0, D))
    panels(t, s, D, X, m, mu, "plot", col)
    r = np.random.RandomState(3)
    k = r.choice(vp.K, size=20000, p=np.ravel(vp.w) / np.sum(vp.w))
    u = vp.mu[:, k].T + (
        np.ravel(vp.sigma)[k][:, None] * np.ravel(vp.lambd)
        * r.randn(20000, D))
    x = rt.inverse(u)
    for d in range(D):
        histogram(t, s["hist"][d], x[:, d], c["n"], f"coordinate {d}")


@st.composite
def run_case(draw):
    return {
        "D": draw(st.integers(1, 3)),
        "seed": draw(gen.SEED),
        "iters": draw(st.integers(1, 4)),
        "boost": draw(st.booleans()),
        "bounded": draw(st.booleans()),
        "live": draw(st.booleans()),
        "suptitle": draw(st.sampled_from(["full", "iteration", "none"])),
        "frames": draw(st.booleans()),
        "trim": draw(st.sampled_from([200.0, 2.0])),
    }


def trail(t, v, i, s, D, what, centres, hl=True):
    """One iteration's figure."""
    ih = v.iteration_history
    vp, gp = ih["vp"][i], ih["gp"][i]
    pt = vp.parameter_transformer
    X = pt.inverse(gp.X)
    new = np.zeros(len(X), dtype=bool)
    if i and hl:
        old = {tuple(x) for x in ih["gp"][i - 1].X}
        new = np.array([tuple(x) not in old for x in gp.X])
    mu = pt.inverse(vp.mu.T) if centres else np.zeros((0, D))
    panels(t, s, D, X, new, mu, what, ("blue", "orange"))


def run(c, t):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pyvbmc import VBMC
    from pyvbmc.vbmc.create_vbmc_animation import create_vbmc_animation

    D = c["D"]
    np.random.seed(c["seed"] % 2**31)
    kw = {}
    if c["bounded"]:
        kw = {"lower_bounds": np.full((1, D), -3.0),
              "upper_bounds": np.full((1, D), 4.0)}
    plt.close("all")
    v = VBMC(
        lambda x: -0.5 * float(np.sum(np.asarray(x) ** 2)), np.zeros((1, D)),
        plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options=runs.fast(
            max_iter=c["iters"], min_iter=0, min_fun_evals=0,
            do_final_boost=c["boost"], plot=c["live"],
            warmup_keep_threshold=c["trim"],
        ), **kw,
    )
    d = tempfile.mkdtemp()
    try:
        vp, res = v.optimize()
        ih = v.iteration_history
        n = len(ih["iter"])
        figs = [plt.figure(k) for k in plt.get_fignums()]
        t.nontrivial()
        t.check(len(figs) == (n + 1 if c["live"] else 0),
                f"{len(figs)} figures for {n} iterations")
        for i, f in enumerate(figs):
            title = f._suptitle.get_text()
            s = look(f, D)
            if i < n:
                a = ih["logging_action"][i]
                want = f"VBMC iteration {i}"
                want += f" ({', '.join(a)})" if a else ""
                t.check(title == want, f"title {title!r}, expected {want!r}")
                # the surrogate is recorded before the data are trimmed
                if not any("trim" in x or "end warm-up" in x for x in a):
                    trail(t, v, i, s, D, want, True)
            else:
                t.check("final" in title, f"title {title!r}")
                pt = vp.parameter_transformer
                X = pt.inverse(ih["gp"][res["best_iter"]].X)
                panels(t, s, D, X, np.zeros(len(X), bool),
                       pt.inverse(vp.mu.T), "final", ("blue", "orange"))
        plt.close("all")
        K, mu = v.vp.K, v.vp.mu.copy()
        path = os.path.join(d, "a.png" if c["frames"] else "a.gif")
        create_vbmc_animation(v, path, as_frames=c["frames"],
                              suptitle=c["suptitle"], n_samples=1500)
        t.check(v.vp.K == K and np.array_equal(mu, v.vp.mu),
                "the posterior changed")
        got = os.listdir(d)
        # the last frame is shown for longer
        t.check(len(got) == (n + 5 if c["frames"] else 1)
                and all(os.path.getsize(os.path.join(d, g)) for g in got),
                f"files {got}")
        figs = [plt.figure(k) for k in plt.get_fignums()][-(n + 1):]
        for i, f in enumerate(figs):
            title = "" if f._suptitle is None else f._suptitle.get_text()
            s = look(f, D)
            want = f"PyVBMC iteration {i}"
            a = ih["logging_action"][i] if i < n else []
            if c["suptitle"] == "none":
                t.check(title == "", f"title {title!r}")
            elif i == n:
                t.check("final" in title, f"title {title!r}")
            elif c["suptitle"] == "full" and a:
                t.check(title == want + f" ({', '.join(a)})",
                        f"title {title!r} for the action {a}")
            else:
                t.check(title == want, f"title {title!r}")
            if i < n:
                trail(t, v, i, s, D, f"frame {i}", False)
        # the same limits in every frame
        lim = [[ax.get_xlim() + (ax.get_ylim() if k // D > k % D else ())
                for k, ax in enumerate(f.axes)] for f in figs]
        for i in range(n):
            for k, (a, b) in enumerate(zip(lim[i], lim[n])):
                t.check(np.allclose(a, b, rtol=1e-9, atol=1e-12),
                        f"frame {i}, panel {k}: limits {a}, finally {b}")
        if figs:
            # ... which show the final posterior
            pt = v.vp.parameter_transformer
            r = np.random.RandomState(4)
            k = r.choice(v.vp.K, size=4000, p=np.ravel(v.vp.w))
            x = pt.inverse(v.vp.mu[:, k].T + np.ravel(v.vp.sigma)[k][:, None]
                           * np.ravel(v.vp.lambd) * r.randn(4000, D))
            for q in range(D):
                a = figs[n].axes[q * D + q].get_xlim()
                out = np.mean((x[:, q] < a[0]) | (x[:, q] > a[1]))
                t.check(out < 0.05, f"coordinate {q}: {out} outside {a}")
                for w in range(q):
                    a = figs[n].axes[q * D + w].get_ylim()
                    out = np.mean((x[:, q] < a[0]) | (x[:, q] > a[1]))
                    t.check(out < 0.05,
                            f"coordinate {q}: {out} outside {a} (vertical)")
    finally:
        plt.close("all")
        shutil.rmtree(d)


PROPS = [
    Prop("plot", case, plot, 200, 3000, cpu_limit=200),
    Prop("run", run_case, run, 32, 400, shrink=False, cpu_limit=300),
]
