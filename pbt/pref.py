"""Independent reference for the built-in priors."""
import numpy as np

from . import gen
from .gen import fl, st

KINDS = ["uniform", "trap", "spline", "smooth"]


@st.composite
def prior_spec(draw, max_d=4, kinds=None):
    kind = draw(st.sampled_from(kinds or KINDS))
    D = draw(st.integers(1, max_d))
    form = draw(st.sampled_from(["array", "scalar", "list", "mixed", "int"]))
    rows = []
    for _ in range(D):
        sc = 10.0 ** draw(st.integers(-3, 4))
        c = draw(fl(-5, 5))
        g = [draw(fl(0.05, 5.0)) for _ in range(3)]
        rows.append({"s": sc, "c": c, "g": g})
    return {"kind": kind, "rows": rows, "form": form}


def dim(s):
    return len(s["rows"])


def args(s):
    """List of parameter arrays of shape (D,)."""
    rows = s["rows"]
    if s["form"] == "scalar":
        rows = [rows[0]] * len(rows)
    out = []
    for r in rows:
        a = r["s"] * r["c"]
        g = [r["s"] * v for v in r["g"]]
        if s["form"] == "int":
            a = float(round(a))
            g = [float(max(1, round(v))) for v in g]
        if s["kind"] == "uniform":
            v = [a, a + g[0]]
        elif s["kind"] == "smooth":
            v = [a, a + g[0], g[1]]
        else:
            v = [a, a + g[0], a + g[0] + g[1], a + g[0] + g[1] + g[2]]
        out.append(v)
    return [np.array(col) for col in zip(*out)]


def cls(kind):
    from pyvbmc import priors as P

    return {
        "uniform": P.UniformBox,
        "trap": P.Trapezoidal,
        "spline": P.SplineTrapezoidal,
        "smooth": P.SmoothBox,
    }[kind]


def build(s):
    a = args(s)
    C = cls(s["kind"])
    D = dim(s)
    if s["form"] == "scalar":
        return C(*[float(v[0]) for v in a], D=D)
    if s["form"] == "list":
        return C(*[v.tolist() for v in a])
    if s["form"] == "int":
        return C(*[v.astype(int) for v in a])
    if s["form"] == "mixed" and D == 1:
        return C(*[float(v[0]) if i % 2 else v for i, v in enumerate(a)])
    return C(*[v.copy() for v in a])


class Marginal:
    """One coordinate's reference density."""

    def __init__(self, kind, v):
        self.kind = kind
        self.v = [float(x) for x in v]
        if kind == "uniform":
            a, b = self.v
            self.flat, self.support = (a, b), (a, b)
            self.breaks = [a, b]
            self.steep = b - a
        elif kind == "smooth":
            a, b, s = self.v
            self.flat, self.support = (a, b), (-np.inf, np.inf)
            self.breaks = [a, b]
            self.steep = s
        else:
            a, u, w, b = self.v
            self.flat, self.support = (u, w), (a, b)
            self.breaks = [a, u, w, b]
            self.steep = min(u - a, b - w)

    def logpdf(self, x):
        x = np.asarray(x, dtype=float)
        with np.errstate(divide="ignore", invalid="ignore"):
            if self.kind == "uniform":
                a, b = self.v
                return np.where(
                    (x >= a) & (x <= b), -np.log(b - a), -np.inf
                )
            if self.kind == "smooth":
                a, b, s = self.v
                z = np.where(x < a, (a - x) / s, 0.0)
                z = np.where(x > b, (x - b) / s, z)
                return -0.5 * z**2 - np.log(s * np.sqrt(2 * np.pi) + b - a)
            a, u, w, b = self.v
            # area: plateau plus half of each shoulder (both shapes)
            area = (w - u) + 0.5 * (u - a) + 0.5 * (b - w)
            h = np.where(x < u, (x - a) / (u - a), 1.0)
            h = np.where(x > w, (b - x) / (b - w), h)
            h = np.clip(h, 0.0, 1.0)
            if self.kind == "spline":
                h = h * h * (3 - 2 * h)
            return np.log(h) - np.log(area)

    def at_edge(self, x):
        """Points numerically on an end or break point."""
        x = np.asarray(x, dtype=float)
        r = np.zeros(x.shape, dtype=bool)
        for b in self.breaks:
            r |= np.abs(x - b) <= 1e-9 * (
                abs(b) + self.flat[1] - self.flat[0]
            )
        return r

    def point(self, seg, f):
        """A point of segment `seg` (0-4), on a break (5), far away (6)."""
        br = self.breaks
        w = br[-1] - br[0]
        if seg == 5:
            return br[int(f * (len(br) - 1) + 0.5)]
        if seg == 6:
            return br[0] - 20 * w * f if f < 0.5 else br[-1] + 20 * w * f
        if seg == 0:
            return br[0] - 2 * self.steep * f
        if seg >= len(br):
            return br[-1] + 2 * self.steep * f
        return br[seg - 1] + f * (br[seg] - br[seg - 1])

    def cdf(self, x):
        """By quadrature of the reference density (piecewise)."""
        from scipy.special import ndtr

        x = np.asarray(x, dtype=float)
        if self.kind == "uniform":
            a, b = self.v
            return np.clip((x - a) / (b - a), 0, 1)
        if self.kind == "smooth":
            a, b, s = self.v
            h = np.sqrt(2 * np.pi) * s
            z = h + b - a
            left = h * ndtr((np.minimum(x, a) - a) / s)
            mid = np.clip(x - a, 0, b - a)
            right = h * (ndtr((np.maximum(x, b) - b) / s) - 0.5)
            return (left + mid + right) / z
        a, u, w, b = self.v
        area = (w - u) + 0.5 * (u - a) + 0.5 * (b - w)
        l = np.clip((x - a) / (u - a), 0, 1)
        r = np.clip((b - x) / (b - w), 0, 1)
        if self.kind == "trap":
            F = lambda h: h**2 / 2
        else:
            F = lambda h: h**3 - h**4 / 2
        return (
            (u - a) * F(l)
            + np.clip(x - u, 0, w - u)
            + (b - w) * (0.5 - F(r))
        ) / area


def marginals(s):
    a = args(s)
    return [
        Marginal(s["kind"], [v[d] for v in a]) for d in range(dim(s))
    ]


def logpdf(m, X):
    """(values, slack): reference log density and numerically-at-edge."""
    v = sum(k.logpdf(X[:, d]) for d, k in enumerate(m))
    e = np.zeros(len(X), dtype=bool)
    for d, k in enumerate(m):
        e |= k.at_edge(X[:, d])
    return v, e


GL = np.polynomial.legendre.leggauss(60)


def quadrature(m):
    """Nodes (sorted) and weights over the support of one coordinate."""
    br = list(m.breaks)
    if m.kind == "smooth":
        s = m.v[2]
        br = [br[0] - 10 * s, br[0] - 3 * s] + br
        br = br + [br[-1] + 3 * s, br[-1] + 10 * s]
    xs, ws = [], []
    for a, b in zip(br[:-1], br[1:]):
        xs.append(a + (b - a) * (GL[0] + 1) / 2)
        ws.append(GL[1] * (b - a) / 2)
    return np.concatenate(xs), np.concatenate(ws)
