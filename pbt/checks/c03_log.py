"""C03: the evaluation log against a model, over operation histories."""
import copy
import math

import numpy as np

from pbt import gen, ref
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C03"
TECHNIQUE = "stateful property-based testing against a reference model"
RULE = (
    "Cases: histories of 1-25 operations (evaluate, externally add, failing "
    "evaluation of several kinds, rejected add, deactivate, deep-copy, "
    "finalise) over a pool of 4 points, so repeats are common; with and "
    "without a transformer, all three noise modes, initial storage of 1 to "
    "20 rows; the target may overwrite its argument. Non-trivial: the "
    "history contains a repeated point or a rejected operation."
)
ASSUMPTIONS = [
    "points coincide exactly or differ by more than rounding",
    "averages of evaluation times are not checked where an externally added "
    "point had no time",
]
VAL = gen.fl(-1e3, 1e3)
SD = st.one_of(gen.fl(0.1, 10), gen.fl(1e-4, 1e4))
BADVAL = ["raise", "nan", "inf", "-inf", "pair", "none", "vector", "complex"]
BADSD = ["sd0", "sd-1", "sdnan", "sdinf", "sdnone"]


def op(noise):
    sd = SD if noise == 2 else st.none()
    sd_add = st.one_of(st.none(), SD) if noise else st.none()
    bad = BADVAL + (BADSD if noise == 2 else [])
    bad_add = ["nan", "inf", "vector"] + (BADSD[:4] if noise else [])
    i = st.integers(0, 3)
    form = st.sampled_from(["1d", "2d"])
    return st.one_of(
        gen.obj(op=st.just("call"), i=i, y=VAL, sd=sd, form=form,
                ret=st.sampled_from(["float", "arr0", "arr1", "arr11"])),
        gen.obj(op=st.just("call"), i=i, y=VAL, sd=sd, form=form,
                ret=st.just("float")),
        gen.obj(op=st.just("add"), i=i, y=VAL, sd=sd_add, form=form,
                time=st.one_of(st.none(), gen.fl(0.001, 100))),
        gen.obj(op=st.just("bad"), i=i, kind=st.sampled_from(bad)),
        gen.obj(op=st.just("badadd"), i=i, kind=st.sampled_from(bad_add)),
        gen.obj(op=st.just("badshape"), i=i,
                kind=st.sampled_from(["two", "longer", "shorter"])),
        gen.obj(op=st.just("off"), i=i),
        gen.obj(op=st.just("copy")),
        gen.obj(op=st.just("finalize")),
    )


@st.composite
def history(draw):
    noise = draw(st.sampled_from([0, 0, 1, 2]))
    return {
        "noise": noise,
        "t": draw(st.one_of(st.none(), gen.transformer_spec(max_d=3))),
        "D": draw(st.integers(1, 3)),
        "pts": draw(st.lists(gen.flist(-2, 2, 3), min_size=4, max_size=4)),
        "cache": draw(st.sampled_from([1, 2, 3, 5, 20])),
        "mutating": draw(st.booleans()),
        "ops": draw(st.lists(op(noise), min_size=1, max_size=25)),
    }


class Boom(Exception):
    pass


class Model:
    def __init__(self):
        self.rows = []
        self.calls = 0
        self.adds = 0
        self.total = 0.0

    def find(self, i):
        for k, r in enumerate(self.rows):
            if r["i"] == i:
                return k
        return None

    def record(self, i, y, sd, time):
        k = self.find(i)
        if not math.isnan(time):
            self.total += time
        if k is None:
            self.rows.append(
                {"i": i, "y": y, "sd": sd, "n": 1, "on": True, "t": time}
            )
            return len(self.rows) - 1
        r = self.rows[k]
        if sd is None:
            r["y"] = (r["n"] * r["y"] + y) / (r["n"] + 1)
        else:
            a, b = r["sd"] ** -2, sd**-2
            r["y"] = (a * r["y"] + b * y) / (a + b)
            r["sd"] = (a + b) ** -0.5
        r["t"] = (r["n"] * r["t"] + time) / (r["n"] + 1)
        r["n"] += 1
        return k


class Ret:
    """What the target does on its next call."""

    def __init__(self, mutating):
        self.mutating = mutating
        self.next = None
        self.seen = None

    def __call__(self, x):
        self.seen = np.array(x, copy=True)
        if self.mutating:
            x *= 0.0
        kind, y, sd, noisy = self.next
        if kind == "raise":
            raise Boom("target failed")
        val = {
            "nan": np.nan, "inf": np.inf, "-inf": -np.inf,
            "pair": (1.0, 2.0, 3.0), "none": None,
            "vector": np.array([1.0, 2.0]), "complex": 1.0 + 2.0j,
            "float": y, "arr0": np.array(y), "arr1": np.array([y]),
            "arr11": np.array([[y]]),
        }.get(kind, 1.5)
        s = {
            "sd0": 0.0, "sd-1": -1.0, "sdnan": np.nan, "sdinf": np.inf,
            "sdnone": None,
        }.get(kind, sd if sd is not None else 1.0)
        return (val, s) if noisy else val


def snapshot(fl):
    d = {}
    for k, v in fl.__dict__.items():
        if isinstance(v, np.ndarray):
            d[k] = v.copy()
        elif isinstance(v, (int, float, np.number)):
            d[k] = v
    return d


def same_snapshot(t, a, b, what):
    t.check(a.keys() == b.keys(), f"{what}: attributes appeared/vanished")
    for k in a:
        same = np.array_equal(
            np.asarray(a[k]), np.asarray(b[k]), equal_nan=True
        )
        t.check(same, lambda: f"{what} changed {k}: {a[k]} -> {b[k]}")


def check_state(t, fl, m, pts, r, noise, finalized):
    n = len(m.rows)
    t.check(fl.func_count == m.calls, f"{fl.func_count} calls counted, "
            f"{m.calls} made")
    t.check(fl.cache_count == m.adds, f"{fl.cache_count} additions counted, "
            f"{m.adds} made")
    t.check(fl.Xn == n - 1, f"last entry {fl.Xn}, expected {n - 1}")
    t.check(
        abs(fl.total_fun_eval_time - m.total)
        <= 1e-9 * max(1.0, m.total) + 1e-9,
        lambda: f"total time {fl.total_fun_eval_time}, expected {m.total}",
    )
    length = {len(fl.X), len(fl.y), len(fl.X_orig), len(fl.y_orig),
              len(fl.X_flag), len(fl.n_evals), len(fl.fun_eval_time)}
    t.check(len(length) == 1, f"arrays of different lengths {length}")
    if finalized:
        t.check(length == {n}, f"finalised log has {length} rows, not {n}")
    on = np.array([x["on"] for x in m.rows] + [False] * (len(fl.X) - n))
    t.check(np.array_equal(fl.X_flag, on), "active flags wrong")
    for k, row in enumerate(m.rows):
        u = pts[row["i"]]
        t.check(np.array_equal(fl.X[k], u), lambda: f"row {k}: point "
                f"{fl.X[k].tolist()} is not {u.tolist()}")
        if r is None:
            xo, lj = u, 0.0
        else:
            xo, lj = r.inverse(u[None])[0], float(r.log_jac(u[None])[0])
        scale = np.where(
            r.bounded, r.ub[0] - r.lb[0], np.abs(xo) + np.abs(r.delta)
        ) if r is not None else 1.0
        t.check(
            np.all(np.abs(fl.X_orig[k] - xo) <= 1e-9 * scale),
            lambda: f"row {k}: original point {fl.X_orig[k].tolist()}, "
            f"expected {xo.tolist()}",
        )
        tol = 1e-9 * (1 + abs(row["y"]) + row.get("mag", 0))
        t.check(abs(fl.y_orig[k, 0] - row["y"]) <= tol,
                lambda: f"row {k}: original value {fl.y_orig[k, 0]!r}, "
                f"expected {row['y']!r}")
        t.check(abs(fl.y[k, 0] - row["y"] - lj) <= tol + 1e-7,
                lambda: f"row {k}: transformed value {fl.y[k, 0]!r}, "
                f"expected {row['y'] + lj!r}")
        t.check(fl.n_evals[k, 0] == row["n"], lambda: f"row {k}: "
                f"{fl.n_evals[k, 0]} evaluations, expected {row['n']}")
        if noise:
            t.check(abs(fl.S[k, 0] - row["sd"]) <= 1e-9 * row["sd"],
                    lambda: f"row {k}: noise {fl.S[k, 0]!r}, expected "
                    f"{row['sd']!r}")
        if not math.isnan(row["t"]):
            t.check(abs(fl.fun_eval_time[k, 0] - row["t"])
                    <= 1e-9 * (1 + row["t"]),
                    lambda: f"row {k}: mean time {fl.fun_eval_time[k, 0]}, "
                    f"expected {row['t']}")
    if not finalized:
        rest = fl.X[n:]
        t.check(np.all(np.isnan(rest)), "unused rows are not empty")
        t.check(np.all(fl.n_evals[n:] == 0), "unused rows have evaluations")


def run(c, t):
    from pyvbmc.function_logger import FunctionLogger

    noise = c["noise"]
    pt = r = None
    D = c["D"]
    if c["t"] is not None:
        pt, r = gen.build_transformer(c["t"]), ref.ref_transform(c["t"])
        D = r.D
    pts = [np.array(p[:D]) for p in c["pts"]]
    for a in range(4):
        for b in range(a):
            if np.array_equal(pts[a], pts[b]):
                t.discard()
    target = Ret(c["mutating"])
    fl = FunctionLogger(
        target, D, noise > 0, noise, cache_size=c["cache"],
        parameter_transformer=pt,
    )
    m = Model()
    finalized = False
    handed = []
    frozen = []
    for o in c["ops"]:
        kind = o["op"]
        before = snapshot(fl)
        if kind in ("call", "add"):
            u = pts[o["i"]]
            x = u.copy() if o["form"] == "1d" else u[None].copy()
            arg = x.copy()
            old = m.find(o["i"])
            if old is not None:
                t.nontrivial()
                t.label("repeat")
            old_t = fl.total_fun_eval_time
            sd = o["sd"]
            if kind == "call":
                target.next = (o["ret"], o["y"], sd, noise == 2)
                out = fl(x)
                m.calls += 1
                time = fl.total_fun_eval_time - old_t
                t.check(0 <= time < 60, f"implausible time {time}")
            else:
                time = np.nan if o["time"] is None else o["time"]
                kw = {} if o["time"] is None else {"fun_eval_time": time}
                out = fl.add(x, o["y"], sd, **kw)
                m.adds += 1
            if noise and sd is None:
                sd = 1.0
            if not noise:
                sd = None
            t.check(np.array_equal(x, arg), "the caller's point was modified")
            if kind == "call":
                xo = u if r is None else r.inverse(u[None])[0]
                sc = 1.0 if r is None else np.abs(xo) + np.where(
                    r.bounded, r.ub[0] - r.lb[0], np.abs(r.delta))
                t.check(
                    target.seen.shape == (D,)
                    and np.all(np.abs(target.seen - xo) <= 1e-9 * sc),
                    lambda: f"target saw {target.seen.tolist()}, expected "
                    f"{xo.tolist()}",
                )
            k = m.record(o["i"], o["y"], sd, time)
            m.rows[k]["mag"] = max(m.rows[k].get("mag", 0.0), abs(o["y"]))
            f_val, f_sd, idx = out
            t.check(int(idx) == k, f"returned index {idx}, expected {k}")
            t.check(np.ndim(f_val) == 0, "returned value is not a scalar")
            t.check(f_val == fl.y[k, 0], "returned value is not the logged "
                    "one")
            if sd is not None:
                t.check(f_sd is not None and f_sd > 0, "no noise returned")
            active = fl.y[: len(m.rows)][[x["on"] for x in m.rows]]
            if len(active):
                t.check(fl.y_max == np.max(active),
                        lambda: f"running maximum {fl.y_max}, expected "
                        f"{np.max(active)}")
            handed.append((f_val, float(f_val)))
            finalized = False
        elif kind == "bad":
            t.nontrivial()
            t.label("bad:" + o["kind"])
            u = pts[o["i"]]
            target.next = (o["kind"], 1.0, 1.0, noise == 2)
            err = t.raises(Exception, lambda: fl(u.copy()),
                           f"target returning {o['kind']}")
            if o["kind"] == "raise":
                t.check(isinstance(err, Boom), f"target's error became {err!r}")
            else:
                t.check(isinstance(err, (ValueError, TypeError)),
                        f"unexpected {err!r}")
            same_snapshot(t, before, snapshot(fl), "a failed evaluation")
        elif kind == "badadd":
            t.nontrivial()
            u = pts[o["i"]]
            y, sd = 1.0, 1.0
            if o["kind"].startswith("sd"):
                sd = {"sd0": 0.0, "sd-1": -1.0, "sdnan": np.nan,
                      "sdinf": np.inf}[o["kind"]]
            else:
                y = {"nan": np.nan, "inf": np.inf,
                     "vector": np.array([1.0, 2.0])}[o["kind"]]
            t.raises((ValueError, TypeError), lambda: fl.add(u.copy(), y, sd),
                     f"adding {o['kind']}")
            same_snapshot(t, before, snapshot(fl), "a rejected addition")
        elif kind == "badshape":
            t.nontrivial()
            u = pts[o["i"]]
            if o["kind"] == "two":
                x = np.stack([u, u + 1.0])
            elif o["kind"] == "longer":
                x = np.append(u, 0.5)
            else:
                x = u[:-1]
                if D == 1:
                    continue
            target.next = ("float", 1.0, 1.0, noise == 2)
            t.raises(Exception, lambda: fl(x), f"point of shape {x.shape}")
            t.raises(Exception, lambda: fl.add(x, 1.0, 1.0),
                     f"adding a point of shape {x.shape}")
            same_snapshot(t, before, snapshot(fl), "a point of wrong shape")
        elif kind == "off":
            k = m.find(o["i"])
            if k is None:
                continue
            m.rows[k]["on"] = False
            fl.X_flag[k] = False
        elif kind == "copy":
            t.label("copy")
            frozen.append((fl, before))
            new = copy.deepcopy(fl)
            same_snapshot(t, before, snapshot(new), "deep copy")
            fl = new
        elif kind == "finalize":
            t.label("finalize")
            fl.finalize()
            finalized = True
        check_state(t, fl, m, pts, r, noise, finalized)
    for v, f in handed:
        t.check(v == f, "a value returned earlier changed later")
    for f, snap in frozen:
        same_snapshot(t, snap, snapshot(f), "working on a deep copy")
    t.label("transformed" if r is not None else "plain")
    t.label(f"noise{noise}")


PROPS = [Prop("history", history, run, 4800)]
