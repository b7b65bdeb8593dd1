"""C33: the displayed and filed log reports the run as it was recorded."""
import logging
import os
import re
import shutil
import tempfile

import numpy as np

from pbt import gen, runs
from pbt.core import Prop
from pbt.gen import st

PROPERTY = "C33"
TECHNIQUE = (
    "stateful property testing: generated sequences of constructions and "
    "runs of several inferences with generated display and log file "
    "settings; every line is parsed and compared with the record, every "
    "file with a model of its content"
)
RULE = (
    "Cases: one to three inferences (exact, noisy or with given values) "
    "constructed and run in generated orders, some continued, with generated "
    "display levels, log files (none, own or shared), file levels and modes, "
    "and header settings. Non-trivial: iteration lines were compared or at "
    "least one log file was written."
)
ASSUMPTIONS = [
    "a log file receives at most what the display level lets through",
    "numbers are compared to the printed precision",
]
LEVELS = {"off": 30, "notify": 30, "final": 30, "iter": 20, "full": 10}


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    objs = [
        {
            "display": draw(st.sampled_from(
                ["iter", "iter", "full", "off", "notify", "final"])),
            "file": draw(st.sampled_from([None, 0, 0, 1])),
            "level": draw(st.sampled_from(
                ["iter", "iter", "full", "off", "notify", "final", 10, 20,
                 30, 40])),
            "mode": draw(st.sampled_from(["a", "w", "w+"])),
            "kind": draw(st.sampled_from(["exact", "noisy", "repeat",
                                          "given"])),
            "boost": draw(st.booleans()),
            "header": draw(st.sampled_from([None, True, False])),
            "iters": draw(st.sampled_from([1, 2, 3, 3, 4, 5])),
            "switch": draw(st.sampled_from([False, False, True])),
            "warmup": draw(st.sampled_from([True, True, False])),
            "evals": draw(st.sampled_from([None, 21, 28])),
            "force": draw(st.sampled_from([0.8, 0.4])),
            "back": draw(st.sampled_from([0.25, 1.0])),
            "opts": draw(st.sampled_from([0, 0, 2, 5])),
            "D": draw(st.integers(1, 2)),
        }
        for _ in range(n)
    ]
    runs_ = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
    ops, made = [], set()
    late = draw(st.booleans())
    if not late:
        ops = [["new", i] for i in range(n)]
        made = set(range(n))
    for i in runs_:
        if i not in made:
            ops.append(["new", i])
            made.add(i)
        ops.append(["run", i])
    return {"objs": objs, "ops": ops, "seed": draw(gen.SEED)}


class Tape(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.rows = []

    def emit(self, record):
        self.rows.append((record.levelno, record.name, record.getMessage()))

    def take(self):
        r, self.rows = self.rows, []
        return r


NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan))"


def parse(line, kind):
    """(iteration, counts, elbo, sd, skl, K, R, action) or None."""
    cnt = {"given": NUM + r"\s*/\s*" + NUM, "repeat": NUM + r"\s+" + NUM}.get(
        kind, NUM)
    m = re.match(r"^\s+" + NUM + r"\s+" + cnt + (r"\s+" + NUM) * 5
                 + r"(?:\s+(.*))?$", line)
    if not m:
        return None
    g = list(m.groups())
    act = (g.pop() or "").strip()
    v = [float(x) for x in g]
    k = 2 if kind in ("given", "repeat") else 1
    return v[0], v[1:1 + k], v[1 + k], v[2 + k], v[3 + k], v[4 + k], \
        v[5 + k], act


def near(a, b, dec=None, sig=None):
    if not np.isfinite(b) or not np.isfinite(a):
        return a == b or (np.isnan(a) and np.isnan(b))
    if dec is not None:
        return abs(a - b) <= 0.51 * 10.0**-dec + 1e-12 * abs(b)
    return abs(a - b) <= 0.51 * 10.0 ** (1 - sig) * abs(b) + 1e-300


def build(o, path):
    from pyvbmc import VBMC

    D, kind = o["D"], o["kind"]
    kw = {}
    x0 = np.zeros((1, D))
    if kind in ("noisy", "repeat"):
        kw = {"specify_target_noise": True,
              "max_repeated_observations": 3 if kind == "repeat" else 0}
    if kind == "given":
        x0 = np.array([[0.0] * D, [0.3] * D, [-0.4] * D])
        kw = {"f_vals": np.array(
            [-0.5 * float(np.sum(x**2)) for x in x0])}

    def f(x):
        y = -0.5 * float(np.sum(np.asarray(x) ** 2))
        return (y, 0.1) if kind in ("noisy", "repeat") else y

    if path is not None:
        kw.update(log_file_name=path, log_file_level=o["level"],
                  log_file_mode=o["mode"])
    return VBMC(
        f, x0, plausible_lower_bounds=np.full((1, D), -1.0),
        plausible_upper_bounds=np.full((1, D), 1.0),
        options=runs.fast(
            max_iter=o["iters"], min_iter=0, min_fun_evals=0,
            do_final_boost=o["boost"], print_iteration_header=o["header"],
            entropy_switch=o["switch"], det_entropy_min_d=1,
            warmup=o["warmup"], entropy_force_switch=o["force"],
            best_frac_back=o["back"], ns_gp_max=o["opts"],
            **({} if o["evals"] is None else {"max_fun_evals": o["evals"]}),
            **{**kw, "display": o["display"]},
        ),
    )


def shown_lines(t, o, v, rows, i0, vp, res):
    """Check what a run displayed; returns the rows that go to a file."""
    ih = v.iteration_history
    n = len(ih["iter"])
    rows = [r for r in rows if r[1].split(".")[0].split("_")[0] == "VBMC"]
    lev = LEVELS[o["display"]]
    t.check(all(r[0] >= lev for r in rows), "a line below the display level")
    warn = [r[2] for r in rows if r[0] >= 30]
    end = [res["message"]]
    if i0:
        warn = warn[1:]  # "Continuing ..."
    t.check(warn[:1] == end, f"final message {warn[:1]}, expected {end}")
    m = re.match(r"Estimated ELBO: (\S+) \+/-(\S+)\.$", warn[1])
    t.check(
        bool(m) and near(float(m.group(1)), res["elbo"], dec=3)
        and near(float(m.group(2)), res["elbo_sd"], dec=3),
        lambda: f"{warn[1]!r} for {res['elbo']} +/- {res['elbo_sd']}",
    )
    t.check(len(warn) == (2 if res["success_flag"] else 3),
            f"{len(warn) - 2} cautions, success is {res['success_flag']}")
    if not res["success_flag"]:
        t.check("not" in warn[2] and "converged" in warn[2],
                f"caution {warn[2]!r}")
    if lev > 20:
        t.check(all(r[0] >= 30 for r in rows), "more than the summary")
        return rows, []
    heads = [r for r in rows if "Iteration" in r[2] and "ELBO" in r[2]]
    want = 1
    if o["header"]:
        want += n - max(i0, 1)
    t.check(len(heads) == want,
            f"{len(heads)} header lines, expected {want}")
    noisy = o["kind"] in ("noisy", "repeat")
    beg = [r[2] for r in rows if r[2].startswith("Beginning")]
    t.check(len(beg) == 1 and ("NOISY" in beg[0]) == noisy
            and ("EXACT" in beg[0]) == (not noisy), f"first line {beg}")
    body = [parse(r[2], o["kind"]) for r in rows
            if r[0] < 30 and r not in heads and r[2] not in beg]
    t.check(all(b is not None for b in body),
            lambda: f"line {[r[2] for r in rows if not parse(r[2], o['kind'])]}")
    fin = [b for b in body if np.isinf(b[0])]
    body = [b for b in body if not np.isinf(b[0])]
    t.check([int(b[0]) for b in body] == list(range(i0, n)),
            f"lines for iterations {[b[0] for b in body]}, ran {i0} to {n}")
    t.nontrivial()
    for b in body:
        i = int(b[0])
        cnt = [ih["func_count"][i]]
        if o["kind"] == "given":
            cnt.append(ih["function_logger"][i].cache_count)
        if o["kind"] == "repeat":
            cnt.append(ih["optim_state"][i]["N"])
        where = f"iteration {i}: "
        t.check(b[1] == [float(x) for x in cnt],
                f"{where}counts {b[1]}, recorded {cnt}")
        for k, name in ((2, "elbo"), (3, "elbo_sd"), (4, "sKL")):
            t.check(near(b[k], float(ih[name][i]), dec=2),
                    f"{where}{name} shown as {b[k]}, is {ih[name][i]}")
        t.check(b[5] == ih["vp"][i].K, f"{where}{b[5]} components shown")
        t.check(near(b[6], float(ih["r_index"][i]), sig=3),
                f"{where}reliability {b[6]}, is {ih['r_index'][i]}")
        act = ", ".join(ih["logging_action"][i])
        t.check(b[7] == act, f"{where}action {b[7]!r}, recorded {act!r}")
    actions(t, o, v)
    best = res["best_iter"]
    changed = vp.K != ih["vp"][best].K
    t.check(len(fin) <= 1 and (o["boost"] or not fin)
            and (fin or not changed), f"{len(fin)} final lines")
    if fin:
        b = fin[0]
        t.label("final line")
        cnt = [res["func_count"]]
        if o["kind"] == "given":
            cnt.append(v.function_logger.cache_count)
        if o["kind"] == "repeat":
            cnt.append(v.function_logger.Xn + 1)
        if best < n - 1:
            t.label("best is not the last")
        t.check(b[1] == cnt
                and near(b[2], res["elbo"], dec=2)
                and near(b[3], res["elbo_sd"], dec=2) and b[5] == vp.K
                and near(b[6], float(ih["r_index"][best]), sig=3)
                and b[7] == "finalize", f"final line {b}")
    return rows, heads


def actions(t, o, v):
    """The actions of each iteration are the changes of state it made."""
    ih, opt = v.iteration_history, v.options
    warm, switch = opt["warmup"], o["switch"]
    trims = 0
    for i in range(len(ih["iter"])):
        got = list(ih["logging_action"][i])
        s = ih["optim_state"][i]
        want = []
        if i == 0 and warm:
            want.append("start warm-up")
        if switch and not s["entropy_switch"]:
            want.append("entropy switch")
        if warm and not ih["warmup"][i]:
            want.append("end warm-up")
        if len(s["data_trim_list"]) > trims:
            want.append("trim data")
        if ih["stable"][i]:
            want.append("stable")
        if i and ih["Ns_gp"][i] == opt["stable_gp_samples"] < ih["Ns_gp"][
                i - 1]:
            want.append("stable GP sampling" if ih["Ns_gp"][i]
                        else "switch to GP opt")
        known = {"start warm-up", "entropy switch", "end warm-up",
                 "trim data", "stable", "stable GP sampling",
                 "switch to GP opt"}
        t.check(sorted(a for a in got if a in known) == sorted(want),
                f"iteration {i}: actions {got}, expected {want}")
        for a in want:
            t.label(a)
        due = switch and i and ih["func_count"][i - 1] >= (
            opt["entropy_force_switch"] * opt["max_fun_evals"])
        t.check(not (due and s["entropy_switch"]),
                f"iteration {i}: entropy still deterministic")
        t.check(switch or not s["entropy_switch"],
                f"iteration {i}: entropy deterministic again")
        switch = bool(s["entropy_switch"])
        warm, trims = bool(ih["warmup"][i]), len(s["data_trim_list"])


def log(c, t):
    import pyvbmc  # noqa: F401

    root = logging.getLogger()
    tape = Tape()
    old, lev = root.handlers[:], root.level
    root.handlers[:] = [tape]
    d = tempfile.mkdtemp()
    np.random.seed(c["seed"] % 2**31)
    objs, files, heads = {}, {}, {}
    try:
        for op, i in c["ops"]:
            o = c["objs"][i]
            path = None if o["file"] is None else os.path.join(
                d, f"log{o['file']}.txt")
            if op == "new":
                objs[i] = build(o, path)
                rows, skip = tape.take(), []
                rows = [r for r in rows if r[1].startswith("VBMC")]
                if path is not None:
                    if o["mode"] != "a":
                        files[path] = []
                        heads.pop(path, None)
                    files.setdefault(path, [])
            else:
                v = objs[i]
                i0 = v.iteration + 1
                if i0:
                    t.label("continued")
                vp, res = v.optimize()
                rows, skip = shown_lines(t, o, v, tape.take(), i0, vp, res)
            if path is None:
                continue
            fl = LEVELS.get(o["level"], o["level"])
            if op == "run" and fl <= 20 and skip:
                heads.setdefault(path, [0, 0])
                heads[path][0] += i0 == 0
                heads[path][1] += 1
            files[path] += [
                r[2] for r in rows if r[0] >= fl and r not in skip
            ]
        t.check(
            sorted(os.listdir(d)) == sorted(map(os.path.basename, files)),
            f"files {os.listdir(d)}",
        )
        for path, want in files.items():
            t.nontrivial()
            t.label("log file")
            with open(path, encoding="utf-8") as f:
                got = f.read().splitlines()
            # column headers: once per run (again or not when continued)
            lo, hi = heads.get(path, (0, 0))
            k = len(got)
            got = [x for x in got if "Iteration " not in x
                   or "ELBO" not in x]
            k -= len(got)
            t.check(lo <= k <= hi, f"{k} column headers in the file of "
                    f"{lo} fresh runs out of {hi}")
            t.check(
                got == [x for r in want for x in r.splitlines()],
                lambda: f"{os.path.basename(path)}: {len(got)} lines, "
                f"expected {len(want)}; first difference: "
                f"{[p for p in zip(got + [None], want + [None]) if p[0] != p[1]][:1]}",
            )
    finally:
        root.handlers[:] = old
        root.setLevel(lev)
        for name in ("VBMC", "VBMC_init"):
            lg = logging.getLogger(name)
            for h in lg.handlers[:]:
                lg.removeHandler(h)
                h.close()
        shutil.rmtree(d)


PROPS = [Prop("log", case, log, 96, 1500, shrink=False, cpu_limit=300)]
