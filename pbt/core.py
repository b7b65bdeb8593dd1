"""Property runner: generated cases -> oracle -> shrunk replay + evidence."""
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import zlib

from . import boot


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Discard(Exception):
    """The generated case does not satisfy the property's precondition."""


class CaseTimeout(Exception):
    """The case used more CPU time than any terminating run could."""


class Prop:
    """One executable property.

    name      : short name, unique within the check
    strategy  : () -> hypothesis strategy of JSON-able cases
    fn        : fn(case, t); raises Violation (through t.check / t.fail)
    quick/thorough : number of cases over all shards
    shrink    : whether failures are shrunk (off for whole-run properties)
    cpu_limit : CPU seconds after which a case counts as not terminating
    enum      : optional () -> list of cases run in full before the search
    """

    def __init__(
        self,
        name,
        strategy,
        fn,
        quick,
        thorough=None,
        shrink=True,
        cpu_limit=120,
        enum=None,
    ):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.shrink = shrink
        self.cpu_limit = cpu_limit
        self.enum = enum


class Trial:
    """Handed to each property function: checks and bookkeeping."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = {}

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + int(n)

    @staticmethod
    def fail(msg, key=None):
        raise Violation(msg, key)

    @staticmethod
    def check(cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    @staticmethod
    def close(a, b, msg, rtol=1e-9, atol=1e-12, key=None):
        import numpy as np

        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} vs {b.shape}", key)
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~ok)[0]
            i = tuple(bad)
            raise Violation(
                f"{msg}: at {list(map(int, i))} got {a[i]!r}, "
                f"expected {b[i]!r}",
                key,
            )

    @staticmethod
    def discard():
        raise Discard()

    @staticmethod
    def raises(excs, f, msg, key=None):
        """f() must raise one of excs; returns the exception."""
        try:
            r = f()
        except excs as e:
            return e
        raise Violation(f"{msg}: no error raised (returned {r!r:.200})", key)


def case_json(case):
    return json.dumps(case, sort_keys=True)


def case_hash(name, case):
    return hashlib.sha1((name + case_json(case)).encode()).hexdigest()[:16]


def _in_target(tb):
    root = os.path.join(boot.REPO, "pyvbmc") + os.sep
    return [
        f
        for f in traceback.extract_tb(tb)
        if os.path.abspath(f.filename).startswith(root)
        and os.sep + "testing" + os.sep not in f.filename
    ]


def execute(prop, case):
    """Run one case. Returns the Trial; raises Violation/Discard/other."""
    import numpy as np

    rs = zlib.crc32((prop.name + case_json(case)).encode())
    random.seed(rs)
    np.random.seed(rs)
    t = Trial()

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, prop.cpu_limit)
    try:
        with np.errstate(all="ignore"):
            prop.fn(case, t)
    except (Violation, Discard):
        raise
    except CaseTimeout as e:
        frames = _in_target(e.__traceback__)
        where = frames[-1].name if frames else "?"
        raise Violation(
            f"did not terminate within {prop.cpu_limit} CPU seconds "
            f"(in {where})",
            key="timeout",
        ) from None
    except Exception as e:  # pylint: disable=broad-except
        frames = _in_target(e.__traceback__)
        if frames:
            f = frames[-1]
            rel = os.path.relpath(f.filename, boot.REPO)
            raise Violation(
                f"unexpected {type(e).__name__}: {str(e)[:300]} "
                f"(from {rel}, in {f.name})",
                key=f"exc:{type(e).__name__}:{f.name}",
            ) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return t


def load_known(property_id):
    path = os.path.join(boot.VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data["findings"] if k["property"] == property_id]


def jsonable(x):
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


class Worker:
    def __init__(self, module, tier, seed, shard, nshards, budget):
        self.m = module
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.t_end = time.time() + budget
        self.known = {
            (k["prop"], k["key"]) for k in load_known(module.PROPERTY)
        }
        self.res = {
            "evaluations": 0,
            "discarded": 0,
            "hashes": [],
            "props": {},
            "labels": {},
            "samples": [],
            "violations": [],
            "known_hits": {},
            "errors": [],
            "truncated": False,
        }

    def run_one(self, prop, case, counting=True):
        res = self.res
        pr = res["props"].setdefault(
            prop.name, {"evaluations": 0, "nontrivial": 0}
        )
        try:
            t = execute(prop, case)
        except Discard:
            res["discarded"] += 1
            raise
        except Violation as v:
            if (prop.name, v.key) in self.known:
                kk = f"{prop.name}|{v.key}"
                res["known_hits"][kk] = res["known_hits"].get(kk, 0) + 1
                return
            v.case = case
            v.prop = prop.name
            raise
        if counting:
            res["evaluations"] += 1
            pr["evaluations"] += 1
            for k, n in t.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + n
            if t.is_nontrivial:
                pr["nontrivial"] += 1
                res["hashes"].append(case_hash(prop.name, case))
                if pr["nontrivial"] in (1, 7, 30):
                    res["samples"].append(
                        {"check": prop.name, "case": jsonable(case)}
                    )

    def record_violation(self, prop, v, case):
        self.res["violations"].append(
            {
                "prop": prop.name,
                "msg": str(v),
                "key": v.key,
                "case": case,
                "case_repr": jsonable(case),
                "trace": traceback.format_exc()[-4000:],
            }
        )

    def run(self, out):
        boot.import_hypothesis()
        boot.import_target()
        for prop in self.m.PROPS:
            if time.time() > self.t_end:
                self.res["truncated"] = True
                break
            try:
                self.run_prop(prop)
            except Violation:
                raise
            except Exception:  # pylint: disable=broad-except
                self.res["errors"].append(
                    f"{prop.name}: " + traceback.format_exc()[-4000:]
                )
            if self.res["violations"] or self.res["errors"]:
                break
        tmp = out + ".tmp"
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(self.res, f)
        os.replace(tmp, out)

    def run_prop(self, prop):
        import hypothesis as h
        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = 45 if self.tier == "quick" else 150

        if prop.enum is not None:
            for i, case in enumerate(prop.enum()):
                if i % self.nshards != self.shard:
                    continue
                try:
                    self.run_one(prop, case)
                except Discard:
                    pass
                except Violation as v:
                    self.record_violation(prop, v, case)
                    return
        total = prop.quick if self.tier == "quick" else prop.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        total = int(math.ceil(total * scale)) if total else 0
        n = total // self.nshards + (self.shard < total % self.nshards)
        if n == 0:
            return
        failing = {}

        # The first case Hypothesis tries is the all-minimal one: skip it where
        # a shard makes only a few (expensive) runs.
        skip = [] if prop.shrink else [True]

        def body(case):
            if skip:
                skip.pop()
                return
            if time.time() > self.t_end and not failing:
                self.res["truncated"] = True
                return
            try:
                self.run_one(prop, case, counting=not failing)
            except Discard:
                h.reject()
            except Violation as v:
                failing["v"], failing["case"] = v, case
                failing.setdefault("first", (v, case))
                raise

        phases = [h.Phase.explicit, h.Phase.generate]
        if prop.shrink:
            phases.append(h.Phase.shrink)
        test = h.given(prop.strategy())(body)
        test = h.settings(
            max_examples=n + len(skip),
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(h.HealthCheck),
            phases=phases,
        )(test)
        hseed = zlib.crc32(
            f"{self.seed}/{self.m.PROPERTY}/{prop.name}/{self.shard}".encode()
        )
        test = h.seed(hseed)(test)
        try:
            test()
        except Violation as v:
            self.record_violation(prop, v, failing["case"])
        except (
            h.errors.Flaky,
            h.errors.FlakyFailure,
            BaseExceptionGroup,
        ) as e:
            # A failure that did not reproduce identically while shrinking.
            if "first" not in failing:
                raise
            v, case = failing["first"]
            v2, case2 = failing["v"], failing["case"]
            for vv, cc in ((v2, case2), (v, case)):
                for _ in range(3):
                    try:
                        execute(prop, cc)
                    except Violation as again:
                        self.record_violation(prop, again, cc)
                        return
                    except Discard:
                        break
            self.res["violations"].append(
                {
                    "prop": prop.name,
                    "msg": str(v) + " (depends on earlier cases in the same "
                    "process; does not reproduce alone)",
                    "key": v.key,
                    "case": case,
                    "case_repr": jsonable(case),
                    "trace": str(e)[-2000:],
                }
            )


def main_worker(argv):
    import importlib

    modname, tier, seed, shard, nshards, budget, out = argv
    scratch = os.environ["TMPDIR"]
    os.chdir(scratch)
    mod = importlib.import_module(modname)
    Worker(
        mod, tier, int(seed), int(shard), int(nshards), float(budget)
    ).run(out)


if __name__ == "__main__":
    main_worker(sys.argv[1:])
