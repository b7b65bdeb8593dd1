#!/opt/venv/bin/python
"""run_check.py ID [--tier quick|thorough] [--replay FILE] [--jobs N]

Exit 0: the property held on every generated case (known findings excepted).
Exit 1: `VIOLATION property=<id> replay=<path>` was printed.
Exit 2: the check itself failed.
"""
import argparse
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pbt import boot  # noqa: E402


def find_module(pid):
    pat = os.path.join(boot.VERIF, "pbt", "checks", pid.lower() + "_*.py")
    hits = glob.glob(pat)
    if len(hits) != 1:
        sys.exit(f"no check module for {pid}: {hits}")
    return "pbt.checks." + os.path.basename(hits[0])[:-3]


def reexec_if_needed(scratch):
    """Replay mode runs in-process: make sure the environment is pinned."""
    env = boot.worker_env(scratch)
    if os.environ.get("VERIF_REEXEC") != "1":
        env["VERIF_REEXEC"] = "1"
        r = subprocess.run([boot.PY] + sys.argv, env=env, check=False)
        return r.returncode
    return None


def replay_one(mod, prop_name, case):
    from pbt import core

    boot.import_hypothesis()
    boot.import_target()
    prop = {p.name: p for p in mod.PROPS}[prop_name]
    try:
        core.execute(prop, case)
    except core.Discard:
        return None
    except core.Violation as v:
        return v
    return None


def do_replay(pid, path, scratch):
    rc = reexec_if_needed(scratch)
    if rc is not None:
        return rc
    mod = importlib.import_module(find_module(pid))
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    v = replay_one(mod, data["prop"], data["case"])
    if v is None:
        print(f"replay of {path}: the property holds on this case")
        return 0
    print(f"{data['prop']}: {v}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--known-only", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.id.upper()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    try:
        if a.replay:
            return do_replay(pid, os.path.abspath(a.replay), scratch)
        if a.known_only:
            rc = reexec_if_needed(scratch)
            return known_only(pid) if rc is None else rc
        return search(pid, tier, seed, a.jobs, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_only(pid):
    """Replay each listed finding; print its line when it still fails."""
    from pbt import core

    mod = importlib.import_module(find_module(pid))
    for k in core.load_known(pid):
        v = replay_one(mod, k["prop"], k["case"])
        if v is not None and v.key == k["key"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif v is not None:
            print(f"DIFFERENT-FINDING {json.dumps([k['prop'], str(v)])}")
        else:
            print(f"note: listed finding no longer fails: {k['what']}")
    return 0


def search(pid, tier, seed, jobs, scratch, t0):
    modname = find_module(pid)
    env = boot.worker_env(scratch)
    budget = 600 if tier == "quick" else 6 * 3600
    hard = 800 if tier == "quick" else 8 * 3600
    procs = []
    for k in range(jobs):
        sub = os.path.join(scratch, f"w{k}")
        os.makedirs(sub)
        out = os.path.join(scratch, f"out{k}.json")
        e = dict(env)
        e["TMPDIR"] = sub
        e["MPLCONFIGDIR"] = os.path.join(sub, "mpl")
        log = open(os.path.join(scratch, f"log{k}"), "w")
        argv = [boot.PY, "-m", "pbt.core", modname, tier, str(seed)]
        argv += [str(k), str(jobs), str(budget), out]
        p = subprocess.Popen(
            argv, env=e, cwd=sub, stdout=log, stderr=subprocess.STDOUT
        )
        procs.append((p, out, log.name))
    known_out = ""
    from pbt import core

    if core.load_known(pid):
        r = subprocess.run(
            [boot.PY, os.path.join(boot.VERIF, "run_check.py"), pid]
            + ["--known-only"],
            env=dict(env, VERIF_REEXEC="1"),
            capture_output=True,
            text=True,
            check=False,
        )
        if r.returncode != 0:
            print(r.stdout, r.stderr)
            return 2
        known_out = r.stdout

    results = {}
    grace = None
    while len(results) < len(procs):
        for i, (p, out, log) in enumerate(procs):
            if i in results:
                continue
            if p.poll() is not None:
                results[i] = read_result(p, out, log)
                if results[i].get("violations") and grace is None:
                    grace = time.time() + 10
        now = time.time()
        if now - t0 > hard or (grace is not None and now > grace):
            for i, (p, out, log) in enumerate(procs):
                if i not in results:
                    p.kill()
                    p.wait()
                    stopped = {"stopped": True}
                    if grace is None:
                        stopped["errors"] = [f"worker {i} ran out of time"]
                    results[i] = stopped
            break
        time.sleep(0.05)
    return report(pid, tier, seed, modname, results, known_out, t0)


def read_result(p, out, log):
    try:
        with open(out, encoding="utf-8") as f:
            return json.load(f)
    except (OSError, ValueError):
        with open(log, encoding="utf-8", errors="replace") as f:
            tail = f.read()[-3000:]
        return {"errors": [f"worker died (rc {p.returncode}): {tail}"]}


def report(pid, tier, seed, modname, results, known_out, t0):
    viol, errors, hashes, samples = [], [], set(), []
    ev = disc = 0
    labels, props = {}, {}
    truncated = False
    known_hits = {}
    for r in results.values():
        viol += r.get("violations", [])
        errors += r.get("errors", [])
        hashes |= set(r.get("hashes", []))
        ev += r.get("evaluations", 0)
        disc += r.get("discarded", 0)
        truncated |= r.get("truncated", False)
        samples += r.get("samples", [])
        for k, n in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + n
        for k, n in r.get("known_hits", {}).items():
            known_hits[k] = known_hits.get(k, 0) + n
        for k, d in r.get("props", {}).items():
            q = props.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            for f in q:
                q[f] += d[f]
    for line in known_out.splitlines():
        if line.startswith("DIFFERENT-FINDING "):
            pr, msg = json.loads(line[len("DIFFERENT-FINDING "):])
            viol.append({"prop": pr, "msg": msg, "key": None, "case": None})
        elif line:
            print(line)
    mod = importlib.import_module(modname)
    seen, pick = {}, []
    for s in samples:
        if seen.setdefault(s["check"], 0) < 2:
            txt = json.dumps(s)
            if len(txt) > 1500:
                s = {"check": s["check"], "case_text": txt[:1500] + "..."}
            seen[s["check"]] += 1
            pick.append(s)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": pick,
            "discarded": disc,
            "per_check": props,
            "labels": labels,
            "known_finding_hits": known_hits,
            "stopped_by_time_budget": truncated,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    edir = os.path.join(boot.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    rc = 0
    if viol:
        viol.sort(key=lambda v: len(json.dumps(v.get("case"))))
        v = viol[0]
        rdir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": pid,
                    "prop": v["prop"],
                    "message": v["msg"],
                    "case": v.get("case"),
                    "trace": v.get("trace"),
                },
                f,
                indent=1,
            )
        print(f"{pid}/{v['prop']}: {v['msg']}")
        print(f"case: {json.dumps(v.get('case'))[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS ERROR:", e)
        rc = 2
    elif ev == 0 or len(hashes) == 0:
        print("HARNESS ERROR: nothing was explored")
        rc = 2
    print(
        f"{pid} {tier} seed={seed}: {ev} cases, {len(hashes)} distinct "
        f"non-trivial, {len(viol)} violations, "
        f"{time.time() - t0:.1f}s{' (time budget hit)' if truncated else ''}"
    )
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(2)
