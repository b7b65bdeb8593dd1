"""Source of MANIFEST.json: claims every property that has a check module."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
PENDING = "check not built yet"
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    hits = glob.glob(f"{here}/pbt/checks/{pid.lower()}_*.py")
    if not hits:
        na.append({"property": pid, "reason": PENDING})
        continue
    m = importlib.import_module(
        "pbt.checks." + os.path.basename(hits[0])[:-3]
    )
    cmd = f"/opt/venv/bin/python run_check.py {pid}"
    checks.append(
        {
            "property": pid,
            "quick_cmd": cmd + " --tier quick",
            "thorough_cmd": cmd + " --tier thorough",
            "technique": getattr(
                m,
                "TECHNIQUE",
                "property-based testing (Hypothesis) against an independent "
                "reference",
            ),
            "level": "exploration",
            "level_note": "Generated-input search with shrinking; no proof. "
            + "Assumes: "
            + "; ".join(m.ASSUMPTIONS),
        }
    )
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are run_check.py <ID>; one module per property in "
    "pbt/checks. No hooks in /repo.",
}
with open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "pending")
