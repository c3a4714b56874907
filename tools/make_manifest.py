"""Writes MANIFEST.json from the property modules present."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "sim"), os.path.join(here, "sim", "shim"), "/repo"]
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(here, "sim/dst/props/[a-z][0-9]*.py"))}
PURE = "Pure function of its input arrays: no schedule, clock, fault, shared state or arrival order for a simulation to vary, so this family does not apply."
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in have:
        m = importlib.import_module("dst.props." + pid.lower())
        checks.append({
            "property": pid, "quick_cmd": "./check.sh " + pid, "thorough_cmd": "./check.sh %s --tier thorough" % pid,
            "technique": "deterministic simulation with fault injection: " + getattr(m, "TECHNIQUE", "seeded schedules and faults"),
            "level": "exploration",
            "level_note": "Seeded search over simulated runs; no counterexample is evidence, not proof. Real: %s. Stand-ins: %s." % ("; ".join(m.REAL), "; ".join(m.STUB))})
    else:
        na.append({"property": pid, "reason": PURE if pid[0] == "N" else "No check of this property is claimed."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "check.sh runs one property's simulation against /repo's working tree; the seed is VERIF_SEED. See DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
