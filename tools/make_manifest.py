"""Writes MANIFEST.json from the registry of checks and the list of properties."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF + "/harness", VERIF + "/checks"]
import registry                                                     # noqa: E402

props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in registry.MODULES:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "its check is not built yet")})
        continue
    c = registry.get(i)
    checks.append({"property": i,
                   "quick_cmd": "python3 harness/run.py %s" % i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 harness/run.py %s" % i,
                   "technique": c.technique, "level": c.level,
                   "level_note": (c.level_note or registry.NOTE) + " Assumes: " + "; ".join(c.assumptions or registry.ASSUME) + "."})
m = {"version": 1,
     "setup_cmd": "python3 harness/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "All checks run harness/run.py, which needs root only to drop to user nobody. No hooks in /repo. "
              "Known and repaired defects: known-findings.txt."}
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
