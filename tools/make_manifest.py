#!/opt/venv/bin/python
"""Writes MANIFEST.json from the check modules that exist."""
import glob
import importlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for pid in ids:
    if not os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    c = importlib.import_module("mc.checks." + pid.lower()).CHECK
    checks.append({"property": pid, "quick_cmd": "bin/check %s" % pid, "thorough_cmd": "bin/check %s --tier thorough" % pid,
                   "technique": c.technique, "level": c.level,
                   "level_note": c.rule + ". Assumes: " + "; ".join(c.assumptions) + "."})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks only use public calls and replace third-party seams at run time", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check enumerates a finite space completely (or says so in its evidence when its time budget ended first) and compares each "
              "execution of the real code with an independent reference; see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
