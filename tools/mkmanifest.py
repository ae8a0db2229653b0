"""Writes /verif/MANIFEST.json from the properties and the check modules present."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Observed executions only: seeded random, hostile and stress workloads on the real code, judged by "
        "independent oracles; says nothing about inputs not generated. Trusts numpy, scipy and the reference formulas in rv/ref.py.")
TECH = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "rv", "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./run.sh {pid}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": "runtime monitoring: " + TECH[pid],
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
out = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the monitors observe through the public interface and operating-system state."}
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
