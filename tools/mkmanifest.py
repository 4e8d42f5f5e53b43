#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# property -> reason
from vf.runner import full_rule

NOT_APPLICABLE = {}

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check for it has been built yet")})
        continue
    c = importlib.import_module("checks." + i.lower()).CHECK
    note = "Observed executions: %s. It shows the property on the executions it observed, not on all." % full_rule(c).rstrip(".")
    if c.assumptions:
        note += " Assumes: " + "; ".join(c.assumptions) + "."
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(c, "technique", "runtime monitoring: instrumented execution, online monitor against a reference model") +
        ("; coverage-guided search for further cases" if c.fuzz else ""),
        "level": c.level,
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the checks compile its sources, unchanged, with sanitizers and link them with "
              "the monitors of /verif/harness. Replays of violations go to /verif/replays."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
