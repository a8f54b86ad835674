#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = (
    "symbolic execution of the real Python source (regenerated from /repo on every run), "
    "assertions decided by z3 for all values within stated bounds, counterexamples replayed on the real code"
)
NOTE = {
    "": "Within the stated bounds every path of the encoded functions is explored and every assertion is discharged by the "
    "solver; solver models are replayed on the un-instrumented code with real files. Trusted: CPython, z3, and the "
    "models of the operating system interfaces named in DESIGN.md.",
}
NOT = {}
if os.path.exists(os.path.join(HERE, "tools", "not_applicable.json")):
    NOT = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
out = {"version": 1, "setup_cmd": "python3-vt setup.py", "checks": [], "not_applicable": []}
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in NOT and os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        out["checks"].append(
            {
                "property": pid,
                "quick_cmd": "python3-vt run.py %s" % pid,
                "thorough_cmd": "python3-vt run.py %s --thorough" % pid,
                "technique": TECH,
                "level": "model_checking",
                "level_note": NOTE.get(pid, NOTE[""]),
            }
        )
    else:
        out["not_applicable"].append(
            {"property": pid, "reason": NOT.get(pid, "the check for this property is not built yet")}
        )
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
