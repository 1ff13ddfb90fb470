"""Writes MANIFEST.json: one check per property that has a module in harness/checks."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
from notes import NOTES  # technique and level note per property

checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(here, "harness", "checks", pid.lower() + ".py")):
        tech, note = NOTES[pid]
        checks.append(dict(property=pid, quick_cmd=f"./check {pid} quick", thorough_cmd=f"./check {pid} thorough",
                           evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
               notes="Hypothesis (vendored) drives all checks; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
