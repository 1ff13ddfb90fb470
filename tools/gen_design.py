"""Writes DESIGN.md from the suites (generator, oracle and bounds texts), properties.jsonl and tools/catches.json."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path[:0] = [root + "/harness", root + "/vendor", "/repo", here]
sys.dont_write_bytecode = True
from design_text import HEAD, WHY, TAIL
from notes import NOTES
import boot
boot.setup()
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
times = json.load(open(here + "/times.json")) if os.path.exists(here + "/times.json") else {}
out = [HEAD, "## Properties and how each is decided\n"]
for p in props:
    i = p["id"]
    s = importlib.import_module("checks." + i.lower()).SUITE
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Technique*: {NOTES[i][0]}. *Generated*: {s.rule}\n")
    for a in s.assumptions:
        out.append(f"* {a}")
    out.append("")
    out.append("| case | quick examples | decides |\n|---|---|---|")
    for c in s.cases:
        out.append(f"| {c.name} | {c.quick} | {c.rule or 'as stated above'} |")
    out.append(f"\n*Why beyond the tests*: {WHY[i]} *Cost*: about {times.get(i, '?')} s (quick, 8 cores).\n")
out.append(TAIL)
out.append("\n## Defects found\n\nThe checks found the defects listed in `known_findings.txt`; all were repaired in `fix:` commits in /repo, none is left open.\n")
cat = here + "/catches.json"
if os.path.exists(cat):
    out.append("## Planted bugs and what catches them\n\nEach lives in `seeded/<id>/`; 'caught' means the quick check of the property exits 1 with the bug applied (seed 1).\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    for k, v in sorted(json.load(open(cat)).items()):
        m = json.load(open(f"{root}/seeded/{k}/meta.json"))
        out.append(f"| {k} | {m['property']} | {m['needs']} | {v} |")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
