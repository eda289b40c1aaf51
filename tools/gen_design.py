#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the prose below, specs.py (bounds) and tools/seeded_results.txt (which check caught what)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
INTRO = open(V + "/tools/design_intro.md").read()
NOTES = {}
cur = None
for line in open(V + "/tools/design_notes.md"):
    if line.startswith("## "):
        cur = line[3:].strip()
        NOTES[cur] = ""
    elif cur:
        NOTES[cur] += line
out = [INTRO.rstrip(), "", "## 5. The properties, one by one", ""]
for p in props:
    i = p["id"]
    s = specs.CHECKS.get(i)
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if not s:
        out += ["Not applicable: " + specs.NOT_APPLICABLE.get(i, ""), ""]
        continue
    out += [NOTES.get(i, "").strip(), ""]
    out += ["- Harness: %s; runs: %s" % (", ".join(sorted({r["harness"] for r in s["runs"]})), ", ".join(r["name"] for r in s["runs"]))]
    out += ["- Bound: " + b for b in s.get("bounds", [])]
    out += ["- Outside: " + b for b in s.get("outside", [])]
    out += ["- Stub: " + b for b in s.get("stubs", [])]
    out += [""]
out += ["## 6. Defects found", "", "Every one was shown by a counterexample replayed against the real code and repaired by the named commit in /repo; the check fails again when the commit is reverted. They are also listed in known_findings.json.", ""]
for f in json.load(open(V + "/known_findings.json"))["findings"]:
    out.append("- " + f["what"])
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), "", "| planted bug | property | what it needs | result |", "|---|---|---|---|"]
res = {}
f = V + "/tools/seeded_results.txt"
if os.path.exists(f):
    for l in open(f):
        q = l.rstrip("\n").split("\t")
        if len(q) == 2: res[q[0]] = q[1]
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], res.get(d, "")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
