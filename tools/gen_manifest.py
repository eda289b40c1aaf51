#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Symbolic execution of the compiled code (LLVM IR of /repo's sources) with NaN-boxed symbolic numbers; z3 and cvc5 decide every obligation; see DESIGN.md."}
for i in ids:
    if i in specs.CHECKS:
        c = specs.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "symbolic execution of the LLVM IR of the real code, obligations decided by SMT (z3, cvc5), counterexamples replayed natively"),
                            "level": "model_checking",
                            "level_note": "Bounded: holds for every input within: " + "; ".join(c["bounds"]) + ". Outside: " + "; ".join(c.get("outside", ["-"])) +
                            (". Stubs: " + "; ".join(c["stubs"]) if c.get("stubs") else "") + ". Trusts the front end, the instrumenting pass and runtime, and the solvers."})
    else:
        m["not_applicable"].append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
