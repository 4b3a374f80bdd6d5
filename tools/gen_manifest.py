#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = checks.NOT_APPLICABLE
cs = []
for p in props:
    if p not in checks.PROPS: continue
    cs.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
      "technique": "bounded symbolic execution of the compiled library code (LLVM IR, own executor) with Z3 deciding every branch and assertion; counterexamples replayed on the native sanitizer build",
      "level": "model_checking", "level_note": checks.NOTES.get(p, "") + " Holds for every input within the bounds listed per unit in the evidence; trusts the executor, Z3, clang and the environment models (validated on sampled paths every run)."})
na = [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in checks.PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": cs, "not_applicable": na, "notes": "see DESIGN.md; no hooks in /repo"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(cs), "checks", len(na), "not applicable")
