#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the harness modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    h = os.path.join(V, "harness", p.lower() + ".py")
    if not os.path.exists(h):
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
        continue
    src = open(h).read()
    m = re.search(r'LEVEL_NOTE = \(?((?:\s*"[^"]*")+)', src)
    note = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else ""
    checks.append({
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "dynamic symbolic execution of the real Python code with Z3 (all feasible paths within bounds), counterexamples replayed on unpatched code",
        "level": "model_checking",
        "level_note": ("Bounded: holds for every value of the symbolic inputs on every feasible path within the bounds in the evidence file; says nothing beyond them. " + note +
                       " Trusted: Z3, the operator semantics of symx (cross-checked by re-running every path concretely), the oracle in harness/%s.py." % p.lower()).strip(),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. ./check <id> [quick|thorough] runs one property; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
