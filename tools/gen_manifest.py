#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "bounded symbolic execution of the compiled Rust code (Kani/CBMC), SAT-decided, counterexamples replayed natively"),
        "level": "other",
        "level_note": "Solver verdict for all values within the bounds: " + p["bounds"] + ". Outside: " + (p.get("outside") or "nothing further") + ". " + "; ".join(p.get("assumptions", [])),
    })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "cfg(kani), cfg(measured_verif)", "enable": "kani is set by cargo kani; measured_verif by RUSTFLAGS=\"--cfg measured_verif\" in the native replay build", "source_commits": ["25b2095", "67102ee"]},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Every check is one call of check.py, which runs the harnesses named after the property under Kani."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
