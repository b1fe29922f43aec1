#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled Rust code (LLVM IR, rebuilt on every run) with SMT-decided branches and assertions; counterexamples replayed natively",
            "level": c.get("level", "model_checking"),
            "level_note": "Holds for all values within: " + c["bounds"] + ("" if not c.get("outside") else ". Outside: " + c["outside"]),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use public interfaces only", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "DESIGN.md describes the executor, the harnesses, their bounds, the findings and the seeded bugs.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
