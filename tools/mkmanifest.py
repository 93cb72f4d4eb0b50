#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from registry import REG, NA
checks = []
for p in sorted(REG):
    R = REG[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": R.get("technique", "bounded symbolic execution of the LLVM IR of the real code, branches and assertions decided by Z3; counterexamples and sampled paths replayed natively"),
        "level": "model_checking",
        "level_note": "Holds for every input within the bounds: " + "; ".join(R["bounds"].values()) + ". Trusted: rustc's IR, the executor's semantics (cross-checked natively on sampled paths), Z3, and the oracle in harness/src. Nothing is claimed outside the bounds.",
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k not in REG]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
