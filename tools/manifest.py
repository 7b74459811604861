#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from chk import registry

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.CHECKS:
        _, _, tech, note = registry.CHECKS[p]
        c = {"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
             "technique": tech, "level": "model_checking", "level_note": note}
        checks.append(c)
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": p, "reason": registry.NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in registry.CHECKS]}
m["hooks"] = {"guard": "ifc_rs_verif", "enable": "RUSTFLAGS='--cfg ifc_rs_verif', set by chk/core.py when it builds /verif/harness",
              "source_commits": registry.HOOKS}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
