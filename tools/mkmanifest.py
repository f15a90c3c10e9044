#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}",
                                evidence_file=f"evidence/{i}.json", technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "check not built yet")))
m["notes"] = "No hooks in /repo: the harnesses include the headers of /repo's working tree directly. Repaired defects are listed in KNOWN_FINDINGS.md."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
