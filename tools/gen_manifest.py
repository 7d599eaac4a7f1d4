#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = json.load(open(os.path.join(V, "checks.json")))
NA = {}
TECH = "exhaustive bounded enumeration of calls/histories of the real library against an executable reference model"
NOTE = ("Every case of a stated finite space (shapes, parameters, quantisation, data patterns, call histories, build options) is run on the library "
        "built from the working tree and compared with an independent exact model. Nothing is said about sizes, values and configurations outside the bounds in DESIGN.md. "
        "Trusts gcc, the host reference code path and the model in /verif/mc.")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                            "technique": c.get("technique", TECH), "level": "model_checking", "level_note": c.get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built (yet); see DESIGN.md")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
