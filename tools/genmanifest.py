#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(registry, "NOT_APPLICABLE", {})
m = {"version": 1,
     "setup_cmd": "python3 checks/setup.py",
     "hooks": {"guard": "YRMCDS_VERIF_UNUSED",
               "enable": "no hooks are needed: the daemon is observed through its sockets and an LD_PRELOAD shim (harness/shim.c)",
               "source_commits": []},
     "checks": [], "not_applicable": []}
for i in props:
    c = registry.CHECKS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check is built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
