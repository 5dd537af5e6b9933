import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % i,
                       "technique": "static analysis: " + c["technique"], "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash analyzer/build.sh && python3 checks/facts.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
