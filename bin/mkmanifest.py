#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        lvl = registry.CHECKS[p][1]
        tech, note = registry.NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": p, "reason": registry.NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "SPASM_VERIF", "enable": "the checks compile /repo/src with -DSPASM_VERIF (no hook is needed so far: the deterministic runtime observes the unmodified code)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
