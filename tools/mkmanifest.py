#!/usr/bin/env python3
"""writes MANIFEST.json from the list of built checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit TLA+ specification checked by TLC; "
CLAIMS = {
 "C08": (T + "recorded concurrent histories of the real caches, under enumerated and randomised schedules, validated against it (linearizability)",
         "The lock/table/list design is checked exhaustively at 2 threads, 3 keys, bound 2; the real caches are bound to it by TLC-generated behaviours and by thousands of histories from preemption-bounded enumerated schedules. Assumes statement-level switching, and Go's own detector for unsynchronised map access under load."),
}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "TLA+ checked with TLC. The harness instruments /repo through a build overlay only; /repo carries no hooks."}
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py %s" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "its check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
