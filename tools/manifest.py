#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
NOTE = ("TLC explores the specification within the stated bounds (exhaustively on small constants, by seeded simulation on larger "
        "ones); the binding to the code is by replaying the printed behaviours in the real engine, so it is exhaustive only over "
        "what was explored, not a proof.")
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i} thorough",
                       "technique": PLAN[i].get("technique", "TLA+ specification checked with TLC; its behaviours replayed in the real engine and compared at every step"),
                       "level": "model_checking", "level_note": PLAN[i].get("note", "") + NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "the specification for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "hooks": {"guard": "--cfg rawdio_verif",
               "enable": "RUSTFLAGS='--cfg rawdio_verif' when building the harness crate in /verif/harness, which depends on /repo by path",
               "source_commits": [os.popen("git -C /repo rev-parse " + c).read().strip() for c in ("61cc369", "d7238b2")]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
