#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(f"{ROOT}/tools/checks.json"))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none: no hook was needed in /repo; system calls are interposed from the harness",
              "enable": "not needed", "source_commits": []},
    "checks": [], "not_applicable": [],
}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 tools/check.py {p['id']}",
        "thorough_cmd": f"env VERIF_TIER=thorough python3 tools/check.py {p['id']}",
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
