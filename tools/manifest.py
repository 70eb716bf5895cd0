#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest.py). Claims every property that has an explorer."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(home + "/properties.jsonl")]
NOTE = json.load(open(home + "/tools/notes.json"))
PENDING = "no exhaustive explorer is built for it yet; nothing weaker is claimed"
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTE.get(i)
    if n and any(os.path.exists(home + x) for x in (f"/harness/cmd/{i.lower()}/main.go", f"/java/props/{i}.java")):
        checks.append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": PENDING})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh",
  "hooks": {"guard": "verif", "enable": "no hooks are needed: the explorers drive /repo's packages through their exported interfaces and simulated nodes", "source_commits": []},
  "checks": checks, "not_applicable": na,
  "notes": "check.sh builds the property's explorer (Go: from a scratch copy of /verif/harness; contracts: /verif/java) against /repo's working tree and runs it; see DESIGN.md"}, open(home + "/MANIFEST.json", "w"), indent=1)
