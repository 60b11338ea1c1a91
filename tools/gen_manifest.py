#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check in the explorer."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([root + "/mc/target/debug/astro-mc", "list"], capture_output=True, text=True, check=True).stdout
have = [l.strip() for l in out.splitlines() if l and not l.startswith(" ")]
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T = json.load(open(root + "/tools/techniques.json"))
NA = {k: v for k, v in T.get("not_applicable", {}).items()}
default = T["default"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = {**default, **T.get(i, {})}
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": t["technique"], "level": t.get("level", "model_checking"), "level_note": t["level_note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet: the explorer's scenarios for it are still being built.")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na}
if T.get("hooks"):
    m["hooks"] = T["hooks"]
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
