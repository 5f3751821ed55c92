#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = json.load(open(f"{root}/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh check {i} quick",
            "thorough_cmd": f"bash run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i][0],
            "level": "exploration",
            "level_note": T[i][1],
        })
    else:
        na.append({"property": i, "reason": "The check is not built yet."})
m = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks use the public API (and the existing guest-debug feature) of /repo's crates through path dependencies. run.sh replay FILE re-runs a replay file.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
