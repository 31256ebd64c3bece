"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    t = TECH.get(p["id"])
    if t is None:
        na.append({"property": p["id"], "reason": "the check is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick bash ./run.sh check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash ./run.sh check {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t["technique"],
        "level": "exploration",
        "level_note": t["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash ./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: everything is checked through the public interface. Replay a violation with: bash ./run.sh replay <file>.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
