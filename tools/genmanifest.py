#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks the analyser registers and from properties.jsonl."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([root + "/setup.sh"])
out = subprocess.check_output([root + "/bin/deckardcheck", "-list"], text=True)
checks, have = [], set()
for line in out.splitlines():
    i, tech, note = line.split("\t")
    have.add(i)
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                   "technique": tech, "level": "other", "level_note": note})
na = json.load(open(root + "/tools/not_applicable.json"))
nas = []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    if p["id"] not in have:
        nas.append({"property": p["id"], "reason": na.get(p["id"], "no sound static check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas,
           "notes": "All checks are one Go program (checker/) that loads /repo's source on every run; see DESIGN.md. Repairs and findings: known-findings.json."},
          open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(nas), "not claimed")
