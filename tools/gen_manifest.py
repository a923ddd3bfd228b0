#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the notes below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([root + "/run.sh", "build"])
reg = dict(l.split("\t", 1) for l in subprocess.check_output([root + "/bin/verifcheck"], text=True).splitlines())
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {}
NOTES = {}
exec(open(root + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": reg[i], "level": "other", "level_note": NOTES.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: no code of /repo is run by any check. known-findings.txt lists repaired and recorded defects."},
          open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not claimed")
