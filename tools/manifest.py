#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    src = open(path).read()
    m = re.search(r'^TECHNIQUE = "([^"]*)"', src, re.M)
    n = re.search(r'^NOTE = \(?((?:\s*"[^"]*"\s*)+)\)?', src, re.M)
    note = "".join(re.findall(r'"([^"]*)"', n.group(1))) if n else ""
    checks.append({
        "property": pid,
        "quick_cmd": f"./run.sh {pid} --tier quick",
        "thorough_cmd": f"./run.sh {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": m.group(1) if m else "runtime monitoring of the real code under generated hostile workloads, with an independent oracle",
        "level": "exploration",
        "level_note": note or "Held on every observed execution of the listed workloads; reach is that of the generators (see evidence).",
    })
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No source hooks: the code is Python and is observed at its public functions, the CA's records and its wire messages; "
                "monitors attach at run time from /verif."}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
