#!/usr/bin/env python3
"""note.py <id> <technique> <note>: record a check's manifest text and regenerate the files."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
p = f"{here}/notes.json"
n = json.load(open(p))
n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(n, open(p, "w"), indent=1)
for g in ["gen_properties.py", "gen_manifest.py"]:
    subprocess.check_call(["python3", f"{here}/{g}"])
