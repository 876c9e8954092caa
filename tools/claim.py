#!/usr/bin/env python3
"""claim.py ID 'technique' 'level note' : add or replace a claim and rewrite MANIFEST.json"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(here, "checks", "claims.json")
d = json.load(open(fn))
pid, tech, note = sys.argv[1:4]
d["claims"] = [c for c in d["claims"] if c["property"] != pid]
d["claims"].append({"property": pid, "technique": tech, "level_note": note})
d["claims"].sort(key=lambda c: c["property"])
json.dump(d, open(fn, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(here, "tools", "manifest.py")])
