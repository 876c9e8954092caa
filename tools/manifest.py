"""Write MANIFEST.json from the list of claimed checks in checks/claims.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(V, "checks", "claims.json")))
checks = []
for c in claims["claims"]:
    p = c["property"]
    checks.append(dict(
        property=p,
        quick_cmd="python3 mc/run.py %s --tier quick" % p,
        thorough_cmd="python3 mc/run.py %s --tier thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique=c["technique"],
        level=c.get("level", "model_checking"),
        level_note=c["level_note"]))
claimed = set(c["property"] for c in checks)
na = list(claims["not_applicable"])
listed = set(n["property"] for n in na)
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in claimed and pid not in listed:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 mc/run.py %s --build" %
         checks[0]["property"], checks=checks, not_applicable=na,
         notes=claims["notes"])
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
