"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools/techniques.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, f"pbt/props/{i.lower()}.py")) and i in TECH:
        tech, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note + COMMON))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash check.sh setup", checks=checks, not_applicable=na,
         notes="No hooks: every property is observable through the public Python API. Replay a failure with"
               " 'bash check.sh replay FILE'. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
