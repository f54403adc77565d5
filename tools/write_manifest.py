"""MANIFEST.json: one check per property that has a module in vf/checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "vf", "checks", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "python3 vf/run.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 vf/run.py %s" % p,
            "technique": "property-based testing (hypothesis-driven structured generation with shrinking): " + NOTES[p][0],
            "level": "exploration",
            "level_note": NOTES[p][1],
        })
    else:
        na.append({"property": p, "reason": "no check has been built yet"})
json.dump({"version": 1, "setup_cmd": "python3 vf/setup_check.py", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
