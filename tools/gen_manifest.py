"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from manifest_notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "vmc", "checks", i + ".py")) and i in NOTES:
        tech, level, note = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo/src as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check imports /repo/src live (no build step). The absent packages apache_beam and "
              "wfa_cardinality_estimation_evaluation_framework are replaced by controlled stand-ins (stubs/), see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
