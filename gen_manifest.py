"""Regenerates MANIFEST.json from properties.jsonl, the checks present and the table of declined properties."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
NA = json.load(open(f"{HERE}/not_applicable.json"))
TECH = "bounded symbolic execution of the real Python code with SMT (z3)"
NOTES = json.load(open(f"{HERE}/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{HERE}/checks/{i.lower()}.py"):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"VERIF_TIER=quick python3 run.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                "technique": NOTES.get(i, {}).get("technique", TECH),
                "level": "other",
                "level_note": NOTES.get(i, {}).get("note", "Every path of the real functions within the stated bounds; each assertion decided by z3 for all inputs of the path; counterexamples replayed on the unpatched code. No claim beyond the bounds."),
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
