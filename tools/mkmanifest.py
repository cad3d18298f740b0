"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / "tools" / "level_notes.json").read_text())
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "tv" / "checks" / f"{i.lower()}.py").exists() and i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": NOTES[i]["technique"],
            "level": NOTES[i].get("level", "model_checking"),
            "level_note": NOTES[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "specification written in the plan, check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
