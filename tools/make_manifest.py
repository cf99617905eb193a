"""Writes MANIFEST.json: a check for every property that has a module in checks/."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools" / "techniques.json").read_text()) if (V / "tools" / "techniques.json").exists() else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists():
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick",
                       "thorough_cmd": f"./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": n.get("technique", "property-based testing (hypothesis generators, reference-model oracle, shrinking to a replay file)"),
                       "level": n.get("level", "exploration"),
                       "level_note": n.get("note", "generated-input search against an explicit oracle; bounded by case count and input size, not exhaustive")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the native modules it needs from /repo's working tree (cached by content in /verif/.cache) against a small nanobind stand-in in /verif/shim."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
