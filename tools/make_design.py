"""DESIGN.md = tools/design_body.md + the table of planted bugs (from seeded/*/meta.json)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
first = json.loads((V / "tools" / "missed_first.json").read_text())
never = json.loads((V / "tools" / "not_caught.json").read_text()) if (V / "tools" / "not_caught.json").exists() else {}
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    if d.name in never:
        r = f"not caught: {never[d.name]}"
    else:
        r = f"{m['property']}" + (f" (missed at first; strengthened: {first[d.name]})" if d.name in first else "")
    rows.append(f"| {d.name} | {m['what_it_breaks']} | {r} |")
(V / "DESIGN.md").write_text((V / "tools" / "design_body.md").read_text() + "\n| planted change | breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n")
