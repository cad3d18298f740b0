"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path

root = Path(__file__).resolve().parents[1]
rows = sorted((m["property"], d.parent.name, m["needs"].replace("|", "/"))
              for d in root.glob("seeded/*/meta.json") for m in [json.loads(d.read_text())])
head = "| check | planted bug | needs |\n|---|---|---|\n"
doc = root / "DESIGN.md"
text = doc.read_text()
doc.write_text(text[:text.index(head)] + head + "".join(f"| {p} | `{i}` | {n} |\n" for p, i, n in rows))
