"""Write the table of the planted changes at the end of DESIGN.md."""

import json
from pathlib import Path

TOP = Path(__file__).resolve().parent.parent
MARK = "<!-- table of tools/seedtable.py -->"
# Changes that the check of the day missed, and what was strengthened.
MISSED = {
    "shallow-inputs": "values in containers (C05)",
    "only-arrays-are-copied": "values of other kinds (C05)",
    "case-of-prefixes": "mixed case in the middle of prefixes (C07)",
    "stripped-labels": "labels with spaces around (C07)",
}
lines = [MARK, "", "| change | property, caught by its check | it needs |", "|---|---|---|"]
for path in sorted(TOP.glob("seeded/*/meta.json")):
    meta = json.loads(path.read_text())
    name = path.parent.name
    note = f" (first missed; since then: {MISSED[name]})" if name in MISSED else ""
    lines.append(f"| {name} | {meta['property']}{note} | {meta['needs']} |")
design = TOP / "DESIGN.md"
text = design.read_text()
design.write_text(text[: text.index(MARK)] + "\n".join(lines) + "\n")
