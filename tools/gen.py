"""Write properties.jsonl and MANIFEST.json from catalog.py: run by hand after edits."""

import json
import re
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from catalog import PROPERTIES  # noqa: E402

VERIF = HERE.parent
lines, checks = [], []
for p in PROPERTIES:
    module = VERIF / "mc" / "props" / f"{p['id'].lower()}.py"
    if not module.exists():
        print("no check yet:", p["id"])
        continue
    lines.append(
        json.dumps(
            {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"],
                "anchors": p["anchors"],
            },
        ),
    )
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"python3 check.py {p['id']} --thorough",
            "technique": p["technique"],
            "level": re.search('^LEVEL = "(.*)"', module.read_text(), re.M)[1],
            "level_note": p["note"],
        },
    )
(VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n")
(VERIF / "MANIFEST.json").write_text(
    json.dumps(
        {
            "version": 1,
            "setup_cmd": "python3 -m compileall -q check.py mc >/dev/null; "
            "/opt/venv/bin/python -B -c 'import numpy, shapely, sklearn'",
            "checks": checks,
            "not_applicable": [],
        },
        indent=1,
    )
    + "\n",
)
