#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run after editing; both are committed)."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from tools.config import PROPS
from tools.propdefs import DEFS, NOT_APPLICABLE, HOOKS, NOTES

V = Path(__file__).resolve().parent.parent
lines, checks = [], []
for d in DEFS:
    assert len(d["title"]) <= 80, d["title"]
    lines.append(json.dumps({
        "id": d["id"], "title": d["title"], "statement": d["statement"],
        "quantifier": {"over": d["over"], "text": d["quant"]},
        "why_tests_cant": d["why"],
        "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]], "observe_at": d.get("observe", [])},
    }, ensure_ascii=False))
    if d["id"] in PROPS:
        variants = sorted({v["variant"] for t in ("quick", "thorough") for v in PROPS[d["id"]][t]})
        checks.append({
            "property": d["id"],
            "quick_cmd": f"./check.py {d['id']} quick", "thorough_cmd": f"./check.py {d['id']} thorough",
            "technique": d["technique"], "level": "exploration", "level_note": d["note"],
        })
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(lines), "properties,", len(checks), "checks")
