"""Writes properties.jsonl and MANIFEST.json from the property texts (python3 tools/gen.py, from /verif)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props1 import P  # noqa: E402
NA = []
for mod in ("props2", "props3"):
    try:
        m = __import__(mod)
    except ImportError:
        continue
    NA += getattr(m, "NA", [])

root = os.path.dirname(HERE)
keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
rows = [{k: p[k] for k in keys} for p in P] + [{k: p[k] for k in keys} for p, _ in NA]
for r in rows:
    assert len(r["title"]) <= 80, r["title"]
    for f in r["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for r in sorted(rows, key=lambda r: r["id"]):
        f.write(json.dumps(r) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sa",
    "checks": [{"property": p["id"], "quick_cmd": f"python3 -m sa {p['id']}", "thorough_cmd": f"python3 -m sa {p['id']} --thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": "static analysis: " + p["technique"], "level": "other",
                "level_note": p["note"]} for p in sorted(P, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": why} for p, why in NA],
    "notes": "No hooks in /repo: the checks read its source and run none of it.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
