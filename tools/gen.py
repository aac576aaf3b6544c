"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")), p["id"]
    c = {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
         "technique": p["technique"], "level": "other", "level_note": p["note"]}
    checks.append(c)
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 9))'", "checks": checks,
               "not_applicable": na,
               "notes": "Static analysis only: every check parses /repo/creole on each run; nothing of it is imported or executed."},
              f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
