#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state, observe_at, hook, level_note, technique, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe_at=observe_at, hook=hook,
                  level_note=level_note, technique=technique, na=na))
exec(open(os.path.join(here, "meta", "table.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "state": [{"name": n, "meaning": w} for n, w in p["state"]],
                        "observe_at": p["observe_at"], "hook_needed": p["hook"]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash ./check.sh build",
     "hooks": HOOKS,
     "checks": [{"property": p["id"], "quick_cmd": f"bash ./check.sh {p['id']} quick",
                 "thorough_cmd": f"bash ./check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json",
                 "technique": p["technique"], "level": "exploration",
                 "level_note": p["level_note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": NOTES}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
