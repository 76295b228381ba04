#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from catalogue.py."""
import json, os
from catalogue import PROPS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.abspath(__file__))


def row(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
    if p["observe"]:
        a["observe_at"] = p["observe"]
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    a["hook_needed"] = None
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in list(PROPS.values()) + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(row(p)) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']}", "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in PROPS.values()],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
     "notes": "No hooks in /repo: SCIP, the clock, the heap, the disk, uuid/random and the scheduler are replaced from outside. The tier is read from VERIF_TIER, the seed from VERIF_SEED. Replay a violation with: python3 check.py replay FILE"}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "checks,", len(NOT_APPLICABLE), "not applicable")

# the table of planted bugs in DESIGN.md
import re
sd, md = f"{HERE}/seeded", f"{HERE}/DESIGN.md"
if os.path.isdir(sd):
    rows = []
    for b in sorted(os.listdir(sd)):
        with open(f"{sd}/{b}/meta.json") as f:
            j = json.load(f)
        rows.append((j["property"], f"| `{b}` | {j['property']} | {j['needs']} |\n"))
    with open(md) as f:
        text = f.read()
    text = re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: "<!-- bugs -->\n| bug | property | needs |\n|---|---|---|\n" + "".join(r for _, r in sorted(rows)) + "<!-- /bugs -->", text, flags=re.S)
    with open(md, "w") as f:
        f.write(text)
