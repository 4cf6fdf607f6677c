#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
root = os.path.dirname(here)
HOOKS = json.load(open(os.path.join(here, "hooks.json"))) if os.path.exists(os.path.join(here, "hooks.json")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=["public API"], hook_needed=p["hook"]))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
TECH = "deterministic simulation with fault injection: seeded search over "
m = dict(version=1, setup_cmd="./dst/build.sh")
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']} --tier thorough",
                    evidence_file=f"evidence/{p['id']}.json", technique=p["technique"] or TECH + ", ".join(p["over"]),
                    level=p["level"], level_note=p["note"]) for p in P if not p["na"]]
m["not_applicable"] = [dict(property=p["id"], reason=p["na"]) for p in P if p["na"]]
m["notes"] = "See DESIGN.md. Replay a violation with: dst/target/x86_64-unknown-linux-gnu/debug/dst replay <file>"
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
