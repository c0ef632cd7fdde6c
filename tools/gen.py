#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique="", level="exploration", note="", claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe or [], technique=technique, level=level, note=note, claimed=claimed))
exec(open(os.path.join(V, "tools", "props.py")).read())
for p in P:
    if not os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".go")):
        p["claimed"], p["note"] = False, "check not built yet"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bash ./run.sh setup",
    hooks=dict(guard="none: no hook is compiled into /repo", source_commits=[],
      enable="the harness is injected as package internal/zzverif with 'go build -overlay'; faults come in through SQLite triggers and registered SQL functions"),
    checks=[dict(property=p["id"], quick_cmd="bash ./run.sh %s quick" % p["id"], thorough_cmd="bash ./run.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["claimed"]],
    not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["claimed"]])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
