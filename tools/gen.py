#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and analyser/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "analyser"), os.path.join(V, "tools")]
sys.setrecursionlimit(20000)
import props, meta, rules

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P_ + props.NA:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])), ensure_ascii=False) + "\n")
checks, na = [], [dict(property=p["id"], reason=p["reason"]) for p in props.NA]
for p in props.P_:
    i = p["id"]
    if i in rules.PROPS:
        m = meta.META[i]
        checks.append(dict(property=i, quick_cmd="python3 analyser/run.py %s quick" % i, thorough_cmd="python3 analyser/run.py %s thorough" % i,
                           technique=m["technique"], level=m.get("level", "other"), level_note=m["note"]))
    else:
        na.append(dict(property=i, reason="static rule not built yet"))
json.dump(dict(version=1, setup_cmd="python3 analyser/setup.py", checks=checks, not_applicable=na,
               notes="All checks are static: a rustc driver extracts MIR from /repo's current source, analyser/ decides the obligations from it. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
