#!/usr/bin/env python3
# Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, claim=True, level="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], observe=observe, claim=claim, level=level, note=note, na=na))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in P:
    if not p["claim"]: continue
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
        technique=TECH, level=p["level"] or LEVEL, level_note=p["note"] or NOTE))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hooks: the checks rewrite a scratch copy of /repo's current sources", source_commits=[]),
    checks=checks, not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["claim"]], notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
