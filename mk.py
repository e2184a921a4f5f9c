#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, level_note, technique="contract-based deductive verification (govc: go/ssa to SMT)", level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, tech=technique, level=level))
def na(id, reason):
    NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(here, "properties.py")).read())
nas = {n["property"] for n in NA}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"])), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash build.sh", checks=[], not_applicable=NA,
    notes="Specifications are overlaid on /repo's current tree from /verif/specs; no hook is committed in /repo.")
for p in P:
    if p["id"] in nas:
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"], technique=p["tech"], level=p["level"], level_note=p["note"]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
