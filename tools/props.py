#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []      # claimed
NA = []     # not applicable

def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        _technique=technique, _note=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, reason)

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["_technique"] is None:
        m["not_applicable"].append(dict(property=p["id"], reason=p["_note"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s" % p["id"],
            thorough_cmd="bash check.sh %s thorough" % p["id"], technique=p["_technique"],
            level="other", level_note=p["_note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
