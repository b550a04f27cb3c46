#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from one table"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, level, note))


exec(open(os.path.join(V, "tools", "props.py"), encoding="utf-8").read())

for p, _, _, _ in P:
    assert len(p["title"]) <= 80, p["title"]
    assert 1 <= p["statement"].count(". ") + 1 <= 3, (p["id"], p["statement"].count(". ") + 1)
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p, _, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=t, level=l, level_note=n) for p, t, l, n in P]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="The harness (harness/, Go) is rebuilt by every check against /repo's working tree and uses only the exported API of the library; there are no hooks in /repo. KNOWN_FINDINGS.txt lists the open findings and the defects repaired by fix: commits. properties.jsonl and this file are generated by tools/mkmeta.py from tools/props.py.")
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
