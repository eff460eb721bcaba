#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl and MANIFEST.json (a check is claimed when checks/<id>.py exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level_note, state=None, observe=None, level="other"):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, " ".join(level_note.split()), level))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, None, "")
    NA.append({"property": id, "reason": " ".join(reason.split())})


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": list(NA)}
done = {x["property"] for x in NA}
for d, tech, note, level in P:
    i = d["id"]
    if i in done:
        continue
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        cmd = "python3 checks/%s.py" % i.lower()
        man["checks"].append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                              "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        man["not_applicable"].append({"property": i, "reason": "the check for this property is not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties;", len(man["checks"]), "claimed")
