#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, D, E, O, X, U, C = "readability.go", "domparser.go", "readerable.go", "options.go", "regexps.go", "util.go", "cmd/readability/main.go"

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note, state=state, observe=observe, na=na))

ENUM = "bounded exhaustive enumeration of executions of the real code"
exec(open(os.path.join(HERE, "tools", "props.py")).read())

import glob, re
BUILT = {x for f in glob.glob(os.path.join(HERE, "mc", "*.go")) for x in re.findall(r'register\(&Prop\{ID: "(C\d+)"', open(f).read())}
for p in P:
    if p["id"] not in BUILT:
        p["na"] = WIP

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["observe_at"] = p["observe"] or ["New", "Parse", "Result"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"],
                        "quick_cmd": "bash run.sh check %s quick" % p["id"],
                        "thorough_cmd": "bash run.sh check %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
