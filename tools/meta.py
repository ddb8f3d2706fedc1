#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py  rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []

def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None, na=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: p["anchors"]["observe_at"] = observe
    if state: p["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    PROPS.append(p)
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd="./check %s" % id, thorough_cmd="./check %s --tier thorough" % id, technique=technique,
                           level="model_checking", level_note=note))

exec(open(os.path.join(HERE, "tools", "props.py")).read())
PROPS.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda c: c["property"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="./check --build-all",
         hooks=dict(guard="none", enable="no hooks: the harnesses compile /repo's sources unchanged", source_commits=[]),
         checks=CHECKS, not_applicable=NA,
         notes="Every check rebuilds /repo's sources of the working tree with ninja (build/, git-ignored) and enumerates a bounded space on the real code. ./check <ID> --replay <file> re-runs one violating case.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    for p in PROPS: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(PROPS), "properties", len(CHECKS), "checks")
except ImportError:
    print("written (not validated)")
