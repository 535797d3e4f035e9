#!/usr/bin/env python3
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
from props import P
from checks import CHECKS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                                      state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], observe_at=p["observe"], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="python3 vbuild.py --check-tools",
           checks=[dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                        technique=p["tech"], level=p["level"], level_note=p["note"]) for p in P if p["id"] in CHECKS],
           not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE],
           notes="No hooks in /repo: the machine replaces the MPI and Global Arrays libraries at link time. See DESIGN.md.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(man, s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok", len(P), "properties")
except ImportError:
    pass
