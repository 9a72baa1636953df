#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from registry.py; validate against the schemas."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import CHECKS
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
props, checks, na = [], [], []
for pid, c in sorted(CHECKS.items()):
    props.append(dict(id=pid, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["text"]), why_tests_cant=c["tests"],
                      anchors=dict(files=c["files"], mechanism=c["mech"], state=c["state"], observe_at=c["observe"], hook_needed=None)))
    checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=c["technique"], level="exploration", level_note=c["note"]))
for n in NOT_APPLICABLE:
    props.append(n["prop"])
    na.append(dict(property=n["prop"]["id"], reason=n["reason"]))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library is header-only, every observation is made through its API, the sanitizers and the compilers. Checks compile harness/*.cpp against /repo/include into a temporary directory.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, ps)
        assert p["statement"].count(". ") <= 2, p["id"]
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(props), "properties", len(checks), "checks")
except ImportError:
    print("jsonschema not available (run with python3-vt)")
