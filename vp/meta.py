#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the compiler's MIR of the real code, decided by a SAT/SMT solver (Kani -> CBMC), counterexamples replayed natively"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=" ".join(p["statement"].split()),
            quantifier=dict(over=p["over"], text=" ".join(p["q"].split())), why_tests_cant=" ".join(p["why"].split()),
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 vp/setup.py",
    checks=[dict(property=p["id"], quick_cmd="python3 vp/run.py %s --tier quick" % p["id"],
        thorough_cmd="python3 vp/run.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique=TECH, level="other", level_note=" ".join(p["level"].split())) for p in PROPS if "na" not in p],
    not_applicable=[dict(property=p["id"], reason=" ".join(p["na"].split())) for p in PROPS if "na" in p])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
