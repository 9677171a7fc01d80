#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import props  # noqa
import specs  # noqa

TECH = ("symbolic execution of the LLVM IR of /repo's current sources with an SMT solver (z3) deciding every "
        "obligation; counterexamples replayed on the natively compiled code")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=sorted(set(w.split(":")[0] for _, w in p["where"])),
                         mechanism=[dict(name=n, where=w) for n, w in p["where"]]))) + "\n")

checks = []
for p in props.PROPS:
    if p["id"] not in specs.PROPS:
        assert p.get("na"), p["id"]
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 /verif/check.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="model_checking",
                       level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 /verif/check.py --setup", checks=checks,
         hooks=dict(guard="MOCC_VERIF_HOOKS", enable="no hooks are used; the define guards nothing",
                    source_commits=[]),
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in props.PROPS if p.get("na")],
         notes=props.NOTES)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
