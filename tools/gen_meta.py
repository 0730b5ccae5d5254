"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py and the harnesses present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS

NA = {}
TECH = ("symbolic execution of the repository's current source (path-complete re-execution with solver variables for inputs, layouts and random draws); "
        "each assertion decided by z3 over all values within the bounds; counterexamples replayed on the real package")
checks, na = [], []
for q in PROPS:
    i = q["id"]
    if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           technique=TECH, level="model_checking",
                           level_note=q["note"] or "bounded: exhaustive over all values within the sizes listed in the evidence file; real arithmetic stands in for floating point",
                           evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in PROPS:
        a = dict(files=q["files"], mechanism=[dict(name=m, where=q["files"][0] if len(q["files"]) == 1 else " or ".join(q["files"])) for m in q["mechanism"]])
        if q["observe"]:
            a["observe_at"] = [o.strip() for o in q["observe"].split(",")]
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                                quantifier=dict(over=q["over"], text=q["quant"]), why_tests_cant=q["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="check.sh runs sx.run; see DESIGN.md. Replay of a violation: tools/replay.sh <file>.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
