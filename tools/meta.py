#!/usr/bin/env python3
"""The one place where properties are worded: writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/HybridSolver/main/"
BB, BBH = M + "algorithms/branch_and_bound.c", M + "algorithms/branch_and_bound.h"
DS = M + "data_structures/"
RD = M + "tsp_instance_reader.c"
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=(), hook=None):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                    mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)),
                  tech, note))
    assert len(title) <= 80, (id, len(title))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(VERIF, "tools", "props.py"), encoding="utf-8").read())

with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p, _, _ in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
nas = {n["property"] for n in NA}
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                    evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n)
               for p, t, n in PROPS if p["id"] not in nas],
    "not_applicable": NA,
    "notes": "Every check copies /repo's current sources into a scratch directory below /verif/_build, compiles them unmodified (only "
             "compile-time settings, -Dmain=, -Dclock= and, where named, allocation wrappers are set from the command line) and removes "
             "the directory afterwards. No hooks are added to /repo. VF_REPO points run.py at another tree, --replay re-runs a saved case.",
}, open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties,", len(NA), "not applicable")
