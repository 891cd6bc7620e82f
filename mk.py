#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from doc/props.py.  Run by hand after changing it; no check needs it."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "doc"))
from props import P

here = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C04": "explicit enumeration of sample histories on the real filters, relational oracle between histories",
    "C12": "exhaustive enumeration of random generator answers and inputs on the real code, exact reference model",
    "C13": "exhaustive enumeration of random generator answers and inputs on the real code, exact reference model",
    "C14": "exhaustive enumeration of random generator answers and inputs on the real code, exact reference model",
    "C16": "stateless exploration of worker pool schedules (deviation-bounded) plus conformance on real processes",
    "C17": "exhaustive enumeration of random generator answers and inputs on the real code, exact reference model",
    "C27": "explicit enumeration of operation histories of the real objects against a reference model",
    "C28": "explicit enumeration of call histories of the real code, differential oracle",
}
DEF = "stateless bounded-exhaustive exploration of the real code against an executable reference model"
NOTE = ("Every combination of the enumerated choices was executed on the code in /repo and compared with an independent "
        "reference model in plain Python; nothing is claimed outside those alphabets and bounds. Trusts the model, numpy "
        "and the IEEE tolerance stated in DESIGN.md.")
props, checks, na = [], [], []
for pid in sorted(P):
    title, statement, over, text, why, files, mech = P[pid]
    props.append({
        "id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": ["return values of the public functions"], "hook_needed": None},
    })
    if os.path.exists(os.path.join(here, "mc", "checks", pid + ".py")):
        checks.append({
            "property": pid, "quick_cmd": "./run.sh %s quick" % pid, "thorough_cmd": "./run.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid, "technique": TECH.get(pid, DEF), "level": "model_checking", "level_note": NOTE,
        })
    else:
        na.append({"property": pid, "reason": "no check yet"})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: random numbers and worker pools are replaced from outside (mc/rng.py, mc/fakepool.py). See DESIGN.md.",
    }, f, indent=1)
    f.write("\n")
print(len(props), "properties", len(checks), "checks", len(na), "not applicable")
