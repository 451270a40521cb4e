#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "sched": "stateless model checking of the real code: every schedule within a preemption or delay bound, under a controlled scheduler with a happens-before race detector",
    "py": "fault injection on the real code: exhaustive enumeration of inputs, answers, crash points and configurations, each run in a process of its own against an independent reference",
}
checks, na = [], []
for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if c:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", TECH.get("py" if "py" in c else c.get("mode"), "explicit-state exhaustive enumeration of bounded configurations and inputs, executed on the real code against an independent reference")),
                           level=c.get("level", "model_checking"),
                           level_note=c.get("note", "Exhaustive within the stated bounds: " + c["space"] + ". Trusts the reference in harness/%s, the compiler and the sanitizer." % (c.get("py") or c["src"][0]))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo. /repo commits starting with fix: repair defects listed in known_findings.txt.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
