#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C12": "model-based property testing (Hypothesis): random trees and query/mutation histories against a tree model",
    "C13": "stateful property testing (Hypothesis): operation histories against a freshly built robot",
    "C10": "property-based differential testing (Hypothesis) of generated MJCF models against the MuJoCo engine",
    "C28": "property-based differential testing (Hypothesis): compiled against eager execution",
    "C29": "property-based fault injection (Hypothesis): malformed variants of valid requests must raise",
    "C08": "property-based testing (Hypothesis): generated URDF documents against the abstract robot they were written from, with metamorphic reordering",
    "C09": "property-based testing (Hypothesis): generated SDF documents against the abstract robot they were written from",
    "C22": "property-based testing (Hypothesis): argument snapshots, call-twice and call-order relations over the public functions",
    "C27": "property-based testing (Hypothesis): batch, order and repetition relations of calls with randomness",
    "C33": "property-based concurrency testing (Hypothesis): generated jobs in threads against the same jobs one after the other",
    "C31": "property-based differential testing (Hypothesis): generated descriptions with geometry against their abstract content and the MuJoCo engine",
    "C30": "property-based round-trip testing (Hypothesis) of generated descriptions",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "pkv", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, "property-based testing (Hypothesis generators, shrinking) against an independent float64 oracle"),
                       "level": "exploration",
                       "level_note": "generated inputs against an explicit oracle; see DESIGN.md for the domain and the bounds of " + i})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Checks import /repo/src as it is (pure Python); no hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
