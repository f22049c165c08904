#!/usr/bin/env python3
"""Rewrites the generated tail of DESIGN.md (planted changes, repairs) from seeded/, seeded_results.json and known_findings.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/gen_design.py from here on -->"
res = json.load(open(os.path.join(V, "seeded_results.json")))
rows = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = res.get(i, {})
    says = r.get("check_says", "")
    fac = sorted(set(re.findall(r"C\d\d-([A-Za-z_ -]+?)-[0-9a-f]{16}", says)) | set(re.findall(r"facet (.*)$", says)))
    seeds = r.get("seeds", {})
    n = "%d of %d seeds" % (sum(v == "caught" for v in seeds.values()), len(seeds)) if seeds else r.get("status", "?").replace("kept, ", "")
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), n + (" (%s)" % ", ".join(fac) if fac else "")))
rows.sort()
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = [MARK, "", "## Planted changes and the checks that catch them", "",
       "Every change is run against the check of its own property; the last column says in how many seeds of the quick tier it was caught since it was",
       "last rechecked, and by which facet.", "", "| property | change | what it breaks | what it needs | caught |", "|---|---|---|---|---|"]
out += ["| %s |" % " | ".join(r) for r in rows]
out += ["", "## Defects found and repaired in /repo", ""] + ["* " + f.replace("fixed: ", "") for f in kf["fixed"]]
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip("\n")
open(p, "w").write(s + "\n\n" + "\n".join(out) + "\n")
