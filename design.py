#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, known_findings.txt, seeded/ and seeded_results.txt."""
import collections, json, os, re
V = os.path.dirname(os.path.abspath(__file__))
rd = lambda f: open(os.path.join(V, f)).read()
fixed = re.findall(r"^fixed: property=(C\d+)", rd("known_findings.txt"), re.M)
per = collections.Counter(fixed)
res = dict(l.split(": ", 1) for l in rd("seeded_results.txt").splitlines() if ": " in l)
rows = ["| planted bug | needs | caught |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), res.get(d, "?")))
t = rd("design.in.md")
t = t.replace("{n_fixed}", str(len(fixed))).replace("{per}", ", ".join("%s %d" % kv for kv in sorted(per.items())))
t = t.replace("{seeded}", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
