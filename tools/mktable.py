#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md from evidence/*.json (a quick run of all checks) and seeded/*/meta.json."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = ["| property | scenarios (bound) | states | transitions | comparisons | s |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/evidence/*.json")):
    e = json.load(open(f)); c = e["coverage"]
    s = "; ".join("%s (%s)" % (x["name"], "fixpoint" if "fixpoint" in x["ended"] else "depth %d" % x["depth_completed"]) for x in c["scenarios"])
    t.append("| %s | %s | %d | %d | %d | %.0f |" % (e["property"], s, c["states"], c["transitions"], c["comparisons"], e["wall_s"]))
b = ["| change | property | what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    b.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(<!-- table: .*? -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(t) + "\n" + m[2], s, flags=re.S)
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- endseeds -->)", lambda m: m[1] + "\n".join(b) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
