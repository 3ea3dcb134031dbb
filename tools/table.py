#!/usr/bin/env python3
# Writes section 6 of DESIGN.md from the evidence files of the last quick runs.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = sys.argv[1] if len(sys.argv) > 1 else os.path.join(V, "evidence")
out = ["| property | scenario | bound | executions | steps | complete | exploration |", "|---|---|---|---|---|---|---|"]
tot = [0, 0, 0]
for i in range(1, 36):
    f = os.path.join(E, "C%02d.json" % i)
    if not os.path.exists(f): continue
    for s in json.load(open(f))["coverage"]["scenarios"]:
        tot[0] += 1; tot[1] += s["executions"]; tot[2] += s["steps"]
        out.append("| C%02d | %s | %s | %d | %.3g | %s | %s |" % (i, s["scenario"], s["bound_completed"], s["executions"], s["steps"], "yes" if s["exhaustive"] else "to bound", s["exploration"].split(",")[0]))
p = os.path.join(V, "DESIGN.md")
d = open(p).read()
a, b = d.index("<!-- TABLE -->"), d.index("<!-- /TABLE -->")
d = d[:a] + "<!-- TABLE -->\n%d scenarios, %d executions, %.3g scheduling steps in one quick run of everything (60 s per check, 8 cores).\n\n" % tuple(tot) + "\n".join(out) + "\n" + d[b:]
open(p, "w").write(d)
