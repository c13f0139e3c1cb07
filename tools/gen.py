"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import propdefs
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in sorted(propdefs.PROPS, key=lambda x: x[0]["id"]):
        f.write(json.dumps(d) + "\n")
    for d in propdefs.NA_PROPS:
        f.write(json.dumps(d[0]) + "\n")
checks = []
for d, c in sorted(propdefs.PROPS, key=lambda x: x[0]["id"]):
    c = dict(c)
    c["quick_cmd"] = "python3 check.py %s quick" % c["property"]
    c["thorough_cmd"] = "python3 check.py %s thorough" % c["property"]
    checks.append(c)
m = dict(version=1, setup_cmd="python3 sa/facts.py", checks=checks,
         not_applicable=[dict(property=d["id"], reason=r) for d, r in propdefs.NA_PROPS],
         notes="Static analysis only: check.py interprets the MIR of /repo's current tree abstractly. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
sys.path.insert(0, os.path.join(V, "sa"))
import registry
t = open(os.path.join(HERE, "DESIGN.in.md")).read()
ps = []
for d, c in sorted(propdefs.PROPS, key=lambda x: x[0]["id"]):
    r = registry.PROPS[d["id"]]
    ps.append("### %s %s\n%s\n\n*Over*: %s. *Tests cannot*: %s\n\n*Decided by* (%s; level `%s`): %s%s\n\n*Fails if it examines fewer than*: %s.\n" % (
        d["id"], d["title"], d["statement"], d["quantifier"]["text"], d["why_tests_cant"], c["technique"], c["level"], r["explain"],
        (" " + propdefs.DESIGN[d["id"]]) if d["id"] in propdefs.DESIGN else "",
        ", ".join("%d %s" % (n, k.replace("_", " ")) for k, n in r["floors"].items()) or "(no floor)"))
na = ["* **%s** %s: %s" % (d["id"], d["title"], r) for d, r in propdefs.NA_PROPS]
bugs = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
S = os.path.join(V, "seeded")
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    bugs.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], propdefs.CAUGHT.get(b, m["property"])))
t = t.replace("@PROPS@", "\n".join(ps)).replace("@NA@", "\n".join(na)).replace("@BUGS@", "\n".join(bugs))
t = t.replace("@FALSE@", propdefs.FALSE_ALARMS).replace("@LIMITS@", propdefs.LIMITS)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
