#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/statements.py and lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
from statements import S
from registry import PROPS
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in S:
        r = S[k]["rec"]
        assert len(r["title"]) <= 80, (k, len(r["title"]))
        f.write(json.dumps(r) + "\n")
checks = []
for k in S:
    if k not in PROPS:
        NA.setdefault(k, "check not built yet")
        continue
    checks.append({"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % k,
                   "evidence_file": "evidence/%s.json" % k,
                   "technique": "runtime monitoring: " + S[k]["technique"], "level": "exploration",
                   "level_note": S[k]["note"]})
assert not set(PROPS) - set(S), set(PROPS) - set(S)
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: drivers include the library's headers directly and observe at its API; exit() is redirected at link time (-Wl,--wrap=exit)", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "check.py <ID> builds its drivers from /repo's working tree; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# ---- DESIGN.md
import glob, re
out = []
for k in S:
    r = S[k]["rec"]
    pr = PROPS.get(k)
    out.append("### %s - %s\n" % (k, r["title"]))
    out.append(r["statement"] + "\n")
    if pr:
        b = sorted({d.get("variant", "asan") for d in pr["drivers"]})
        out.append("*Deciding method*: %s. *Observed*: %s. *Driver*: %s; builds: %s. *Why not the tests*: %s. *Workload*: %s." % (
            S[k]["technique"], S[k]["note"], ", ".join(sorted({d.get("src") or d.get("py") + ".py" for d in pr["drivers"]})), ", ".join(b), r["why_tests_cant"], pr["rule"]))
        if pr.get("assumptions"):
            out.append("*Assumptions*: " + "; ".join(pr["assumptions"]) + ".")
    else:
        out.append("*Not applicable*: " + NA.get(k, ""))
    out.append("")
try:
    res = json.load(open(os.path.join(V, "lib", "seeded_results.json")))
except Exception:
    res = {}
tab = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    tab.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), res.get(b, "not run yet")))
fixed = sum(1 for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:"))
d = open(os.path.join(V, "lib", "design.md")).read().replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDED@", "\n".join(tab)).replace("@NFIXED@", str(fixed))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(S), "properties,", len(checks), "checks,", len(NA), "not applicable")
