#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["quant"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["obs"], "hook_needed": None}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                 "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["tech"], "level": "model_checking", "level_note": p["note"]} for p in PROPS if p["id"] not in NA],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: everything is driven through the che command and the C code it generates. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
# DESIGN.md
def sec(p):
    return "\n### %s: %s\n\n%s\n\n- Anchors: %s\n- Enumerated: %s\n- Decided by: %s\n- Observed: %s\n- Beyond tests: %s\n- Trust and limits: %s\n" % (
        p["id"], p["title"], p["statement"], "; ".join("%s (%s)" % (b, a) for a, b in p["mech"]), p["quant"], p["tech"], ", ".join(p["obs"]), p["why"], p["note"])
import glob, re
T = open(V + "/tools/design.md").read()
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    if not os.path.exists(d + "/meta.json"): continue
    j = json.load(open(d + "/meta.json")); rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), j["property"], j["needs"].replace("|", "\\|"), j.get("caught_by", j["property"])))
camp = open(V + "/tools/campaign.md").read() if os.path.exists(V + "/tools/campaign.md") else ""
nf = len(re.findall(r"^fixed:", open(V + "/known_findings.txt").read(), re.M))
T = T.replace("@@PROPERTIES@@", "".join(sec(p) for p in sorted(PROPS, key=lambda p: p["id"]))).replace("@@NFIXED@@", str(nf)).replace("@@SEEDED@@", "\n".join(rows)).replace("@@CAMPAIGN@@", camp)
open(V + "/DESIGN.md", "w").write(T)
