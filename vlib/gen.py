#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k, p in PROPS.items():
        assert len(p["title"]) <= 80, k
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p.get("observe_at"):
            a["observe_at"] = p["observe_at"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
     "checks": [{"property": k, "quick_cmd": "python3 /verif/check.py " + k,
                 "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k, "technique": p["technique"],
                 "level": p["level"], "level_note": p["note"]} for k, p in PROPS.items()],
     "not_applicable": [],
     "notes": "No hooks are needed in /repo: all monitors observe at the library's public interface or in headers the harness includes. Every commit in /repo is a fix."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: the text in design.in.md and design.rest.md, with what is known from the other files put in
def rd(n): return open(os.path.join(V, n)).read()
sec = []
for k, p in PROPS.items():
    q = ["### %s - %s" % (k, p["title"]), "", p["statement"], "",
         "*Workload and monitor* (`harness/%s.cpp`%s): %s" % (p["harness"] if isinstance(p["harness"], str) else "*", ", built with address and undefined-behaviour sanitizers" if p.get("flavour") == "san" else "", p["rule"]),
         "", "*Oracle and trust*: " + " ".join([p["note"]] + [a for a in p["assumptions"] if a not in p["note"]]),
         "", "*Beyond the tests*: " + p["why"], ""]
    sec.append("\n".join(q))
kf = json.loads(rd("known_findings.json"))
fixed = "\n".join("* %s `%s` %s" % tuple(l.split("property=")[1].split(" ", 2)) for l in kf["fixed"])
if kf["findings"]:
    fixed += "\n\nNot repaired (known findings):\n\n" + "\n".join("* %s: %s" % (f["property"], f["what"]) for f in kf["findings"])
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.loads(rd("vlib/caught.json")) if os.path.exists(os.path.join(V, "vlib/caught.json")) else {}
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mm = json.load(open(os.path.join(sd, b, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (b, mm["property"], mm["needs"], caught.get(b, "?")))
t = rd("vlib/design.in.md").replace("@REST@", rd("vlib/design.rest.md")).replace("@PROPERTIES@", "\n".join(sec)).replace("@FIXED@", fixed)
if os.path.isdir(sd):
    open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@SEEDED@", "\n".join(seeds)))
print(len(PROPS), "properties")
