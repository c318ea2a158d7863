#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, man = {}, []
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
for p in PROPS:
    checks[p["id"]] = {"level": "model_checking", "outside": p["outside"], "harnesses": p["harnesses"]}
    man.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": "solver-based: symbolic execution of the real Go code (go/ssa) with z3, native replay of counterexamples",
                "level": "model_checking",
                "level_note": "Bounded: holds for every value within the bounds (" + "; ".join(sorted({h["bounds"] for h in p["harnesses"]})) + "). Outside: " + p["outside"]})
with open(V + "/checks.json", "w") as f:
    json.dump(checks, f, indent=1, ensure_ascii=False); f.write("\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": man,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "No hooks in /repo: harnesses are laid over the tree with go build/packages overlays. See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")

# DESIGN.md: head, one section per property, the fixes, the planted bugs, tail.
out = [open(V + "/tools/design_head.md").read(), "## Properties\n"]
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("Decided by: " + "; ".join("`%s.%s` over %s" % (h["pkg"], h["fn"], h["bounds"]) for h in p["harnesses"]) + ".")
    out.append("Quantified over %s. Tests cannot settle it: %s. Outside the claim: %s.\n" % (p["quantifier"]["text"], p["why_tests_cant"], p["outside"]))
out.append("## Defects found and repaired\n\nEach was found by a check on the pinned tree, shown on the real code, and repaired\nin its own commit; all are in `known_findings.json` as fixed, and suppress nothing.\n")
for k in json.load(open(V + "/known_findings.json")):
    out.append("* %s `%s` (%s): %s" % (k["property"], k["key"], k["commit"][:7], k["what"].split(" ", 3)[3]))
out.append("\n## Planted bugs\n\n`seeded/ID/` has the patch, a demonstration, and what the bug needs. Each is caught by the check of its property.\n")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    out.append("* `%s` (%s): %s. Needs: %s." % (d, m["property"], m["what_it_breaks"], m["needs"]))
out.append("\n" + open(V + "/tools/design_tail.md").read())
with open(V + "/DESIGN.md", "w") as f:
    f.write("\n".join(out))
