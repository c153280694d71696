#!/usr/bin/env python3
"""Writes DESIGN.md: bin/DESIGN.in.md with what is specified per property (props.py) and the planted bugs."""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS, NOT_APPLICABLE, TRUSTED
out = ["## Properties", "",
       "For each one: what is specified (against which oracle), why this reaches what tests cannot, bounds and cost.", ""]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i, c = p["id"], PROPS.get(p["id"])
    out += ["### %s. %s" % (i, p["title"]), ""]
    if not c:
        out += ["Not claimed: " + NOT_APPLICABLE.get(i, "no check yet"), ""]
        continue
    out += ["* Under contract: " + "; ".join(c["functions"]) + ".",
            "* " + c["note"]]
    if c.get("design"):
        out += ["* " + c["design"]]
    out += ["* Beyond tests: " + p["why_tests_cant"]]
    if c.get("bounded"):
        out += ["* Bounded, not counted as proved: " + "; ".join("`%s`: %s" % b for b in c["bounded"]) + "."]
    a = list(c.get("assumptions", []))
    if a:
        out += ["* Assumed: " + "; ".join(a) + "."]
    if c.get("trusted"):
        out += ["* Trusted: " + "; ".join(c["trusted"]) + "."]
    out += ["* Cost of the quick check: " + c.get("cost", "1 to 3 minutes") + ".", ""]
out += ["Trusted everywhere: " + "; ".join(TRUSTED) + "."]
results = {}
f = os.path.join(ROOT, "bin", "seeds-results.json")
if os.path.exists(f):
    results = json.load(open(f))
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    seeds.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"], results.get(n, "?")))
t = open(os.path.join(ROOT, "bin", "DESIGN.in.md")).read()
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDS@", "\n".join(seeds))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
