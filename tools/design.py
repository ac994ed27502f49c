#!/usr/bin/env python3
"""Regenerates DESIGN.md from its parts: tools/design_head.md, checks.py, properties.jsonl, tools/oracles.py, known_findings.jsonl, tools/plants.md, tools/design_tail.md"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + "/tools"]
from checks import CHECKS
from oracles import O
P = {json.loads(l)["id"]: json.loads(l) for l in open(R + "/properties.jsonl")}
rd = lambda n: open(R + "/tools/" + n).read()
out = rd("design_head.md")
for k in sorted(CHECKS):
    h = CHECKS[k]["harness"][0]
    out += "### %s %s\n\n`harness/%s`: %s.\nOracle: %s.\nBounds: %s.\n\n" % (k, P[k]["title"], h, *O[k], CHECKS[k]["bounds"])
out += rd("design_tail.md").replace("@FIXES@", "\n".join("* " + json.loads(l)["text"] for l in open(R + "/known_findings.jsonl"))).replace("@PLANTS@", rd("plants.md"))
open(R + "/DESIGN.md", "w").write(out)
