#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, specs.py, properties.jsonl and tools/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from specs import SPECS
D = json.load(open(V + "/tools/design_props.json", encoding="utf-8"))
o = open(V + "/tools/design_head.md", encoding="utf-8").read().rstrip() + "\n\n## Properties\n\n"
for l in open(V + "/properties.jsonl", encoding="utf-8"):
    p = json.loads(l); i = p["id"]; s = SPECS[i]; d = D[i]
    o += "### %s %s\n\n" % (i, p["title"])
    o += "- **Explored:** %s.\n" % s["bounds"][0]
    o += "- **Thorough:** %s.\n" % s["bounds"][1]
    o += "- **Observed and compared:** %s\n" % d["oracle"]
    o += "- **Out of reach of tests:** %s\n" % p["why_tests_cant"]
    if s.get("assumptions"): o += "- **Assumes:** %s.\n" % "; ".join(s["assumptions"])
    if s.get("trust"): o += "- **Trusts:** %s.\n" % "; ".join(s["trust"])
    o += "- **Cost (quick, 8 cores):** %s.\n\n" % d["cost"]
o += open(V + "/tools/design_tail.md", encoding="utf-8").read()
open(V + "/DESIGN.md", "w", encoding="utf-8").write(o)
