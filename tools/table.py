#!/usr/bin/env python3
"""Prints the per-property section of DESIGN.md from properties.jsonl, MANIFEST.json and the checks' own rules."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
print("## How each property is decided\n")
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    m = __import__(p["id"].lower())
    print("### %s %s\n" % (p["id"], p["title"]))
    print("*Monitored and against what:* %s\n" % m.RULE)
    print("*Why tests cannot:* %s\n" % p["why_tests_cant"])
    print("*Builds:* %s.  *Cases:* %d quick, %d thorough.  *Bounds:* %s.\n" % (
        ", ".join(k + ("/" + v if v else "") for k, v in m.BUILDS), m.COUNT["quick"], m.COUNT["thorough"],
        "; ".join(getattr(m, "ASSUMES", [])) or "the generators' sizes"))
