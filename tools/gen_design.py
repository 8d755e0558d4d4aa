#!/usr/bin/env python3
"""Writes DESIGN.md."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from design_notes import NOTES
fixed = json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module("props." + i)
    how, domain = NOTES.get(i, ("", ""))
    ev = {}
    f = os.path.join(HERE, "tools", "times.json")
    if os.path.exists(f):
        ev = json.load(open(f))
    out.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    out.append("* Technique: %s" % getattr(m, "TECHNIQUE", "online reference-model monitor over recorded events of the real firmware under seeded stress workloads"))
    if how:
        out.append("* Oracle: " + how)
    out.append("* Workload: " + m.RULE)
    out.append("* Strength: " + m.LEVEL_NOTE)
    if domain:
        out.append("* Domain and limits: " + domain)
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append("* Assumption: " + a)
    t = ev.get(i)
    out.append("* Bounds and cost: %d cases quick%s, %d thorough; must observe per 1000 cases: %s" % (
        m.CASES["quick"], " (about %d s on 8 cores)" % t if t else "", m.CASES["thorough"], ", ".join("%s %s" % (k, v) for k, v in m.FLOORS.items())))
    fx = [x.split(" ", 2)[2] for x in fixed if x.split(" ")[1] == "property=" + i]
    for x in fx:
        h, _, d = x.partition(" ")
        out.append("* Repaired defect (%s): %s" % (h, d))
    out.append("")
c = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(c):
    out.append("## Planted bugs and the checks which catch them\n")
    for k, v in sorted(json.load(open(c)).items()):
        out.append("* %s: %s — %s" % (k, v["what"], "caught by " + ", ".join(v["caught"]) if v["caught"] else "not caught (%s)" % v.get("why", "")))
    out.append("")
n = os.path.join(HERE, "tools", "design_tail.md")
if os.path.exists(n):
    out.append(open(n).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
