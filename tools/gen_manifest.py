#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in props/."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.isfile(os.path.join(HERE, "props", i + ".py")):
        na.append({"property": i, "reason": "no check built for it (yet); not claimed"})
        continue
    m = importlib.import_module("props." + i)
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": getattr(m, "TECHNIQUE", "runtime monitoring: online reference-model monitor over recorded events of the real firmware under seeded stress workloads"),
                   "level": "exploration", "level_note": m.LEVEL_NOTE})
d = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks import the firmware from /repo's working tree on top of recording hardware stand-ins", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check imports the code from /repo's current working tree on every run; nothing is cached between runs."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
