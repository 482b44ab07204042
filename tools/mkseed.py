#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> : reads OLD / NEW / NEEDS / BREAKS / DEMO sections from stdin, makes seeded/<id>/ and tests it.

Sections start with a line '@@ NAME'; OLD/NEW pairs may repeat (optionally '@@ FILE path' before them).
"""
import json, os, re, subprocess, sys, shutil, tempfile
sid, prop, path = sys.argv[1:4]
sec, cur = [], None
for line in sys.stdin.read().split("\n"):
    if line.startswith("@@ "):
        cur = [line[3:].strip(), []]
        sec.append(cur)
    elif cur:
        cur[1].append(line)
get = lambda n: [("\n".join(b)).strip("\n") for a, b in sec if a == n]
d = "/tmp/seedwork"
shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", d])
old = None
for a, b in sec:
    b = "\n".join(b).strip("\n")
    if a.startswith("FILE"):
        path = a[5:].strip()
    elif a == "OLD":
        old = b
    elif a == "NEW":
        s = open(os.path.join(d, path)).read()
        if s.count(old) != 1:
            sys.exit("OLD occurs %d times in %s: %r" % (s.count(old), path, old))
        open(os.path.join(d, path), "w").write(s.replace(old, b))
diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
out = "/verif/seeded/" + sid
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(diff)
demo = get("DEMO")[0]
open(out + "/demo.py", "w").write(demo + "\n")
open(out + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nunset TF_DETERMINISTIC_OPS\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
                                  'export PYTHONPATH=$PYTHONPATH:$(pwd) PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3\nexec $PY "$HERE/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": get("NEEDS")[0], "what_it_breaks": get("BREAKS")[0]}, open(out + "/meta.json", "w"), indent=1)
lay = tempfile.mkdtemp()
for f in ("demo.py", "demo.sh"):
    shutil.copy(out + "/" + f, lay)
r0 = subprocess.run(["bash", lay + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
r1 = subprocess.run(["bash", lay + "/demo.sh"], cwd=d, capture_output=True, text=True)
print("demo clean rc", r0.returncode, "patched rc", r1.returncode)
if r0.returncode: print(r0.stdout[-1500:], r0.stderr[-2500:])
print("patched:", (r1.stdout + r1.stderr).strip().splitlines()[-1:])
shutil.rmtree(lay); shutil.rmtree(d, ignore_errors=True)
