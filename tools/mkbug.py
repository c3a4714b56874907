#!/usr/bin/env python3
"""Write a planted bug: mkbug.py SPEC.py  (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO, SHIM=False). Development only."""
import json, os, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
repo = "/repo"
assert not subprocess.check_output(["git", "-C", repo, "status", "--porcelain"]).strip()
try:
    for f, old, new in ns["EDITS"]:
        p = os.path.join(repo, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", repo, "diff"])
finally:
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
extra = ""
if ns.get("SHIM"):
    shutil.rmtree(d + "/stub", ignore_errors=True)
    shutil.copytree("/verif/sim/shim", d + "/stub", ignore=shutil.ignore_patterns("__pycache__"))
    extra = ":$d/stub"
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; run with cwd at the repository
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD%s" OMP_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
t=$(mktemp -d)
(cd "$t" && timeout 200 /opt/venv/bin/python "$d/demo.py")
rc=$?
rm -rf "$t"
exit $rc
""" % extra)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print("wrote", d)
