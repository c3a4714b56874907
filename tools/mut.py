#!/usr/bin/env python3
"""mut.py PID[,PID] FILE OLD NEW: apply a textual change to /repo, run the checks, undo (development only)."""
import subprocess, sys
pids, f, old, new = sys.argv[1:5]
p = "/repo/" + f
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip()
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
assert old in s, "not found"
open(p, "w").write(s.replace(old, new, 1))
try:
    for pid in pids.split(","):
        r = subprocess.run(["/verif/check.sh", pid, "--no-evidence"] + sys.argv[5:], capture_output=True, text=True)
        print("\n".join(x[:500] for x in (r.stdout + r.stderr).splitlines()[-3:]), "rc", r.returncode)
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
