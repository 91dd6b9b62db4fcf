#!/usr/bin/env python3
"""mutation run on a scratch copy of the sources: mut.py PID[,PID..] FILE 'old' 'new'  (FILE relative to src/library/natrium)"""
import os
import subprocess
import sys

pids, f, old, new = sys.argv[1:5]
base = "/tmp/mut"
subprocess.check_call(["rsync", "-a", "--delete", os.environ.get("MUT_SRC", "/repo") + "/src", base + "/"])
p = os.path.join(base, "src/library/natrium", f)
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
if old not in s:
    sys.exit("text not found")
open(p, "w").write(s.replace(old, new, 1))
for pid in pids.split(","):
    r = subprocess.run([sys.executable, "checks/run.py", pid], env=dict(os.environ, VP_REPO=base), capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = (r.stdout + r.stderr).strip().splitlines()
    print(pid, "exit", r.returncode, "|", (out[0] if out else "")[:260], "|", (out[-1] if out else "")[:200])
