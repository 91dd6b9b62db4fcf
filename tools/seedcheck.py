#!/usr/bin/env python3
"""runs the check of a planted bug on a scratch copy of the sources: seedcheck.py ID..."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = "/tmp/mut"
for sid in sys.argv[1:]:
    subprocess.check_call(["rsync", "-a", "--delete", "/repo/src", base + "/"])
    d = os.path.join(V, "seeded", sid)
    subprocess.check_call(["patch", "-s", "-p1", "-d", base, "-i", os.path.join(d, "patch.diff")])
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    r = subprocess.run([sys.executable, "checks/run.py", pid], env=dict(os.environ, VP_REPO=base), capture_output=True, text=True, cwd=V)
    out = (r.stdout + r.stderr).strip().splitlines()
    print(sid, "exit", r.returncode, "|", (out[0] if out else "")[:260], "|", (out[-1] if out else "")[:200], flush=True)
