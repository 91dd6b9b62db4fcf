#!/usr/bin/env python3
"""run.py <property> : decide one property statically on /repo's current tree"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import common  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    here = os.path.dirname(os.path.abspath(__file__))
    table = {}
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and f not in ("common.py", "run.py"):
            text = open(os.path.join(here, f)).read()
            if '"%s":' % pid in text:
                mod = importlib.import_module(f[:-3])
                table.update(getattr(mod, "RUN", {}))
    if pid not in table:
        print("no check for " + pid)
        sys.exit(2)
    common.main(pid, table[pid])
