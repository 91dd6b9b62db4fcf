#!/usr/bin/env python3
"""known.py PID 'substring of key' 'what': record the matching violations of the last report as known findings (run by hand, never by a check)"""
import json, sys, re
pid, sub, what = sys.argv[1:4]
p = "/verif/known_findings.json"
k = json.load(open(p))
have = {(f["property"], f["key"]) for f in k["findings"]}
for l in open("/verif/build/reports/%s.txt" % pid):
    l = l.rstrip("\n")
    if "|" in l and not l.startswith(" ") and sub in l and (pid, l) not in have:
        k["findings"].append({"property": pid, "key": l, "what": what})
json.dump(k, open(p, "w"), indent=1)
