#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand, output is committed)"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/library/natrium/"


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, state=(), observe=(), na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, state=state,
                observe=observe, na=na)


AI = "abstract interpretation (value numbering in a polynomial domain) of the LLVM IR of the current source"
IR = "structural dataflow rules over the LLVM IR / call graph of the current source"
PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


exec(open(os.path.join(V, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": [L + x if not x.startswith("src/") else x for x in p["files"]], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                            "state": list(p["state"]), "observe_at": list(p["observe"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert len(p["statement"].replace("e.g.", "eg").rstrip(".").split(". ")) <= 3, p["id"]
        if p["technique"]:
            checks.append({"property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"] or ""})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check has been built for this property yet"})
    m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
         "notes": "All checks are static: they compile the current source of /repo to LLVM IR and decide the property from the IR. Nothing of NATriuM is executed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    print("%d properties, %d claimed" % (len(ids), len(checks)))


main()
