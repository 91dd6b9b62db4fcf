#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from tools/seedsrc/*.py (each: a list SEEDS of dicts id, property, needs, breaks, edits [(file, old, new)], main, [hdr])"""
import glob
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# compiles main.cpp against the library built from this tree and runs it; exit 0 = the property holds in this instance
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
export NATRIUM_DIR="$PWD" NATRIUM_HOME="$w/home" TMPDIR="$w" OMP_NUM_THREADS=1 DEAL_II_NUM_THREADS=1
export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl=self OMPI_MCA_rmaps_base_oversubscribe=1
mkdir -p "$w/home" "$w/cwd"
cd _build || exit 3
ninja -t commands NATriuM_exe > "$w/cmds" || exit 3
cc=$(grep 'NATriuM_exe.dir/NATriuM.cpp.o -c ' "$w/cmds" | sed 's/ -MD .*//')
ld=$(grep 'NATriuM.cpp.o -o NATriuM_exe ' "$w/cmds" | sed "s#CMakeFiles/NATriuM_exe.dir/NATriuM.cpp.o -o NATriuM_exe#$w/main.o -o $w/main#; s# && :\$# -lboost_filesystem -lboost_program_options#")
bash -c "$cc -w -I'$d' -o '$w/main.o' -c '$d/main.cpp'" || exit 3
bash -c "$ld" || exit 3
cd "$w/cwd" && timeout 120 "$w/main"
rc=$?
[ $rc = 0 ] && echo "demo: holds" || echo "demo: BROKEN (exit $rc)"
exit $rc
'''


def main():
    sel = sys.argv[1:]
    for p in sorted(glob.glob(os.path.join(V, "tools", "seedsrc", "*.py"))):
        g = {}
        exec(compile(open(p).read(), p, "exec"), g)
        for s in g["SEEDS"]:
            if sel and s["id"] not in sel:
                continue
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            patch = ""
            import difflib
            new = {}
            for f, a, b in s["edits"]:
                f = f if f.startswith("src/") else "src/library/natrium/" + f
                o = open(os.path.join("/repo", f), newline="").read()
                cur = new.get(f, (o, o))[1]
                assert cur.count(a) == 1, (s["id"], f, a, cur.count(a))
                new[f] = (o, cur.replace(a, b))
            import tempfile
            with tempfile.TemporaryDirectory() as t:
                for f, (o, n) in new.items():
                    for k, x in (("a", o), ("b", n)):
                        q = os.path.join(t, k, f)
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        open(q, "w", newline="").write(x)
                        shutil.copymode(os.path.join("/repo", f), q)
                    r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True)
                    patch += r.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], check=True)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "main.cpp"), "w").write(s["main"])
            for h, x in s.get("hdr", {}).items():
                open(os.path.join(d, h), "w").write(x)
            import json
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("wrote", s["id"])


main()
