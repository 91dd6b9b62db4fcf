"""Development self-test of the engine: functions that use the standard library are interpreted and compared with the compiled result."""
import ctypes
import os
import re
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "..", "..", "checks"))
from common import absint, A, build  # noqa: E402
import models  # noqa: E402

src = os.path.join(H, "stdlib.cpp")
names = re.findall(r"^double (t_\w+)\(", open(src).read(), re.M)
with tempfile.TemporaryDirectory() as d:
    so = os.path.join(d, "l.so")
    subprocess.check_call(["g++", "-O0", "-w", "-std=c++17", "-shared", "-fPIC"] + sum([["-isystem", i] for i in build.INC], []) +
                          ["-include", "/opt/vp/compat/dealii_compat.h", src, "-o", so, "-ldeal.ii"], stderr=subprocess.DEVNULL)
    L = ctypes.CDLL(so)
build.tools()
m = absint.Module(build.dump(src, "^t_", stop=models.BASE_RE))
bad = 0
for n in names:
    f = getattr(L, n)
    f.restype, f.argtypes = ctypes.c_double, [ctypes.c_double]
    ref = f(1.5)
    I = absint.Interp(m, list(models.BASE))
    try:
        r = float(I.call(absint.State(), n, [1.5])[1])
    except Exception as e:
        r = "%s: %s" % (type(e).__name__, str(e)[:150])
    ok = isinstance(r, float) and abs(r - ref) < 1e-9
    bad += not ok
    print(n, "ok" if ok else "BAD %s %s %s" % (ref, r, list(I.unknown_calls)[:3]))
sys.exit(bad)
