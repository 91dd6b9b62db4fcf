"""Build what the analyses need from /repo's current tree: PCH of deal.II, irdump,
bitcode of probe translation units, and the JSON IR dumps.  Everything is cached in
/verif/build keyed by a hash of the inputs (all of /repo/src, the probe, the tools)."""
import fcntl
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18"
COMPAT = "/opt/vp/compat"
INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "/usr/include/petsc",
       "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch", "/usr/include/suitesparse",
       "/usr/include/opencascade", "/usr/include/slepc"]
FLAGS = ["-DNDEBUG"] + sum([["-isystem", i] for i in INC], []) + [
    "-std=c++17", "-w", "-gline-tables-only", "-O1", "-Xclang", "-disable-llvm-passes", "-fdelayed-template-parsing",
    "-D__is_pointer=__nat_is_pointer", "-ferror-limit=5", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def fhash(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).digest()


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "src", "library"),):
            for d, ds, fs in sorted(os.walk(base)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p[len(REPO):].encode())
                    h.update(fhash(p))
        _tree = h.hexdigest()[:20]
    return _tree


def run(cmd, what, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-4000:]))


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def irdump_bin():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    out = os.path.join(BUILD, "irdump-" + sha(fhash(src)))
    if not os.path.exists(out):
        with Lock("irdump"):
            if not os.path.exists(out):
                run([CLANG, "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", out + ".tmp",
                     "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"], "irdump build")
                os.rename(out + ".tmp", out)
    return out


def pch():
    h = sha(" ".join(FLAGS), fhash(COMPAT + "/dealii_compat.h"))
    out = os.path.join(BUILD, "compat-%s.pch" % h)
    if not os.path.exists(out):
        with Lock("pch"):
            if not os.path.exists(out):
                run([CLANG] + FLAGS + ["-I" + REPO + "/src/library", "-x", "c++-header", COMPAT + "/dealii_compat.h", "-o", out + ".tmp"], "PCH")
                os.rename(out + ".tmp", out)
    return out


def tools():
    """irdump and the PCH, in parallel"""
    import threading
    errs = []

    def g(f):
        try:
            f()
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=g, args=(f,)) for f in (irdump_bin, pch)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


def prune(prefix, keep):
    for f in os.listdir(BUILD):
        if f.startswith(prefix) and f not in keep:
            try:
                if time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 600:       # another run may be using it
                    os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass


GEN_SKIP = {"Info.cpp", "ContinuousBoundaryGradient.cpp"}


def gen_headers():
    """one header per library directory that includes every source file the directory has today"""
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    lib = os.path.join(REPO, "src", "library", "natrium")
    for d in sorted(os.listdir(lib)):
        if not os.path.isdir(os.path.join(lib, d)):
            continue
        fs = sorted(f for f in os.listdir(os.path.join(lib, d)) if f.endswith(".cpp") and f not in GEN_SKIP)
        txt = "".join("#include <natrium/%s/%s>\n" % (d, f) for f in fs)
        if d == "stencils":
            txt = "".join("#include <natrium/%s/%s>\n" % (d, f) for f in sorted(os.listdir(os.path.join(lib, d))) if f.endswith(".h")) + txt
        txt = "#include <natrium/utilities/BasicNames.h>\n#include <natrium/utilities/Logging.h>\n" + txt
        p = os.path.join(g, "all_%s.h" % d)
        if not os.path.exists(p) or open(p).read() != txt:
            with open(p + ".tmp%d" % os.getpid(), "w") as f:
                f.write(txt)
            os.rename(p + ".tmp%d" % os.getpid(), p)
    return g


def bitcode(src, extra=()):
    """compile a translation unit (a path) against /repo's current sources"""
    name = os.path.splitext(os.path.basename(src))[0]
    hdr = os.path.join(VERIF, "probes")
    deps = b"".join(fhash(os.path.join(hdr, f)) for f in sorted(os.listdir(hdr)) if f.endswith(".h"))
    h = sha(tree_hash(), fhash(src), deps, " ".join(FLAGS), " ".join(extra))
    out = os.path.join(BUILD, "bc-%s-%s.bc" % (name, h))
    if not os.path.exists(out):
        with Lock("bc-" + name):
            if not os.path.exists(out):
                prune("bc-%s-" % name, ())
                run([CLANG] + FLAGS + ["-I" + REPO + "/src/library", "-I" + gen_headers(), "-I" + os.path.join(VERIF, "probes"), "-include-pch", pch(), "-emit-llvm", "-c",
                     src, "-o", out + ".tmp"] + list(extra), "compiling " + name)
                os.rename(out + ".tmp", out)
    return out


def dump(src, roots, stop="", all_="", extra=(), opt=True):
    bc = bitcode(src, extra)
    name = os.path.splitext(os.path.basename(src))[0]
    h = sha(os.path.basename(bc), roots, stop, all_, fhash(os.path.join(VERIF, "engine", "irdump.cpp")), opt)
    out = os.path.join(BUILD, "ir-%s-%s.json" % (name, h))
    if not os.path.exists(out):
        with Lock("ir-" + name):
            if not os.path.exists(out):
                cmd = [irdump_bin(), bc, out + ".tmp", "--opt", "1" if opt else "0"]
                if all_:
                    cmd += ["--all", all_]
                else:
                    cmd += ["--roots", roots]
                if stop:
                    cmd += ["--stop", stop]
                run(cmd, "irdump " + name)
                os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    t = time.time()
    tools()
    print("tools ready in %.1f s" % (time.time() - t))
