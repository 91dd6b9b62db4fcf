"""Shared runner of the checks: obligations, evidence, known findings, verdict lines."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))

import absint  # noqa: E402
import build  # noqa: E402
import models  # noqa: E402
import poly as A  # noqa: E402


class Broken(Exception):
    """the analysis itself cannot give an answer (anchor vanished, unsupported construct, ...)"""


class Check:
    def __init__(self, pid, tier=None):
        self.id = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.ok = 0
        self.fail = []
        self.rules = {}
        self.samples = []
        self.functions = set()
        self.units = set()
        self.notes = []
        self.assume = []
        self.extra = {}
        self.floors = []
        self.errs = []
        self.approx = {}
        self.unknown = {}

    # ---- obligations -------------------------------------------------------
    def ob(self, rule, key, ok, where="", msg=""):
        """one obligation of `rule`; `key` identifies the instance independently of line numbers"""
        n = self.rules.setdefault(rule, [0, 0])
        n[0] += 1
        if ok:
            n[1] += 1
            self.ok += 1
            if len(self.samples) < 40 and n[0] <= 4:
                self.samples.append("%s: %s%s" % (rule, key, " @ " + where if where else ""))
        else:
            self.fail.append({"rule": rule, "key": "%s|%s" % (rule, key), "where": where, "msg": msg})
        return ok

    def floor(self, rule, n):
        """the rule must have at least n instances (confirmed by hand on the reference tree)"""
        self.floors.append((rule, n))

    def count(self, rule):
        return self.rules.get(rule, [0, 0])[0]

    def use(self, interp):
        """account for what an interpreter run visited"""
        for n in interp.visited:
            f = interp.m.funcs[n]
            if f.file and "/natrium/" in f.file:
                self.functions.add(f.d)
                self.units.add(f.file.split("/src/library/")[-1])
        for a in interp.approx:
            self.approx[a] = self.approx.get(a, 0) + 1
        for k, v in interp.unknown_calls.items():
            self.unknown[k] = self.unknown.get(k, 0) + v

    # ---- verdict -------------------------------------------------------------
    def finish(self):
        known = load_known(self.id)
        keys = {k["key"]: k for k in known}
        new = [f for f in self.fail if f["key"] not in keys]
        # an analysis that got stuck somewhere is no answer, but it does not take back violations found elsewhere
        if not new:
            if self.errs:
                raise Broken(self.errs[0])
            for rule, n in self.floors:
                if self.count(rule) < n:
                    raise Broken("rule '%s' found %d instances, at least %d are expected" % (rule, self.count(rule), n))
            if not self.rules:
                raise Broken("no rule instance was analysed")
        seen = [f for f in self.fail if f["key"] in keys]
        cov = {
            "explanation": "Static analysis of the current source: LLVM IR of the library compiled from /repo, abstract interpretation "
                           "(value numbering in a polynomial domain, branches joined at post-dominators) and structural IR rules. Nothing is executed.",
            "obligations": self.ok + len(self.fail), "discharged": self.ok,
            "rules": {r: {"instances": n[0], "held": n[1]} for r, n in sorted(self.rules.items())},
            "functions_analysed": len(self.functions), "functions": sorted(self.functions)[:400], "files_analysed": sorted(self.units),
            "samples": self.samples,
            "known_findings_seen": [f["key"] for f in seen],
        }
        if self.approx:
            cov["loops_of_unknown_length"] = sorted("%s @ %s" % a for a in self.approx)[:60]
        if self.unknown:
            cov["uninterpreted_calls"] = sorted(self.unknown)[:80]
        cov.update(self.extra)
        ev = {"property": self.id, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for f in seen:
            print("KNOWN-FINDING: property=%s %s (%s) %s" % (self.id, f["key"], f["where"], keys[f["key"]].get("what", f["msg"])))
        if new:
            rd = os.path.join(VERIF, "build", "reports")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.id + ".txt")
            with open(p, "w") as o:
                for f in new:
                    o.write("%s\n  at %s\n  %s\n" % (f["key"], f["where"], f["msg"]))
            for f in new[:15]:
                print("  violated: %s at %s -- %s" % (f["key"], f["where"], f["msg"][:400]))
            if len(new) > 15:
                print("  ... %d more, see %s" % (len(new) - 15, p))
            print("VIOLATION property=%s replay=%s" % (self.id, p))
            return 1
        print("%s: %d obligations, %d discharged, %d known findings (%.1f s)" % (self.id, self.ok + len(self.fail), self.ok, len(seen), time.time() - self.t0))
        return 0


ERRORS = (Broken, absint.AnalysisError, build.BuildError, OverflowError, KeyError, IndexError, TypeError, ValueError, RecursionError, AttributeError, ZeroDivisionError, AssertionError)


def _child(a):
    fn, item, pid, tier = a
    C = Check(pid, tier)
    err = None
    A.STATS.update(canonical=0, points=0)
    A.BUDGET[:] = [3.0, 20.0] if tier == "quick" else [60.0, 500.0]
    try:
        fn(C, item)
    except ERRORS as e:
        err = "%s: %s: %s\n%s" % (item, type(e).__name__, e, traceback.format_exc()[-1500:])
    return C.ok, C.fail, C.rules, C.samples, C.functions, C.units, C.approx, C.unknown, C.assume, dict(C.extra, _stats=dict(A.STATS)), err


def pmap(C, fn, items, jobs=8):
    """fn(check, item) for every item in forked workers; the obligations are merged into C in item order"""
    import multiprocessing as mp
    items = list(items)
    with mp.get_context("fork").Pool(min(jobs, len(items) or 1), maxtasksperchild=4) as pool:
        res = pool.map(_child, [(fn, i, C.id, C.tier) for i in items], 1)
    errs = []
    for ok, fail, rules, samples, fns, units, approx, unknown, assume, extra, err in res:
        C.ok += ok
        C.fail += fail
        for r, n in rules.items():
            x = C.rules.setdefault(r, [0, 0])
            x[0] += n[0]
            x[1] += n[1]
        C.samples = (C.samples + samples)[:60]
        C.functions |= fns
        C.units |= units
        for d, e in ((C.approx, approx), (C.unknown, unknown)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        for a in assume:
            if a not in C.assume:
                C.assume.append(a)
        st = extra.pop("_stats")
        for k in st:
            C.extra["identities_" + k] = C.extra.get("identities_" + k, 0) + st[k]
        for k, v in extra.items():
            if isinstance(v, list):
                C.extra[k] = C.extra.get(k, []) + v
            else:
                C.extra[k] = v
        if err:
            errs.append(err)
    if errs:
        C.errs.append("%d of %d analyses gave no answer; first: %s" % (len(errs), len(items), errs[0]))


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def main(pid, fn):
    C = Check(pid)
    try:
        try:
            fn(C)
        except ERRORS as e:
            if not C.fail:
                raise
            C.errs.append(traceback.format_exc())
        rc = C.finish()
    except ERRORS as e:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s %s: %s" % (pid, type(e).__name__, e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


# ---- helpers ---------------------------------------------------------------------
_mods = {}


def module(probe, roots="^probe_", stop=None, extra_stop="", **kw):
    """the IR of a probe (and of everything it reaches) from the current tree"""
    build.tools()
    stop = stop or models.BASE_RE
    if extra_stop:
        stop = stop + "|" + extra_stop
    p = build.dump(os.path.join(VERIF, "probes", probe), roots, stop, **kw)
    m = _mods.get(p)
    if m is None:
        m = _mods[p] = absint.Module(p)
    return m


def interp(m, extra=()):
    A.reset()
    absint.Interp.throws = []
    d = getattr(m, "dim", 2)
    I = absint.Interp(m, [(r.replace("2ul", "%dul" % d), f) for r, f in extra] + models.BASE)
    I.throws = []
    return I


class Tagged:
    """the same check for another instantiation: obligation keys get a prefix"""

    def __init__(self, C, tag):
        self.__dict__.update(C=C, tag=tag)

    def ob(self, rule, key, ok, where="", msg=""):
        return self.C.ob(rule, self.tag + key, ok, where, msg)

    def __getattr__(self, n):
        return getattr(self.C, n)

    def __setattr__(self, n, v):
        setattr(self.C, n, v)


def dims(f):
    """run f(C, dim) for the two-dimensional and the three-dimensional instantiation"""
    def g(C):
        f(C, 2)
        f(Tagged(C, "3D "), 3)
    return g


def src(F):
    return "%s:%s (%s)" % ((F.file or "?").replace(build.REPO + "/", ""), F.line, F.d[:120])


def getd(st, rid, k):
    s = st.region(rid).d.get(8 * k)
    if s is None:
        raise Broken("output slot %d of %s was not written" % (k, rid))
    v = s[1]
    if type(v) is int:
        v = absint.Interp.bits2d(None, v)
    return v


def num(x, what="value"):
    if not A.isnum(x):
        raise Broken("%s is not a constant: %s" % (what, A.show(x)))
    return float(x)


def coef(x, e):
    """coefficient of s^e when x is exactly c*s^e; None otherwise"""
    if A.isnum(x):
        return float(x) if (x == 0 or e == 0) else None
    if len(x.t) != 1:
        return None
    (m, c), = x.t.items()
    if len(m) == 1 and m[0][1] == e and A.AT.atoms[m[0][0]].name == "s":
        return c
    return None
