"""D01: the container of the distribution functions."""
import re

import common
from common import absint, A, Broken
from absint import Ptr
import models
import models_la as LA
from solver import where, show

STOP = LA.LA_RE + r"|^dealii::"
N = 3
DQ = {"D2Q9": (2, 9), "D3Q13": (3, 13), "D3Q15": (3, 15), "D3Q19": (3, 19), "D3Q21": (3, 21), "D3Q27": (3, 27), "RD3Q27": (3, 27), "D2Q19H": (2, 19), "D2Q25H": (2, 25)}


def mod():
    return common.module("distributions.cpp", extra_stop=STOP, extra=["-fno-access-control"])


def m_minmax(I, st, a, F):
    # the local value is the smallest of all processes; maximum, sum and average belong to other processes as well
    I.event(st, "collective", ("min_max_avg",))
    x = a[1]
    for k, v in enumerate((A.add(x, 1.0), x, 1.0, 0.5)):
        I.store(st, Ptr(a[0].r, a[0].o + 8 * k), v, "d")
    return st, None


class Box:
    """an interpreter with helpers around one container"""

    def __init__(self, m, nodes=N, procs=None):
        self.I = I = common.interp(m, [(r"dealii::Utilities::MPI::min_max_avg\(", m_minmax)] + list(LA.LA))
        I.nodes = nodes
        I.mpi = {"n_mpi_processes": procs} if procs else {}
        self.st = absint.State()
        self.R = lambda n, size=512: Ptr(I.new_region(self.st, n, size), 0)
        self.local, self.relevant = self.R("local"), self.R("relevant")

    def call(self, fn, *a):
        st, r = self.I.call(self.st, "probe_" + fn, list(a))
        if st is None:
            return None
        self.st = st
        return r

    def must(self, fn, *a):
        before = self.st
        r = self.call(fn, *a)
        if self.st is before and r is None:
            raise Broken("probe_%s does not return" % fn)
        return r

    def new(self, dg, Q, mode):
        f = self.call("new", int(dg))
        if mode == "dg":
            self.call("reinit_dg", f, Q, self.local)
        else:
            self.call("reinit", f, Q, self.local, self.relevant, int(dg))
        return f

    def put(self, p, xs):
        rid, v = LA.tv_vals(self.I, self.st, p)
        for k, x in enumerate(xs):
            self.I.store(self.st, Ptr(rid, 8 * k), x, "d")

    def get(self, p):
        return LA.tv_vals(self.I, self.st, p)[1]

    def fill(self, f, Q, name, const=None):
        for i in range(Q):
            self.put(self.call("at", f, i), [A.sym("%s%d_%d" % (name, i, k)) if const is None else const(i, k) for k in range(self.I.nodes)])

    def all(self, f, Q, how="at"):
        return [self.get(self.call(how, f, i)) for i in range(Q)]


def named(name, Q, n=N):
    return [["1*%s%d_%d" % (name, i, k) for k in range(n)] for i in range(Q)]


def txt(vals):
    return [[show(x) for x in r] for r in vals]


# (constructor flag, reinit with ghosts, key)
KINDS = ((True, "dg", "discontinuous"), (False, "ghost", "continuous"), (True, "ghost", "discontinuous, with relevant degrees of freedom"))


def layout(C, m, w):
    for dg, mode, kn in KINDS:
        for Q in (9, 19):
            B = Box(m)
            f = B.new(dg, Q, mode)
            key = "%s, %d populations" % (kn, Q)
            B.call("compress", f)
            C.ob("the container has the announced number of populations", key, B.call("q", f) == Q and B.call("nst", f) == Q - 1, w("reinit"), "size %s, %s moving" % (B.call("q", f), B.call("nst", f)))
            C.ob("the container knows its discretisation", key, bool(B.call("dg", f)) == dg, w("reinit"), "")
            C.ob("all vectors have the local size and start at zero", key, all(r == [0.0] * N for r in B.all(f, Q)), w("reinit"), txt(B.all(f, Q))[:3])
            B.fill(f, Q, "f")
            C.ob("population i is addressed by index i only", key, txt(B.all(f, Q)) == named("f", Q) and txt(B.all(f, Q, "cat")) == named("f", Q), w("at("), "e.g. %s" % txt(B.all(f, Q))[:3])
            C.ob("population 0 rests, the others stream", key, txt([B.get(B.call("f0", f))] + [B.get(B.call("st", f, i)) for i in range(Q - 1)]) == named("f", Q), w("at("), "")
            if dg:
                C.ob("without ghosts the ghosted view is the vector itself", key, all(B.call("atg", f, i) == B.call("at", f, i) == B.call("catg", f, i) for i in range(Q)) and B.call("f0g", f) == B.call("f0", f) and all(B.call("stg", f, i) == B.call("st", f, i) for i in range(Q - 1)), w("atGhosted"), "")
            else:
                old = txt(B.all(f, Q, "atg"))
                C.ob("the ghosted vectors are storage of their own", key, old != named("f", Q) and all(LA.tv_get(B.I, B.st, B.call("atg", f, i))[2] == 1 for i in range(Q)), w("atGhosted"), "")
            for how in ("update", "compress"):
                B.fill(f, Q, how)
                B.call(how, f)
                ok = txt(B.all(f, Q)) == named(how, Q) and txt(B.all(f, Q, "atg")) == named(how, Q) == txt(B.all(f, Q, "catg"))
                ok = ok and txt([B.get(B.call("f0g", f))] + [B.get(B.call("stg", f, i)) for i in range(Q - 1)]) == named(how, Q)
                C.ob("after an update the ghosted view shows the current populations", "%s, %s" % (key, how), ok, w("updateGhosted"), "e.g. %s" % txt(B.all(f, Q, "atg"))[:2])
            C.use(B.I)
            # a second reinitialisation with another size
            B.call(*(("reinit_dg", f, Q + 2, B.local) if mode == "dg" else ("reinit", f, Q + 2, B.local, B.relevant, int(dg))))
            C.ob("reinitialising replaces the layout", key, B.call("q", f) == Q + 2 and B.call("nst", f) == Q + 1 and all(r == [0.0] * N for r in B.all(f, Q + 2)), w("reinit"), "")


def copies(C, m, w):
    for dg, mode, kn in KINDS:
        Q = 9
        for how in ("assignment", "copy", "self"):
            B = Box(m)
            f = B.new(dg, Q, mode)
            B.fill(f, Q, "f")
            B.call("update", f)
            if how == "copy":
                g = B.call("copy", f)
            elif how == "assignment":
                g = B.new(dg, Q, mode)
                B.fill(g, Q, "g")
                B.call("update", g)
                B.call("assign", g, f)
            else:
                B.call("assign", f, f)
                g = f
            key = "%s, %s" % (kn, how)
            C.ob("a copy carries every population, in both views", key, txt(B.all(g, Q)) == named("f", Q) == txt(B.all(g, Q, "atg")) and B.call("q", g) == Q and bool(B.call("dg", g)) == dg, w("operator=("), "e.g. %s" % txt(B.all(g, Q))[:2])
            if how != "self":
                B.fill(f, Q, "h")
                B.call("update", f)
                C.ob("a copy is independent of its source", key, txt(B.all(g, Q)) == named("f", Q) == txt(B.all(g, Q, "atg")), w("operator=("), "")
            C.use(B.I)
        B = Box(m)
        f, g = B.new(dg, Q, mode), B.new(dg, Q, mode)
        B.fill(f, Q, "f")
        B.fill(g, Q, "g")
        B.call("update", g)
        B.call("setf0", g, B.call("f0", f))
        C.ob("replacing the resting population replaces it in both views", kn, txt(B.all(g, Q)) == named("f", 1) + named("g", Q)[1:] == txt(B.all(g, Q, "atg")), w("setF0"), "ghosted: %s" % txt(B.all(g, Q, "atg"))[:2])
        B.call("setst", g, B.call("blk", f))
        C.ob("replacing the streaming populations replaces them in both views", kn, txt(B.all(g, Q)) == named("f", Q) and txt(B.all(g, Q, "atg"))[1:] == named("f", Q)[1:], w("setFStream"), "ghosted: %s" % txt(B.all(g, Q, "atg"))[:3])
        C.use(B.I)
    # from a vector of vectors
    for dg in (True, False):
        B = Box(m)
        Q = 9
        base = B.R("vectors", 4096)
        per = vecsize(m)
        for i in range(Q):
            p = Ptr(base.r, per * i)
            LA.tv_new(B.I, B.st, p, N)
            B.put(p, [A.sym("f%d_%d" % (i, k)) for k in range(N)])
        B.I.throws = []
        before = B.st
        g = B.call("from", base, Q, int(dg))
        C.use(B.I)
        if dg:
            C.ob("a container made from vectors carries them in order", "discontinuous", g is not None and B.call("q", g) == Q and txt(B.all(g, Q)) == named("f", Q) == txt(B.all(g, Q, "atg")) and bool(B.call("dg", g)), w("DistributionFunctions(std"), "")
        else:
            C.ob("a container made from vectors is refused where ghosts are needed", "continuous", g is None and bool(B.I.throws), w("DistributionFunctions(std"), "no exception")


def vecsize(m):
    """distance between consecutive vectors as the probe walks them"""
    B = Box(m)
    seen = []
    base = B.R("vectors", 4096)

    def m_ctor(I, st, a, F):
        if len(a) > 1 and isinstance(a[1], Ptr) and a[1].r == base.r:
            seen.append(a[1].o)
        return LA.m_tv_ctor(I, st, a, F)
    B.I = I = common.interp(m, [(LA.TVQ + r"Vector\(", m_ctor)] + list(LA.LA))
    I.nodes = N
    I.call(B.st, "probe_from", [base, 3, 1])
    s = sorted(set(seen))
    if len(s) < 3 or s[1] - s[0] != s[2] - s[1]:
        raise Broken("layout of an array of vectors not recognised: %s" % s)
    return s[1]


def equality(C, m, w):
    for dg, mode, kn in KINDS[:2]:
        Q = 9

        def run(diff, thr, Q2=Q):
            B = Box(m)
            f, g = B.new(dg, Q, mode), B.new(dg, Q2, mode)
            B.fill(f, Q, "f", lambda i, k: 0.25 + i + 0.125 * k)
            B.fill(g, Q2, "g", lambda i, k: 0.25 + i + 0.125 * k + (diff[2] if (i, k) == diff[:2] else 0.0))
            r = B.call("equals", f, g, thr) if thr is not None else B.call("equals_def", f, g)
            C.use(B.I)
            return r
        for i in range(Q):
            for k in range(N):
                for d, thr, same in ((0.5, 0.25, False), (-0.5, 0.25, False), (0.5, 0.75, True), (-0.5, 0.75, True), (1e-3, None, False), (-1e-3, None, False), (1e-12, None, True)):
                    r = run((i, k, d), thr)
                    C.ob("two containers are equal exactly when no local entry differs by more than the threshold", "%s, population %d entry %d differs by %s, threshold %s" % (kn, i, k, d, thr), isinstance(r, (int, bool)) and bool(r) == same, w("equals"), "says %s" % show(r))
        C.ob("containers of different size are not equal", kn, run((0, 0, 0.0), 1.0, Q + 2) in (0, False), w("equals"), "")
        B = Box(m)
        f, g = B.new(dg, Q, mode), B.new(dg, Q, mode)
        B.call("equals", f, g, 0.5)
        C.ob("equality is agreed between all processes", kn, len([e for e in B.st.events if e.kind == "collective" and e.args[0] == "min_max_avg"]) == 1, w("equals"), "no reduction over the processes")


def scaling(C, m, w):
    for dg, mode, kn in KINDS[:2]:
        Q = 9
        B = Box(m)
        f = B.new(dg, Q, mode)
        B.fill(f, Q, "f")
        s = A.sym("s")
        B.call("scale", f, s, B.local)
        want = [[A.mul(s, A.sym("f%d_%d" % (i, k))) for k in range(N)] for i in range(Q)]
        ok = all(A.vanishes(A.sub(x, y)) for how in ("at", "atg") for r, q in zip(B.all(f, Q, how), want) for x, y in zip(r, q))
        C.ob("scaling multiplies every entry of every population once, in both views", kn, ok, w("scaleF"), "")
        C.use(B.I)


def tables():
    import lattice
    m = common.module("lattice.cpp")

    class Dummy:
        def use(self, I):
            pass
    return {n: lattice.table(Dummy(), m, n) for n in DQ}


def transfer(C, m, w):
    L = tables()
    for name in DQ:
        D, Q = DQ[name]
        bad = {}
        for a, b in ((1.0, 2.0), (2.5, 1.0), (1.0, 1.25), (3.0, 1.5), (3.0, 3.0), (1.0, 1.0001), (2.0, 2.001)):
            dg, mode, kn = KINDS[0] if a < 2 else KINDS[1]
            B = Box(m, 2)
            f = B.new(dg, Q, mode)
            B.fill(f, Q, "f")
            B.call("update", f)
            B.call("tr_" + name, f, a, b, B.local)
            C.use(B.I)
            new = B.all(f, Q)
            C.ob("after a transfer the ghosted view shows the current populations", "%s from %s to %s" % (name, a, b), txt(B.all(f, Q, "atg")) == txt(new), w("transferFromOtherScaling"), "")
            for k in range(2):
                old = [A.sym("f%d_%d" % (i, k)) for i in range(Q)]
                now = [r[k] for r in new]
                for what, e in [("density", [1.0] * Q)] + [("momentum", [x[d] for x in L[name].E]) for d in range(D)]:
                    u = v = 0.0
                    p = 0.0 if what == "density" else 1.0
                    for i in range(Q):
                        u = A.add(u, A.mul(e[i] * a ** p, old[i]))
                        v = A.add(v, A.mul(e[i] * b ** p, now[i]))
                    if not A.vanishes(A.sub(u, v)):
                        bad.setdefault(what, "from %s to %s, node %d" % (a, b, k))
            if a == b:
                C.ob("transferring to the same scaling changes nothing", name, txt(new) == named("f", Q, 2), w("transferFromOtherScaling"), "")
            else:
                B.call("tr_" + name, f, b, a, B.local)
                C.ob("transferring there and back changes nothing", "%s from %s to %s" % (name, a, b), all(A.vanishes(A.sub(x, A.sym("f%d_%d" % (i, k)))) for i, r in enumerate(B.all(f, Q)) for k, x in enumerate(r)), w("transferFromOtherScaling"), "")
        for what in ("density", "momentum"):
            C.ob("transferring to another scaling keeps density and momentum at every node", "%s, %s" % (name, what), what not in bad, w("transferFromOtherScaling"), bad.get(what, ""))


def d01(C):
    m = mod()
    w = lambda n: where(m, r"natrium::DistributionFunctions::" + re.escape(n))
    layout(C, m, w)
    copies(C, m, w)
    equality(C, m, w)
    scaling(C, m, w)
    transfer(C, m, w)
    C.floor("two containers are equal exactly when no local entry differs by more than the threshold", 378)
    C.floor("transferring to another scaling keeps density and momentum at every node", 18)


RUN = {"D01": d01}
