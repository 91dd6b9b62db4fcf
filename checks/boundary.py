"""B01: boundary conditions of the semi-Lagrangian scheme."""
import functools
import itertools
import math
import os

import common
from common import A, Broken
from absint import Ptr
import box as BX
import mesh as MS
import models
import models_mesh as MM
import advection as AD
from solver import where, show

DEEP = os.environ.get("VERIF_TIER") == "thorough"


def velocity(bid, p, t):
    """the velocity prescribed at boundary bid: a different linear function of space and time for every boundary and component"""
    out = []
    for c in range(len(p)):
        v = A.add(A.sym("U%d_%d" % (bid, c)), A.mul(A.sym("T%d_%d" % (bid, c)), t))
        for d, x in enumerate(p):
            v = A.add(v, A.mul(A.sym("G%d_%d%d" % (bid, c, d)), x))
        out.append(v)
    return out


def m_velocity(I, st, a, F):
    bid = st.x.get(("velocity",) + models.key(a[0]))
    if bid is None:
        raise common.absint.AnalysisError("velocity of an unknown boundary")
    p = [I.load(st, Ptr(a[1].r, a[1].o + 8 * k), "d") for k in range(I.mesh.dim)]
    return st, velocity(bid, p, a[2])[a[3]]


MODELS = [(r"^vhook_velocity", m_velocity)]


def hermite(w, e, cs2, u, T):
    """fourth-order Hermite expansion of the Maxwell distribution of density one"""
    D = len(e)
    d = lambda i, j: int(i == j)
    R = range(D)
    T1 = A.scale(A.sub(T, 1.0), cs2)
    f = 1.0
    mul = lambda *x: A.mul(x[0], mul(*x[1:])) if len(x) > 1 else x[0]
    for i in R:
        f = A.add(f, A.scale(u[i], e[i] / cs2))
    for i, j in itertools.product(R, R):
        a = A.add(mul(u[i], u[j]), A.scale(T1, d(i, j)))
        f = A.add(f, A.scale(a, (e[i] * e[j] - cs2 * d(i, j)) / (2 * cs2 ** 2)))
    for i, j, k in itertools.product(R, R, R):
        h = e[i] * e[j] * e[k] - cs2 * (e[i] * d(j, k) + e[j] * d(i, k) + e[k] * d(i, j))
        a = mul(u[i], u[j], u[k])
        for x, y, z in ((i, j, k), (j, i, k), (k, i, j)):
            if y == z:
                a = A.add(a, mul(T1, u[x]))
        f = A.add(f, A.scale(a, h / (6 * cs2 ** 3)))
    for q in itertools.product(R, R, R, R):
        i, j, k, l = q
        pairs = [((i, j), (k, l)), ((i, k), (j, l)), ((i, l), (j, k))]
        h, a = e[i] * e[j] * e[k] * e[l], mul(u[i], u[j], u[k], u[l])
        for (x, y), (z, t) in pairs:
            h += -cs2 * (e[x] * e[y] * d(z, t) + e[z] * e[t] * d(x, y)) + cs2 ** 2 * d(x, y) * d(z, t)
            if z == t:
                a = A.add(a, mul(T1, u[x], u[y]))
            if x == y:
                a = A.add(a, mul(T1, u[z], u[t]))
            if x == y and z == t:
                a = A.add(a, mul(T1, T1))
        f = A.add(f, A.scale(a, h / (24 * cs2 ** 4)))
    return A.scale(f, w)


class Bc(AD.Sl):
    """one mesh, one set of boundaries"""

    def world(self, lo, hi, at=None):
        w = MS.World(self.m, self.mesh, None if at else {"dt": (lo, hi)}, self.procs, extra=MODELS)
        self.T = {}
        bcs = []
        for k, *a in self.bcs:
            if k == "equilibrium":
                a = [a[0], [A.sym("U%d_%d" % (a[0], c)) for c in range(self.mesh.dim)], A.sym("temp%d" % a[0])]
            if k == "constant":
                a = [a[0], [A.sym("U%d_%d" % (a[0], c)) for c in range(self.mesh.dim)]]
            bcs.append((k, *a))
        w.problem(bcs, self.cart)
        for k, *a in self.bcs:
            if k == "wall":
                w.st.x[("velocity",) + models.key(w.call("velocity_of", w.coll, a[0]))] = a[0]
        w.sl(self.which, self.scaling)
        w.call("setup", w.op)
        return w

    def hit_values(self, P, hit, k, t, dt):
        """contribution of one reflection at a wall: one value for every wall that meets there"""
        used, p, faces, v = hit
        mesh = self.mesh
        lo, hi = [l[0] for l in mesh.lines], [l[-1] for l in mesh.lines]
        images = [p]
        for d in range(mesh.dim):
            if self.kinds[2 * d] == "p":
                new = []
                for q in images:
                    if abs(q[d] - lo[d]) < AD.EQ or abs(q[d] - hi[d]) < AD.EQ:
                        new += [q[:d] + [lo[d]] + q[d + 1:], q[:d] + [hi[d]] + q[d + 1:]]
                    else:
                        new.append(q)
                images = new
        out = []
        for f in faces:
            b = mesh.bids[f]
            kind = next(x for x, *a in self.bcs if b in (a[:2] if x == "periodic" else a[:1]))
            for q in images:
                if kind == "wall":
                    u = velocity(b, q, A.sub(A.add(t, dt), A.add(dt, used)))
                elif kind == "constant":
                    u = [A.sym("U%d_%d" % (b, c)) for c in range(mesh.dim)]
                else:
                    u = [0.0] * mesh.dim
                s = 0.0
                for c in range(mesh.dim):
                    s = A.add(s, A.scale(u[c], self.E[k][c]))
                out.append(A.scale(s, 2.0 * self.W[k] / self.cs2))
        return out

    def conditions(self, lo, hi, at=None):
        C, mesh = self.C, self.mesh
        h = (hi - lo) * 1e-3
        lo, hi = lo + h, hi - h
        dtn = at or lo + 0.389 * (hi - lo)
        w = self.world(lo, hi, at)
        dt, t = at or A.sym("dt"), A.sym("time")
        w.call("dt", w.op, dt)
        w.call("reassemble", w.op)
        Q = len(self.E)
        f, old = w.df(Q, "f"), w.df(Q, "h")
        w.call("bc", w.op, old, f, t)
        C.use(w.I)
        key = "%s, step in (%.4g, %.4g)" % (self.name, lo, hi)
        wh = where(self.m, r"natrium::SemiLagrangianBoundaryHandler<%dul>::operate\(" % mesh.dim)
        got = [w.pops(f, i) for i in range(Q)]
        bad = {}
        cond = {b: k for k, *a in self.bcs for b in (a[:2] if k == "periodic" else a[:1])}
        for g in range(mesh.nd):
            for al in range(Q):
                sym = A.sym("f%d_%d" % (al, g))
                if al == 0 or mesh.dof_owner[g] != 0:
                    ok, what, why = A.vanishes(A.sub(got[al][g], sym)), "populations that meet no boundary are left alone", show(got[al][g])
                else:
                    P = AD.Path(mesh, self.kinds, mesh.support[g], self.E[al], dtn)
                    if P.open_corner:
                        continue
                    diff = A.sub(got[al][g], sym)
                    if P.lost:
                        what, want = "a population caught in a corner is left alone", [0.0]
                    elif P.out:
                        if len(P.hits) > 1:
                            continue                     # reflected before it left the domain
                        ks = {cond[mesh.bids[x]] for x in P.out[2] if self.kinds[x] != "p"}
                        if len(ks) > 1:
                            continue
                        k = ks.pop()
                        if k == "equilibrium":
                            what = "an open boundary supplies the equilibrium of its velocity and temperature"
                            want = []
                            for x in P.out[2]:
                                b = mesh.bids[x]
                                if self.kinds[x] != "p":
                                    u = [A.sym("U%d_%d" % (b, c)) for c in range(mesh.dim)]
                                    want.append(A.sub(hermite(self.W[al], self.E[al], self.cs2, u, A.sym("temp%d" % b)), sym))
                        elif k == "firstorder":
                            what = "first-order bounce back returns the opposite population"
                            want = [A.sub(A.sym("f%d_%d" % (self.O[al], g)), sym)]
                        else:
                            continue
                    elif P.hits:
                        what = "a wall adds the momentum of its velocity at the point and time of the reflection"
                        k, want = al, [0.0]
                        for hit in P.hits:
                            want = [A.add(x, y) for x in want for y in self.hit_values(P, hit, k, t, dt)][:64]
                            k = self.O[k]
                    else:
                        what, want = "populations that meet no boundary are left alone", [0.0]
                    ok = any(AD.small(A.sub(diff, x)) for x in want)
                    why = "got %s instead of %s" % (A.show(diff)[:200], A.show(want[0])[:200])
                x = bad.setdefault(what, [0, []])
                x[0] += 1
                if not ok:
                    x[1].append("point %s direction %s: %s" % (["%.4g" % c for c in mesh.support[g]], ["%.4g" % c for c in self.E[al]], why))
        for what, (n, b) in bad.items():
            C.ob(what, key, not b, wh, "%d of %d populations: %s" % (len(b), n, b[0] if b else ""))
            C.extra["populations: " + what] = C.extra.get("populations: " + what, []) + [n]
        ev = [e for e in w.st.events if e.kind == "missing update flag"]
        C.ob("finite element values are only used where they were requested", key, not ev, wh, show(ev[:1]))
        C.ob("the state before the step is not modified", key, all(A.vanishes(A.sub(x, A.sym("h%d_%d" % (i, k)))) for i in range(Q) for k, x in enumerate(w.pops(old, i))), wh, "")
        if any(k == "equilibrium" for k, *a in self.bcs):
            self.energy(w, f, Q, dtn, key)
        return w

    def energy(self, w, f, Q, dtn, key):
        """the second distribution at open boundaries"""
        C, mesh = self.C, self.mesh
        gd = w.df(Q, "g")
        gamma = A.sym("gamma")
        w.call("bctog", w.op, f, gd, A.sym("time"), gamma)
        cv = A.div(1.0, A.sub(gamma, 1.0))
        now, got = [w.pops(f, i) for i in range(Q)], [w.pops(gd, i) for i in range(Q)]
        bad, n = [], 0
        for g in range(mesh.nd):
            for al in range(1, Q):
                P = AD.Path(mesh, self.kinds, mesh.support[g], self.E[al], dtn)
                if P.open_corner or P.lost or mesh.dof_owner[g] != 0 or P.out and len(P.hits) > 1:
                    continue
                want = [A.sym("g%d_%d" % (al, g))]
                if P.out:
                    want = [A.mul(A.mul(now[al][g], A.sym("temp%d" % mesh.bids[x])), A.sub(A.scale(cv, 2.0), float(mesh.dim))) for x in P.out[2] if self.kinds[x] == "o"]
                n += 1
                if not any(A.vanishes(A.sub(got[al][g], x)) for x in want):
                    bad.append("point %s direction %s: %s instead of %s" % (["%.4g" % c for c in mesh.support[g]], self.E[al], show(got[al][g])[:200], show(want[0])[:200]))
        C.ob("the energy distribution at an open boundary belongs to its temperature", key, not bad, where(self.m, r"natrium::SemiLagrangianBoundaryHandler<%dul>::applyToG\(" % mesh.dim), "%d of %d: %s" % (len(bad), n, bad[0] if bad else ""))

    def again(self, t1, t2):
        """assembling twice, or for another step, leaves only the last hits"""
        C = self.C

        def hits(*ts):
            w = self.world(0, 0, at=ts[0])
            for t in ts:
                w.call("dt", w.op, t)
                w.call("reassemble", w.op)
            f, old = w.df(len(self.E), "f"), w.df(len(self.E), "h")
            w.call("bc", w.op, old, f, A.sym("time"))
            n = w.call("hits", w.op)
            C.use(w.I)
            return n, [[A.expand(x) for x in w.pops(f, i)] for i in range(len(self.E))]
        wh = where(self.m, r"natrium::SemiLagrangian<%dul>::reassemble\(" % self.mesh.dim)
        b = hits(t2)
        for ts in ((t1, t2), (t2, t2)):
            a = hits(*ts)
            C.ob("a new assembly replaces the boundary hits", "%s, %s" % (self.name, list(ts)), a[0] == b[0] and all(A.vanishes(A.sub(x, y)) for u, v in zip(a[1], b[1]) for x, y in zip(u, v)), wh, "%s hits instead of %s" % (a[0], b[0]))


def thermal(C):
    """the state of a node after a thermal wall"""
    mesh = MM.Mesh([[0, 1.0]] * 3, 1, list(range(6)))
    L = SHARED["sets"][(3, 2)]
    w = MS.World(SHARED["m"], mesh, None, 1, extra=MODELS)
    Tw = A.sym("wall")
    w.problem([("thermal", 0, Tw)] + [("wall", k) for k in range(1, 6)])
    w.sl(2, 1.0)
    w.call("setup", w.op)
    Q = L.Q
    f, g, old = w.df(Q, "f"), w.df(Q, "g"), w.df(Q, "h")
    w.call("apply", w.op, w.coll, 0, old, f, g, w.vec([0.0, 0.5, 0.5]), 0, 1, A.sym("eps"), A.sym("time"))
    C.use(w.I)
    wh = where(SHARED["m"], r"natrium::ThermalBounceBack<3ul>::calculateBoundaryValues\(")
    F, G = [w.pops(f, i) for i in range(Q)], [w.pops(g, i) for i in range(Q)]
    add = lambda xs: functools.reduce(A.add, xs, 0.0)
    for n in range(1, mesh.nd):
        C.ob("a thermal wall only changes its own node", "node %d" % n, all(A.vanishes(A.sub(F[i][n], A.sym("f%d_%d" % (i, n)))) and A.vanishes(A.sub(G[i][n], A.sym("g%d_%d" % (i, n)))) for i in range(Q)), wh, "")
    f0, g0 = [A.sym("f%d_0" % i) for i in range(Q)], [A.sym("g%d_0" % i) for i in range(Q)]
    d = [A.sub(F[i][0], f0[i]) for i in range(Q)]
    C.ob("a thermal wall keeps density and momentum", "density", A.vanishes(add(d)), wh, "")
    for c in range(3):
        C.ob("a thermal wall keeps density and momentum", "momentum %d" % c, A.vanishes(add(A.scale(d[i], L.E[i][c]) for i in range(Q))), wh, "")
    # from an equilibrium (symbolic density, velocity and temperature) the wall temperature is reached exactly
    cs2 = sum(x * e[0] ** 2 for x, e in zip(L.W, L.E))
    w2 = MS.World(SHARED["m"], mesh, None, 1, extra=MODELS)
    rho, T, Tw = A.sym("rho"), A.sym("T"), A.sym("wall")
    u = [A.sym("u%d" % c) for c in range(3)]
    w2.problem([("thermal", 0, Tw)] + [("wall", k) for k in range(1, 6)])
    w2.sl(2, 1.0)
    w2.call("setup", w2.op)
    f, g, old = w2.df(Q, "f"), w2.df(Q, "g"), w2.df(Q, "h")
    fac = lambda t: A.scale(t, 2.0 / (1.4 - 1.0) - 3.0)
    eq = lambda t: [A.mul(rho, hermite(L.W[i], L.E[i], cs2, u, t)) for i in range(Q)]
    for i, x in enumerate(eq(T)):
        w2.put(f, i, 0, x)
        w2.put(g, i, 0, A.mul(x, fac(T)))
    w2.call("apply", w2.op, w2.coll, 0, old, f, g, w2.vec([0.0, 0.5, 0.5]), 0, 1, A.sym("eps"), A.sym("time"))
    C.use(w2.I)
    want = eq(Tw)
    for i in range(Q):
        C.ob("a thermal wall turns an equilibrium into that of the wall temperature", "f, direction %d" % i, A.vanishes(A.sub(w2.pops(f, i)[0], want[i])), wh, "")
        C.ob("a thermal wall turns an equilibrium into that of the wall temperature", "g, direction %d" % i, A.vanishes(A.sub(w2.pops(g, i)[0], A.mul(want[i], fac(Tw)))), wh, "")


def prescribed(C):
    """the values handed to a boundary are the ones it returns"""
    for D in (2, 3):
        w = MS.World(SHARED["m"], MM.Mesh([[0, 1.0]] * D, 1, list(range(2 * D))), None, 1, extra=MODELS)
        p, T, u = A.sym("p"), A.sym("T"), [A.sym("u%d" % c) for c in range(D)]
        out = w.vec([0.0] * 10)
        w.call("prescribed", p, w.vec(u), T, out)
        C.use(w.I)
        got = [w.I.load(w.st, Ptr(out.r, 8 * k), "d") for k in range(9)]
        want = {0: p, 1: T, 5: p}
        want.update({2 + c: u[c] for c in range(D)})
        want.update({6 + c: u[c] for c in range(D)})
        for k, x in want.items():
            C.ob("prescribed values are returned unchanged", "%dD, value %d" % (D, k), A.vanishes(A.sub(got[k], x)), where(SHARED["m"], r"natrium::PrescribedBoundaryValues<%dul>::PrescribedBoundaryValues\(double, " % D), "%s instead of %s" % (show(got[k]), show(x)))


CONST = [("periodic", 0, 1, 0), ("constant", 2), ("wall", 3)]
FIRST = [("firstorder", 0), ("firstorder", 1), ("periodic", 2, 3, 1)]
OPEN = [("equilibrium", 0), ("equilibrium", 1), ("wall", 2), ("constant", 3)]
OPEN3 = [("equilibrium", 0), ("equilibrium", 1), ("periodic", 2, 3, 1), ("wall", 4), ("wall", 5)]


def scenarios():
    ids = [0, 1, 2, 3]
    i3 = [0, 1, 2, 3, 4, 5]
    S = [("2D channel, order 1", AD.L23, 1, ids, AD.CHAN, 0, 1.3, 1.5, 6),
         ("2D channel, order 2, other numbering of the sides", AD.L2, 2, [1, 0, 2, 3], AD.CHANR, 0, 1.0, 1.0, 4),
         ("2D box, order 2", AD.L2, 2, ids, AD.BOX2, 0, 0.8, 1.2, 5),
         ("2D box, one cell, order 3", [[0, 1.3], [0, 1]], 3, ids, AD.BOX2, 0, 1.0, 1.6, 5),
         ("2D channel with a constant lid, order 2", AD.L2, 2, ids, CONST, 0, 1.1, 0.9, 3),
         ("2D first-order bounce back, order 2", AD.L2, 2, ids, FIRST, 0, 1.0, 0.8, 3),
         ("2D open, order 2", AD.L2, 2, ids, OPEN, 0, 1.2, 0.8, 3),
         ("2D channel, order 1, D2Q25H", AD.L2, 1, ids, AD.CHAN, 1, 0.7, 1.0, 3),
         ("3D duct, order 1, D3Q19", AD.L3B, 1, i3, AD.BOX3, 1, 1.0, 1.2, 3),
         ("3D open, order 1, D3Q15", AD.L3, 1, i3, OPEN3, 0, 0.9, 0.8, 2),
         ("2D channel on several processes", [[0, 1, 1.8, 3, 3.9, 5], [0, 0.7, 2]], 1, ids, AD.CHAN, 0, 1.0, 0.7, 2, AD.PART, True)]
    return S


def build(C, s):
    name, lines, p, bids, bcs, which, scaling, limit, pick = s[:9]
    owner, first = s[9:] or (None, True)
    mesh = MM.Mesh(lines, p, bids, owner, mine_first=first)
    mesh.coords = [sorted({round(x[d], 12) for x in mesh.support}) for d in range(mesh.dim)]
    X = Bc(C, SHARED["m"], SHARED["tab"], mesh, bcs, which, scaling, name, 3 if owner else 1)
    L = SHARED["sets"][(mesh.dim, which)]
    X.W, X.cs2 = L.W, scaling ** 2 * sum(w * e[0] ** 2 for w, e in zip(L.W, L.E))
    return X


SHARED = {}


def attempt(C, k, lo, hi, first=False, at=None):
    X = build(C, scenarios()[k])
    try:
        X.conditions(lo, hi, at)
        if first:
            X.again(0.3, 0.8)
    except MM.Fault as e:
        C.ob("the mesh is only used as deal.II allows and nothing is refused", "%s, step in (%.4g, %.4g)" % (X.name, lo, hi), False, X.at("fillSparseObject"), str(e))


def one(C, it):
    if it == "thermal":
        prescribed(C)
        return thermal(C)
    k, r = it
    AD.refine(C, r, lambda lo, hi, first=False, at=None: attempt(C, k, lo, hi, first, at), k == 2 and r[0] == 0)


FLOORS = [("a wall adds the momentum of its velocity at the point and time of the reflection", 38), ("a population caught in a corner is left alone", 12),
          ("an open boundary supplies the equilibrium of its velocity and temperature", 4), ("first-order bounce back returns the opposite population", 3),
          ("the energy distribution at an open boundary belongs to its temperature", 4), ("a thermal wall turns an equilibrium into that of the wall temperature", 90)]


def b01(C):
    for r, n in FLOORS:
        C.floor(r, n)
    tab, sets = AD.directions(C, True)
    m = MS.mod()
    SHARED.update(tab=tab, m=m, sets=sets)
    items = ["thermal"]
    for k, s in enumerate(scenarios()):
        X = build(C, s)
        pick = s[8]
        if DEEP:
            pick *= 5
        for r in X.ranges(s[7], pick):
            items.append((k, r))
    common.pmap(C, one, items)


RUN = {"B01": b01}
