"""A01: the semi-Lagrangian streaming operator on the abstract mesh."""
import math
import os

import common
from common import absint, A, Broken
from absint import Ptr
import box as BX
import mesh as MS
import models_mesh as MM
from solver import where, show

DEEP = os.environ.get("VERIF_TIER") == "thorough"
STENCIL = {(2, 0): "D2Q9", (2, 1): "D2Q25H", (3, 0): "D3Q15", (3, 1): "D3Q19", (3, 2): "D3Q45"}
EQ = 1e-9


def directions(C, sets=False):
    """direction and opposite tables of the velocity sets used, at unit scaling"""
    import lattice as LT
    m = common.module("lattice.cpp")
    out, full = {}, {}
    for k, n in STENCIL.items():
        L = full[k] = LT.table(C, m, n)
        out[k] = (L.E, [int(x) for x in L.O])
    return (out, full) if sets else out


class Path:
    """the exact path of one population back in time, followed on the unfolded domain independently of the code under test"""

    def __init__(self, mesh, kinds, x, e, dt):
        """kinds: 'p' periodic, 'w' wall, 'o' open per face; dt: a number; the result is linear in the step"""
        self.mesh, self.kinds = mesh, kinds
        D = mesh.dim
        lo, hi = [l[0] for l in mesh.lines], [l[-1] for l in mesh.lines]
        p, v, rem, used = list(x), [-c for c in e], dt, 0.0
        self.times, self.hits, self.flip, self.lost, self.out = [], [], False, False, None
        self.open_corner = False
        idle = 0
        while True:
            T, faces = math.inf, []
            for d in range(D):
                if abs(v[d]) < EQ:
                    continue
                for line in mesh.coords[d]:
                    t = (line - p[d]) / v[d]
                    if t > EQ:
                        self.times.append(used + t)
                end = hi[d] if v[d] > 0 else lo[d]
                t = max((end - p[d]) / v[d], 0.0)
                if t < T - EQ:
                    T, faces = t, []
                if t <= T + EQ:
                    faces.append(2 * d + (v[d] > 0))
            if T >= rem:
                break
            p = [a + T * b for a, b in zip(p, v)]
            rem -= T
            used += T
            ks = {kinds[f] for f in faces}
            idle = idle + 1 if T < EQ else 0
            if idle > 6:
                self.lost = True
                return
            if "o" in ks and "w" in ks:
                self.open_corner = True          # either condition may act where a wall meets an open boundary
            if "o" in ks or "w" in ks:
                self.hits.append((used, list(p), [f for f in faces if kinds[f] != "p"], list(v)))
                if "w" not in ks:
                    self.out = (used, list(p), faces)
                    return
                v = [-c for c in v]
                self.flip = not self.flip
            else:
                for f in faces:
                    d = f // 2
                    p[d] += (lo[d] - hi[d]) if f % 2 else (hi[d] - lo[d])
        self.p, self.v, self.used = p, v, used

    def end(self, dt):
        return [A.add(a, A.scale(A.sub(dt, self.used), b)) if b else a for a, b in zip(self.p, self.v)]


def critical(mesh, kinds, E, dts, limit):
    """all step sizes at which a path crosses a mesh line or a line of support points"""
    t = set()
    for x in mesh.support:
        for e in E[1:]:
            P = Path(mesh, kinds, x, e, limit)
            t.update(round(y, 7) for y in P.times if y < limit)
    t = sorted(t)
    out = [0.0]
    for y in t:
        if y - out[-1] > 1e-3 and limit - y > 1e-3:
            out.append(y)
    return out + [limit]


def classes(mesh, kinds):
    """degrees of freedom that carry the same value in a periodic function"""
    lo, hi = [l[0] for l in mesh.lines], [l[-1] for l in mesh.lines]
    out = []
    for x in mesh.support:
        out.append(tuple(round(lo[d] if kinds[2 * d] == "p" and abs(y - hi[d]) < EQ else y, 8) for d, y in enumerate(x)))
    return out


def locate(mesh, x):
    m = []
    for d, y in enumerate(x):
        l = mesh.lines[d]
        m.append(min(max(next((k for k in range(len(l) - 1) if y <= l[k + 1] + EQ), len(l) - 2), 0), len(l) - 2))
    return mesh.ci(m)


def expected(mesh, kinds, cls, x, e, beta, dtn, dts):
    """(block, {class: value}) of the row of one degree of freedom; None block: nothing is streamed"""
    P = Path(mesh, kinds, x, e, dtn)
    if P.lost:
        return P, "self", None
    if P.out:
        return P, None, {}
    xs = P.end(dts)
    c = locate(mesh, P.end(dtn))
    u = mesh.r2u(c, xs)
    row = {}
    for j in range(mesh.nloc):
        v = mesh.shape(j, u)
        k = cls[mesh.cell_dofs[c][j]]
        row[k] = A.add(row.get(k, 0.0), v)
    return P, "flip" if P.flip else "same", row


def small(x, scale=1.0):
    """does a polynomial in the step vanish up to rounding?"""
    p = A.expand(x) if hasattr(A, "expand") else x
    if isinstance(p, (int, float)):
        return abs(p) < 1e-8 * scale
    return A.vanishes(x)


class Sl:
    """one mesh, one set of boundaries, one stencil; rebuilt for every range of the step size"""

    def __init__(self, C, m, tab, mesh, bcs, which, scaling, name, procs=1, cart=True):
        self.C, self.m, self.mesh, self.bcs, self.which, self.scaling, self.name, self.procs, self.cart = C, m, mesh, bcs, which, scaling, name, procs, cart
        E, self.O = tab[(mesh.dim, which)]
        self.E = [[scaling * c for c in e] for e in E]
        self.kinds = [None] * (2 * mesh.dim)
        for k, *a in bcs:
            ids = a[:2] if k == "periodic" else a[:1]
            for f, b in enumerate(mesh.bids):
                if b in ids:
                    self.kinds[f] = {"periodic": "p", "wall": "w", "constant": "w", "thermal": "w"}.get(k, "o")
        self.cls = classes(mesh, self.kinds)

    def at(self, fn):
        return where(self.m, r"natrium::SemiLagrangian<%dul>::%s\(" % (self.mesh.dim, fn))

    def world(self, lo, hi, at=None):
        w = MS.World(self.m, self.mesh, None if at else {"dt": (lo, hi)}, self.procs)
        w.problem(self.bcs, self.cart)
        w.sl(self.which, self.scaling)
        w.call("setup", w.op)
        return w

    def ranges(self, limit, pick=None):
        c = critical(self.mesh, self.kinds, self.E, None, limit)
        r = list(zip(c, c[1:]))
        return r if pick is None else [r[k] for k in sorted({int(k * (len(r) - 1) / max(pick - 1, 1)) for k in range(pick)})]

    def check(self, lo, hi, at=None):
        """all steps between lo and hi, or the single step at"""
        C, mesh = self.C, self.mesh
        h = (hi - lo) * 1e-3
        lo, hi = lo + h, hi - h
        dtn = at or lo + 0.389 * (hi - lo)
        w = self.world(lo, hi, at)
        dt = at or A.sym("dt")
        w.call("dt", w.op, dt)
        w.call("reassemble", w.op)
        C.use(w.I)
        wh = self.at("fillSparseObject")
        key = "%s, step in (%.4g, %.4g)" % (self.name, lo, hi)
        B = w.matrix()
        Q = len(self.E)
        rows = {}
        for (i, j), d in B.items():
            for (r, c), v in d.items():
                rows.setdefault((i + 1, r), []).append((j + 1, c, v))
        bad, nb = {}, 0
        owned = [g for g in range(mesh.nd) if mesh.dof_owner[g] == 0]
        hits = 0
        for g in owned:
            for al in range(1, Q):
                P, kind, exp = expected(mesh, self.kinds, self.cls, mesh.support[g], self.E[al], al, dtn, dt)
                hits += len(P.hits)
                got = rows.pop((al, g), [])
                if P.open_corner:
                    continue
                if kind == "self":
                    hits = None if hits is None else hits
                    what = "a population caught in a corner keeps its value"
                    ok = len(got) == 1 and got[0][:2] == (al, g) and got[0][2] == 1.0
                    why = show(got)
                elif kind is None:
                    what = "nothing is streamed from beyond an open boundary"
                    ok, why = not got, show(got)
                else:
                    be = self.O[al] if P.flip else al
                    what = "a population is streamed from its departure point" if not P.hits else "a population that meets a wall returns along its path as the opposite one"
                    acc, ok, why = {}, True, ""
                    for j, c, v in got:
                        k = (j, self.cls[c])
                        acc[k] = A.add(acc.get(k, 0.0), v)
                    for k, v in exp.items():
                        d = A.sub(acc.pop((be, k), 0.0), v)
                        if not small(d):
                            ok, why = False, "weight of %s at %s is off by %s" % (be, k, A.show(d))
                    for k, v in acc.items():
                        if not small(v):
                            ok, why = False, "weight %s of %s at %s" % (A.show(v), k[0], k[1])
                t = bad.setdefault(what, [0, []])
                t[0] += 1
                if not ok:
                    t[1].append("point %s direction %s: %s" % (["%.4g" % c for c in mesh.support[g]], ["%.4g" % c for c in self.E[al]], why))
        for what, (n, b) in bad.items():
            C.ob(what, key, not b, wh, "%d of %d rows: %s" % (len(b), n, b[0] if b else ""))
            C.extra["rows: " + what] = C.extra.get("rows: " + what, []) + [n]
        C.ob("only rows of locally owned nodes are written", key, not rows, wh, "rows %s" % sorted(rows)[:4])
        ev = [e for e in w.st.events if e.kind == "entry outside the sparsity pattern"]
        C.ob("the sparsity pattern contains every matrix entry", key, not ev, self.at("updateSparsityPattern"), "%d entries outside, e.g. %s" % (len(ev), ev[0].args[1:] if ev else ""))
        ev = [e for e in w.st.events if e.kind == "unknown to this process"]
        C.ob("only owned and ghost cells are read", key, not ev, wh, show(ev[:1]))
        ev = [e for e in w.st.events if e.kind == "compress"]
        C.ob("the assembled matrix is exchanged between processes once", key, len(ev) == 1 and ev[0].args[0] == 2, self.at("reassemble"), "compress events %s" % [e.args for e in ev])
        C.ob("the boundary handler works with the current step", key, A.vanishes(A.sub(w.call("hit_step", w.op), dt)) and A.vanishes(A.sub(w.call("get_dt", w.op), dt)), self.at("setDeltaT"), "")
        return w

    def stream(self, dt):
        """one streaming step: the matrix is applied to the moving populations, nothing else happens where there is no wall"""
        C, mesh = self.C, self.mesh
        w = MS.World(self.m, mesh, None, self.procs)
        w.problem(self.bcs)
        w.sl(self.which, self.scaling)
        w.call("setup", w.op)
        t, Q = A.sym("time"), len(self.E)
        w.call("dt", w.op, dt)
        w.call("reassemble", w.op)
        f, old = w.df(Q, "f"), w.df(Q, "h")
        r = w.call("stream", w.op, old, f, t)
        B = w.matrix()
        key = "%s, step %.4g" % (self.name, dt)
        wh = self.at("stream")
        n = 0
        for i in range(1, Q):
            got = w.pops(f, i)
            for g in range(mesh.nd):
                want = 0.0
                for j in range(1, Q):
                    for (rr, c), v in B[(i - 1, j - 1)].items():
                        if rr == g:
                            want = A.add(want, A.mul(v, A.sym("f%d_%d" % (j, c))))
                n += not A.vanishes(A.sub(got[g], want))
        C.ob("streaming applies the matrix to the populations before the step", key, not n, wh, "%d populations differ" % n)
        C.ob("streaming leaves the resting population alone", key, all(A.vanishes(A.sub(x, A.sym("f0_%d" % k))) for k, x in enumerate(w.pops(f, 0))), wh, "")
        C.ob("the state before the step is kept for the boundaries", key, all(A.vanishes(A.sub(x, A.sym("f%d_%d" % (i, k)))) for i in range(Q) for k, x in enumerate(w.pops(old, i))), wh, "")
        C.ob("streaming reports the step it used", key, A.vanishes(A.sub(r, dt)), wh, show(r))
        C.use(w.I)

    def steps(self, t1, t2):
        """step sizes set one after the other: only the last one counts"""
        C = self.C

        def assemble(*ts):
            w = MS.World(self.m, self.mesh, None, self.procs)
            w.problem(self.bcs)
            w.sl(self.which, self.scaling)
            w.call("setup", w.op)
            out = [{k: dict(v) for k, v in w.matrix().items()}]
            for t in ts:
                w.call("dt", w.op, t)
                out.append({k: dict(v) for k, v in w.matrix().items()})
                w.call("reassemble", w.op)
                out.append({k: dict(v) for k, v in w.matrix().items()})
            h = w.call("hits", w.op)
            w.call("reassemble", w.op)
            C.ob("assembling again gives the same operator", "%s, steps %s" % (self.name, ts), {k: dict(v) for k, v in w.matrix().items()} == out[-1] and w.call("hits", w.op) == h, self.at("reassemble"), "%s boundary hits, then %s" % (h, w.call("hits", w.op)))
            C.use(w.I)
            return out
        key = "%s, %s then %s" % (self.name, t1, t2)
        a, b = assemble(t1, t2), assemble(t2)
        wh = self.at("updateSparsityPattern")
        C.ob("without a step size nothing is assembled", key, not any(a[0].values()), wh, "")
        C.ob("a new step size discards the old matrix", key, any(a[2].values()) and not any(a[3].values()), wh, "%d entries remain" % sum(len(x) for x in a[3].values()))
        C.ob("a new step size replaces the old one completely", key, a[4] == b[2], wh, "")


PER2 = [("periodic", 0, 1, 0), ("periodic", 2, 3, 1)]
CHAN = [("periodic", 0, 1, 0), ("wall", 2), ("wall", 3)]
CHANR = [("periodic", 1, 0, 0), ("wall", 2), ("wall", 3)]
BOX2 = [("wall", 0), ("wall", 1), ("wall", 2), ("wall", 3)]
OPEN = [("equilibrium", 0, [0.1, 0.0], 1.0), ("equilibrium", 1, [0.1, 0.0], 1.0), ("wall", 2), ("constant", 3, [0.1, 0.0])]
PER3 = [("periodic", 0, 1, 0), ("periodic", 2, 3, 1), ("periodic", 4, 5, 2)]
MIX3 = [("periodic", 0, 1, 0), ("wall", 2), ("wall", 3), ("periodic", 4, 5, 2)]
BOX3 = [("wall", 0), ("wall", 1), ("periodic", 2, 3, 1), ("wall", 4), ("wall", 5)]
L2 = [[0, 1, 2.5], [0, 0.7, 2]]
L23 = [[0, 1, 2.5], [-1, -0.5, 0.2, 2]]
L3 = [[0, 1, 2.2], [0, 0.96, 2], [0, 0.93, 1.7]]
L3B = [[0, 1.2, 2.2], [0, 0.96, 2], [0, 0.77, 1.7]]


# columns of cells: two of this process, their neighbours (also across the periodic boundary) are ghosts, one is far away
PART = lambda c: {0: 0, 1: 0, 2: 1, 3: 2, 4: 1}[c % 5]


def scenarios():
    """(name, lines, p, bids, boundaries, stencil, scaling, limit, ranges to analyse (None: all), owner)"""
    ids = [0, 1, 2, 3]
    S = [("2D periodic, order 1", L2, 1, ids, PER2, 0, 1.0, 2.6, None),
         ("2D channel, order 1", L23, 1, ids, CHAN, 0, 1.3, 1.5, None),
         ("2D channel, order 2, other numbering of the sides", L2, 2, [1, 0, 2, 3], CHANR, 0, 1.0, 1.0, 5),
         ("2D box, order 2", L2, 2, ids, BOX2, 0, 0.8, 1.2, 5),
         ("2D channel, order 3", L2, 3, ids, CHAN, 0, 1.0, 0.9, 4),
         ("2D open, order 2", L2, 2, ids, OPEN, 0, 1.0, 0.8, 4),
         ("2D channel, order 1, D2Q25H", L2, 1, ids, CHAN, 1, 0.7, 1.0, 6),
         ("3D periodic, order 1", L3, 1, [0, 1, 2, 3, 4, 5], PER3, 0, 1.0, 1.2, 5),
         ("3D channel, order 1, D3Q19", L3, 1, [0, 1, 2, 3, 4, 5], MIX3, 1, 1.0, 1.2, 5),
         ("3D duct, order 1, D3Q19", L3B, 1, [0, 1, 2, 3, 4, 5], BOX3, 1, 1.0, 1.2, 5),
         ]
    S += [("2D channel declared as a curved domain, order 1", L2, 1, ids, CHAN, 0, 1.1, 1.2, 3)]
    w5 = [[0, 1, 1.8, 3, 3.9, 5], [0, 0.7, 2]]
    S += [("2D channel on several processes, lowest rank", w5, 1, ids, CHAN, 0, 1.0, 0.7, 2, PART, True),
          ("2D channel on several processes, highest rank", w5, 2, ids, CHAN, 0, 1.0, 0.7, 2, PART, False)]
    return S


def build(C, tab, m, s):
    name, lines, p, bids, bcs, which, scaling, limit, pick = s[:9]
    owner, first = s[9:] or (None, True)
    procs = 3 if owner else 1
    mesh = MM.Mesh(lines, p, bids, owner, mine_first=first)
    mesh.coords = [sorted({round(x[d], 12) for x in mesh.support}) for d in range(mesh.dim)]
    return Sl(C, m, tab, mesh, bcs, which, scaling, name, procs, cart="curved" not in name)


SHARED = {}


def attempt(C, k, lo, hi, first=False, at=None):
    X = build(C, SHARED["tab"], SHARED["m"], scenarios()[k])
    try:
        X.check(lo, hi, at)
        if first:
            if k == 0:
                X.stream(0.41)
            X.steps(0.3, 0.8)
    except MM.Fault as e:
        C.ob("the mesh is only used as deal.II allows and nothing is refused", "%s, step in (%.4g, %.4g)" % (X.name, lo, hi), False, X.at("fillSparseObject"), str(e))


def refine(C, r, attempt, first=False):
    """one range of the step; it is split where the code itself distinguishes cases that the geometry does not"""
    todo, n = [r], 0
    while todo:
        lo, hi = todo.pop()
        n += 1
        keep = C.ok, list(C.fail), {a: list(b) for a, b in C.rules.items()}
        try:
            attempt(lo, hi, first=first)
        except BX.Undecided as e:
            C.ok, C.fail, C.rules = keep
            new = []
            if e.cut is not None and hi - lo > 1e-5 and n < 40:
                # right next to a critical step the code drops weights below its own tolerance
                new = [p for p in ((e.cut, hi), (lo, e.cut)) if p[1] - p[0] > 0.02 * (r[1] - r[0])]
            if not new:
                # no case distinction the geometry explains: a single step may show that the code is wrong
                bad = len(C.fail)
                for t in (0.389, 0.77, 0.08, 0.955):
                    attempt(lo, hi, at=lo + t * (hi - lo))
                    if len(C.fail) > bad:
                        break
                else:
                    raise e
            todo += new


def one(C, it):
    k, r = it
    refine(C, r, lambda lo, hi, first=False, at=None: attempt(C, k, lo, hi, first, at), k in (0, 1) and r[0] == 0)


FLOORS = [("a population is streamed from its departure point", 45), ("a population that meets a wall returns along its path as the opposite one", 30),
          ("nothing is streamed from beyond an open boundary", 3), ("streaming applies the matrix to the populations before the step", 1),
          ("a new step size replaces the old one completely", 2), ("assembling again gives the same operator", 4), ("only owned and ghost cells are read", 45)]


def a01(C):
    tab = directions(C)
    m = MS.mod()
    items = []
    for k, s in enumerate(scenarios()):
        X = build(C, tab, m, s)
        pick = s[8]
        if DEEP and pick:
            pick *= 5
        for r in X.ranges(s[7], pick):
            items.append((k, r))

    SHARED.update(tab=tab, m=m)
    for r, n in FLOORS:
        C.floor(r, n)
    common.pmap(C, one, items)


RUN = {"A01": a01}
