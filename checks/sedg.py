"""A02: the discontinuous Galerkin streaming operator on the abstract mesh."""
import os

import common
from common import A, Broken
import advection as AD
import boundary as BO
import mesh as MS
import models
import models_la as LA
import models_mesh as MM
from solver import where, show

DEEP = os.environ.get("VERIF_TIER") == "thorough"
EQ = 1e-9


class Dg:
    def __init__(self, C, m, tab, full, mesh, bcs, which, scaling, central, name, procs=1):
        self.C, self.m, self.mesh, self.bcs, self.which, self.scaling, self.central, self.name, self.procs = C, m, mesh, bcs, which, scaling, central, name, procs
        E, self.O = tab[(mesh.dim, which)]
        self.L = full[(mesh.dim, which)]
        self.E = [[scaling * c for c in e] for e in E]

    def at(self, fn, cls="SEDGMinLee"):
        return where(self.m, r"natrium::%s<%dul>::%s\(" % (cls, self.mesh.dim, fn))

    def world(self):
        w = MS.World(self.m, self.mesh, None, self.procs, extra=BO.MODELS)
        w.problem(self.bcs)
        for k, *a in self.bcs:
            if k == "wall":
                w.st.x[("velocity",) + models.key(w.call("velocity_of", w.coll, a[0]))] = a[0]
        w.dg(self.which, self.scaling, 0.1, int(self.central))
        w.call("setup", w.op)
        return w

    def neighbor(self, c, f):
        """(cell, face) across face f, also across periodic boundaries; None at a wall"""
        m = self.mesh
        n = m.neighbor(c, f)
        if n is not None:
            return n
        b = m.bids[f]
        if any(k == "periodic" and b in a[:2] for k, *a in self.bcs):
            mi = m.mi(c)
            mi[f // 2] = 0 if f % 2 else m.n[f // 2] - 1
            return m.ci(mi)
        return None

    def expected(self, cs2, W):
        """{(block, row): {(block, column): value}} and {(block, row): value} of the strong form with the chosen flux"""
        m = self.mesh
        rows, vec = {}, {}
        D = m.dim
        for c in range(m.nc):
            if m.owner(c) != 0:
                continue
            box = m.box(c)
            for i, g in enumerate(m.cell_dofs[c]):
                ui = m.unit_support(i)
                for al in range(1, len(self.E)):
                    e = self.E[al]
                    row = rows.setdefault((al, g), {})

                    def add(k, v):
                        row[k] = row.get(k, 0.0) + v
                    for j, h in enumerate(m.cell_dofs[c]):
                        add((al, h), -sum(e[d] * m.dshape(c, j, ui, [int(k == d) for k in range(D)]) for d in range(D)))
                    for f in range(2 * D):
                        d = f // 2
                        if not m.on_face(i, f):
                            continue
                        js, nrm = m.face_geometry(c, f, ui)
                        en = sum(x * y for x, y in zip(e, nrm))
                        lift = en * js / (m.w1[m.loc[i][d]] * (box[d][1] - box[d][0]) * m.jac(c, ui))
                        k = 0.5 if self.central else 1.0 if en < 0 else 0.0
                        if not k or abs(en) < EQ * self.scaling:
                            continue
                        add((al, g), k * lift)
                        n = self.neighbor(c, f)
                        if n is not None:
                            loc = list(m.loc[i])
                            loc[d] = 0 if f % 2 else m.p
                            h = m.cell_dofs[n][next(q for q, l in enumerate(m.loc) if list(l) == loc)]
                            add((al, h), -k * lift)
                        else:
                            add((self.O[al], g), -k * lift)
                            u = BO.velocity(m.bids[f], m.support[g], 0.0)
                            eu = 0.0
                            for a, b in zip(e, u):
                                eu = A.add(eu, A.scale(b, a))
                            vec[(al, g)] = A.add(vec.get((al, g), 0.0), A.scale(eu, -k * lift * 2 * W[al] / cs2))
        return rows, vec

    def read(self, w):
        rows = {}
        for (i, j), d in w.matrix().items():
            for (r, c), v in d.items():
                t = rows.setdefault((i + 1, r), {})
                t[(j + 1, c)] = A.add(t.get((j + 1, c), 0.0), v)
        vec = {}
        p = w.call("vector", w.op)
        for i in range(1, len(self.E)):
            for k, x in enumerate(LA.tv_vals(w.I, w.st, LA.blk_get(w.I, w.st, p, i - 1))[1]):
                if not A.isnum(x) or x:
                    vec[(i, k)] = x
        return rows, vec

    def diff(self, got, want, what):
        """first difference of two sparse tables"""
        for k in sorted(set(got) | set(want)):
            a, b = got.get(k, 0.0), want.get(k, 0.0)
            if isinstance(a, dict) or isinstance(b, dict):
                a, b = a or {}, b or {}
                for q in sorted(set(a) | set(b)):
                    if not A.vanishes(A.sub(a.get(q, 0.0), b.get(q, 0.0))):
                        return "%s: population %d at %s, contribution of population %d at %s is %s instead of %s" % (
                            what, k[0], self.pt(k[1]), q[0], self.pt(q[1]), A.show(a.get(q, 0.0)), A.show(b.get(q, 0.0)))
            elif not A.vanishes(A.sub(a, b)):
                return "%s: population %d at %s is %s instead of %s" % (what, k[0], self.pt(k[1]), A.show(a), A.show(b))
        return ""

    def pt(self, g):
        return "(%s)" % ", ".join("%.3g" % x for x in self.mesh.support[g])

    def check(self):
        C, m = self.C, self.mesh
        w = self.world()
        L = self.L
        s = self.scaling
        cs2 = s * s * sum(x * e[0] ** 2 for x, e in zip(L.W, L.E))
        W = [float(x) for x in L.W]
        wantM, wantV = self.expected(cs2, W)
        w.call("reassemble", w.op)
        gotM, gotV = self.read(w)
        C.use(w.I)
        key = self.name
        inner = {k: v for k, v in wantM.items()}
        walls = [k for k, v in wantM.items() if any(q[0] != k[0] for q in v)]
        foreign = sorted(set(gotM) - set(wantM)) + sorted(k for k in gotV if k not in wantM)
        pick = lambda t, ks: {k: t[k] for k in ks if k in t}
        free = [k for k in wantM if k not in set(walls)]
        d = self.diff(pick(gotM, free), pick(wantM, free), "matrix")
        C.ob("the rate of change is the advection of the local polynomial plus the fluxes through the faces", key, not d, self.at("assembleAndDistributeInternalFace"), d)
        C.extra["rows away from walls"] = C.extra.get("rows away from walls", []) + [len(free)]
        if walls:
            d = self.diff(pick(gotM, walls), pick(wantM, walls), "matrix")
            C.ob("what enters at a wall is the opposite population", key, not d, self.at("assembleBoundary", "VelocityNeqBounceBack"), d)
            d = self.diff(pick(gotV, wantM), wantV, "vector")
            C.ob("a wall adds the momentum of its velocity", key, not d, self.at("assembleBoundary", "VelocityNeqBounceBack"), d)
        else:
            C.ob("nothing is added where there is no wall", key, not gotV, self.at("reassemble"), "%d entries" % len(gotV))
        C.ob("only rows of locally owned nodes are written", key, not foreign, self.at("reassemble"), "rows %s" % foreign[:4])
        # consequences stated on the code's own matrix: a uniform state at rest does not change, mass is conserved
        wt = {}
        for c in range(m.nc):
            vol = 1.0
            for lo, hi in m.box(c):
                vol *= hi - lo
            for i, g in enumerate(m.cell_dofs[c]):
                x = vol
                for l in m.loc[i]:
                    x *= m.w1[l]
                x *= m.jac(c, m.unit_support(i))
                wt[g] = x
        worst = max(((abs(sum(W[q[0]] * v for q, v in r.items())), k) for k, r in gotM.items()), default=(0, None))
        scale = max(abs(v) for r in gotM.values() for v in r.values())
        C.ob("a uniform fluid at rest stays at rest", key, worst[0] < 1e-9 * scale, self.at("reassemble"), "population %s changes at the rate %.3g" % (worst[1], worst[0]))
        if self.procs == 1 and not m.warp:
            col = {}
            for (al, g), r in gotM.items():
                for q, v in r.items():
                    col[q] = col.get(q, 0.0) + wt[g] * v
            worst = max(((abs(v), k) for k, v in col.items()), default=(0, None))
            C.ob("streaming neither creates nor destroys mass", key, worst[0] < 1e-9 * scale, self.at("reassemble"), "population %s contributes %.3g" % (worst[1], worst[0]))
        ev = [e for e in w.st.events if e.kind == "entry outside the sparsity pattern"]
        C.ob("the sparsity pattern contains every matrix entry", key, not ev, self.at("updateSparsityPattern"), "%d entries outside, e.g. %s" % (len(ev), ev[0].args[1:] if ev else ""))
        ev = [e for e in w.st.events if e.kind in ("unknown to this process", "missing update flag", "matrix from an uncompressed pattern")]
        C.ob("only initialised values of owned and ghost cells are read", key, not ev, self.at("reassemble"), "; ".join("%s %s" % (e.kind, e.args) for e in ev[:2]))
        ev = [e for e in w.st.events if e.kind == "compress"]
        C.ob("the assembled matrix is exchanged between processes", key, [e.args[0] for e in ev if A.isnum(e.args[0])] == [2], self.at("reassemble"), "compress events %s" % [e.args for e in ev])
        w.call("reassemble", w.op)
        M2, V2 = self.read(w)
        d = self.diff(M2, gotM, "matrix") or self.diff(V2, gotV, "vector")
        C.ob("assembling again gives the same operator", key, not d, self.at("reassemble"), d)


L2, L23, L3, L3B = AD.L2, AD.L23, AD.L3, AD.L3B
ROW = lambda c: {0: 0, 1: 0, 2: 1, 3: 2, 4: 1}[c % 5]


def scenarios():
    ids = [0, 1, 2, 3]
    ids3 = [0, 1, 2, 3, 4, 5]
    w5 = [[0, 1, 1.8, 3, 3.9, 5], [0, 0.7, 2]]
    S = [("2D periodic", L2, 1, ids, AD.PER2, 0, 1.0), ("2D periodic, order 3", L2, 3, ids, AD.PER2, 0, 0.7),
         ("2D channel", L23, 2, ids, AD.CHAN, 0, 1.3), ("2D channel, other numbering of the sides", L2, 1, [1, 0, 2, 3], AD.CHANR, 0, 1.0),
         ("2D channel, large numbers of the sides", L2, 1, [5, 9, 4, 7], [("periodic", 5, 9, 0), ("wall", 4), ("wall", 7)], 0, 1.0),
         ("2D box", L23, 2, ids, AD.BOX2, 0, 0.8), ("2D channel, D2Q25H", L2, 1, ids, AD.CHAN, 1, 0.7),
         ("3D periodic", L3, 1, ids3, AD.PER3, 0, 1.0), ("3D channel, D3Q19", L3, 2, ids3, AD.MIX3, 1, 1.0), ("3D duct, D3Q19", L3B, 1, ids3, AD.BOX3, 1, 1.4),
         ("2D channel, large scaling", L2, 1, ids, AD.CHAN, 0, 1e4), ("2D channel, small scaling", L2, 1, ids, AD.CHAN, 0, 1e-3), ("2D periodic, small scaling", L2, 2, ids, AD.PER2, 0, 1e-3),
         ("2D channel, distorted cells", L23, 2, ids, AD.CHAN, 0, 1.3), ("2D periodic, distorted cells", L2, 2, ids, AD.PER2, 0, 1.0), ("3D channel, D3Q19, distorted cells", L3, 1, ids3, AD.MIX3, 1, 1.0),
         ("2D channel on several processes", w5, 1, ids, AD.CHAN, 0, 1.0, ROW, True), ("2D periodic on several processes", w5, 2, ids, AD.PER2, 0, 1.0, ROW, False)]
    if DEEP:
        S += [("3D box, order 2", L3, 2, ids3, AD.BOX3, 0, 0.9), ("2D box, order 4", L2, 4, ids, AD.BOX2, 0, 1.0), ("3D periodic, D3Q45", L3B, 1, ids3, AD.PER3, 2, 1.0)]
    return S


SHARED = {}


def one(C, it):
    k, central = it
    name, lines, p, bids, bcs, which, scaling = scenarios()[k][:7]
    owner, first = scenarios()[k][7:] or (None, True)
    mesh = MM.Mesh(lines, p, bids, owner, dg=True, mine_first=first)
    mesh.warp = "distorted" in name
    X = Dg(C, SHARED["m"], SHARED["tab"], SHARED["full"], mesh, bcs, which, scaling, central, "%s, %s flux" % (name, "central" if central else "upwind"), 3 if owner else 1)
    try:
        X.check()
    except MM.Fault as e:
        C.ob("the mesh is only used as deal.II allows and nothing is refused", X.name, False, X.at("reassemble"), str(e))


def a02(C):
    tab, full = AD.directions(C, sets=True)
    SHARED.update(tab=tab, full=full, m=MS.mod())
    for r, n in [("the rate of change is the advection of the local polynomial plus the fluxes through the faces", 22), ("what enters at a wall is the opposite population", 14),
                 ("a wall adds the momentum of its velocity", 14), ("assembling again gives the same operator", 22), ("streaming neither creates nor destroys mass", 18)]:
        C.floor(r, n)
    common.pmap(C, one, [(k, c) for k in range(len(scenarios())) for c in (0, 1)])


RUN = {"A02": a02}
