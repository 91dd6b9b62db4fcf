"""Models of the finite element infrastructure: a structured abstract mesh, degrees of freedom, shape functions, block matrices.

The mesh is a tensor product grid with arbitrary (non-uniform) lines. Cells, faces and vertices are numbered as deal.II does it;
degrees of freedom and local support points are numbered by scrambled permutations, so that nothing may rely on a numbering."""
import itertools
import math
import re

import absint
import poly as A
from absint import AnalysisError, Ptr, UNDEF, set_nop_vtable
from models import key, nop
import models_la as LA

END = (1 << 64) - 1
NOIDX = (1 << 32) - 1


def lobatto(n):
    """Gauss-Lobatto points and weights on [0,1]"""
    def P(k, x):
        a, b = 1.0, x
        if k == 0:
            return 1.0
        for j in range(2, k + 1):
            a, b = b, ((2 * j - 1) * x * b - (j - 1) * a) / j
        return b
    N = n - 1
    xs = []
    for i in range(n):
        x = -math.cos(math.pi * i / N)
        if i not in (0, N):
            for _ in range(60):
                # roots of P'_N
                d = N * (P(N - 1, x) - x * P(N, x)) / (1 - x * x)
                d2 = (2 * x * d - N * (N + 1) * P(N, x)) / (1 - x * x)
                x -= d / d2
        xs.append(x)
    ws = [2.0 / (N * n * P(N, x) ** 2) for x in xs]
    return [(x + 1) / 2 for x in xs], [w / 2 for w in ws]


def gauss(n):
    xs, ws = [], []
    for i in range(n):
        x = -math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(60):
            a, b = 1.0, x
            for j in range(2, n + 1):
                a, b = b, ((2 * j - 1) * x * b - (j - 1) * a) / j
            if n == 1:
                a, b = 1.0, x
            d = n * (x * b - a) / (x * x - 1)
            x -= b / d
        xs.append((x + 1) / 2)
        ws.append(1.0 / ((1 - x * x) * d * d))
    return xs, ws


class Fault(AnalysisError):
    """the interpreted code uses the mesh in a way deal.II forbids"""


class Mesh:
    def __init__(self, lines, p, bids, owner=None, dg=False, level=1, mine_first=True):
        self.lines = [[float(x) for x in l] for l in lines]
        self.dim = len(lines)
        self.n = [len(l) - 1 for l in lines]
        self.nc = math.prod(self.n)
        self.p, self.bids, self.dg = p, bids, dg
        self.owner = owner or (lambda c: 0)         # 0: mine, 1: ghost, 2: artificial
        self.levels, self.mine_first = level, mine_first
        self.x1, self.w1 = lobatto(p + 1)
        self.userflags = set()
        # local order: scrambled
        k = (p + 1) ** self.dim
        s = next(s for s in (5, 7, 11, 13, 17) if math.gcd(s, k) == 1)
        lex = list(itertools.product(range(p + 1), repeat=self.dim))
        # discontinuous elements are numbered lexicographically, for the others the order is arbitrary
        self.loc = [lex[j if dg else (j * s + 1) % k][::-1] for j in range(k)]
        self.nloc = k
        self.number()

    # ---- distorted cells: same measure and edges, but the volume element and the normals vary in space ----
    warp = False

    def jac(self, c, u):
        """volume element at the unit point u of cell c, relative to its mean; the mean over a symmetric rule is 1"""
        if not self.warp:
            return 1.0
        return 1.0 + sum(0.1 * math.sin(1.3 + 2.9 * c + 1.7 * d) * (2 * x - 1) for d, x in enumerate(u))

    def face_geometry(self, c, f, u):
        """(surface element relative to the flat face, outward normal) at the unit point u of face f; neighbours share it"""
        d, sign = f // 2, 1.0 if f % 2 else -1.0
        if not self.warp:
            return 1.0, [sign if k == d else 0.0 for k in range(self.dim)]
        g, n = c, self.neighbor(c, f)
        if f % 2 and n is not None:
            g, f = n, f - 1
        s = sum(math.sin(0.7 + 1.1 * k) * x for k, x in enumerate(u) if k != d)
        t = [(0.004, 0.3, -0.2, -0.003)[(g + f + k) % 4] * (1 + 0.2 * s) for k in range(self.dim)]
        t[d] = 1.0
        z = math.sqrt(sum(x * x for x in t))
        return 1.0 + 0.1 * math.sin(g + 2.0 * f + s), [sign * x / z for x in t]

    # ---- cells ------------------------------------------------------------------
    def mi(self, c):
        r = []
        for n in self.n:
            r.append(c % n)
            c //= n
        return r

    def ci(self, m):
        c = 0
        for x, n in zip(reversed(m), reversed(self.n)):
            c = c * n + x
        return c

    def neighbor(self, c, f):
        m = self.mi(c)
        m[f // 2] += 1 if f % 2 else -1
        return self.ci(m) if 0 <= m[f // 2] < self.n[f // 2] else None

    def face(self, c, f):
        n = self.neighbor(c, f)
        if f % 2 and n is not None:
            c, f = n, f - 1
        return c * 2 * self.dim + f

    def face_bid(self, fid):
        c, f = divmod(fid, 2 * self.dim)
        return self.bids[f] if self.neighbor(c, f) is None else None

    def face_vertices(self, fid):
        c, f = divmod(fid, 2 * self.dim)
        m = self.mi(c)
        d = f // 2
        out = []
        # deal.II: face vertices lexicographic in the remaining directions; in 3d the y faces run (z, x)
        rest = [k for k in range(self.dim) if k != d]
        if self.dim == 3 and d == 1:
            rest = [2, 0]
        for o in itertools.product((0, 1), repeat=self.dim - 1):
            o = o[::-1]
            v = list(m)
            v[d] += f % 2
            for k, x in zip(rest, o):
                v[k] += x
            out.append(tuple(v))
        return out

    def point(self, v):
        return [self.lines[d][v[d]] for d in range(self.dim)]

    def box(self, c):
        m = self.mi(c)
        return [(self.lines[d][m[d]], self.lines[d][m[d] + 1]) for d in range(self.dim)]

    def u2r(self, c, u):
        return [A.add(lo, A.mul(x, hi - lo)) for x, (lo, hi) in zip(u, self.box(c))]

    def r2u(self, c, x):
        return [A.scale(A.sub(y, lo), 1 / (hi - lo)) for y, (lo, hi) in zip(x, self.box(c))]

    # ---- degrees of freedom --------------------------------------------------------
    def number(self):
        if self.dg:
            self.nd = self.nc * self.nloc
        else:
            self.nd = math.prod(n * self.p + 1 for n in self.n)
        s = next(s for s in (37, 41, 43, 47, 53, 59) if math.gcd(s, self.nd) == 1)
        self.perm = lambda g: (g * s + 3) % self.nd
        self.cell_dofs = []
        self.support = [None] * self.nd
        for c in range(self.nc):
            m = self.mi(c)
            r = []
            for j, l in enumerate(self.loc):
                if self.dg:
                    g = c * self.nloc + j
                else:
                    g = 0
                    for d in reversed(range(self.dim)):
                        g = g * (self.n[d] * self.p + 1) + m[d] * self.p + l[d]
                g = self.perm(g)
                r.append(g)
                self.support[g] = [lo + self.x1[l[d]] * (hi - lo) for d, (lo, hi) in enumerate(self.box(c))]
            self.cell_dofs.append(r)
        # a shared degree of freedom belongs to the process of lower rank
        own = [set() for _ in range(self.nd)]
        for c in range(self.nc):
            for g in self.cell_dofs[c]:
                own[g].add(self.owner(c))
        self.dof_owner = [0 if 0 in o and (self.mine_first or len(o) == 1) else min(o - {0} or {0}) for o in own]

    def unit_support(self, j):
        return [self.x1[k] for k in self.loc[j]]

    # ---- shape functions -----------------------------------------------------------
    def lag(self, k, x):
        r = 1.0
        for j, y in enumerate(self.x1):
            if j != k:
                r = A.mul(r, A.scale(A.sub(x, y), 1 / (self.x1[k] - y)))
        return r

    def dlag(self, k, x, order=1):
        """derivative of the one-dimensional polynomial"""
        idx = [j for j in range(len(self.x1)) if j != k]
        den = math.prod(self.x1[k] - self.x1[j] for j in idx)
        s = 0.0
        for drop in itertools.permutations(idx, order):
            t = 1.0 / den
            for j in idx:
                if j not in drop:
                    t = A.mul(t, A.sub(x, self.x1[j]))
            s = A.add(s, t)
        return s

    def shape(self, j, u):
        r = 1.0
        for d, k in enumerate(self.loc[j]):
            r = A.mul(r, self.lag(k, u[d]))
        return r

    def dshape(self, c, j, u, ders):
        """mixed derivative in real coordinates; ders = order per direction"""
        r = 1.0
        for d, k in enumerate(self.loc[j]):
            lo, hi = self.box(c)[d]
            r = A.mul(r, A.scale(self.dlag(k, u[d], ders[d]) if ders[d] else self.lag(k, u[d]), (hi - lo) ** -ders[d]))
        return r

    def min_edge(self, c):
        return min(hi - lo for lo, hi in self.box(c))

    def on_face(self, j, f):
        return self.loc[j][f // 2] == (self.p if f % 2 else 0)


# ---- interpreter side ----------------------------------------------------------------
def M(I):
    return I.mesh


def region(I, st, name, size=1 << 20):
    return Ptr(I.new_region(st, name, size), 0)


def cached(I, st, k, make):
    v = st.x.get(("mesh", k))
    if v is None:
        v = st.x[("mesh", k)] = make()
    return v


def it_id(I, st, p):
    v = I.load(st, p, "i64")
    if type(v) is not int:
        raise AnalysisError("cell iterator without a value")
    return v


def put_it(I, st, out, cid, dof):
    I.store(st, out, cid, "i64")
    I.store(st, Ptr(out.r, out.o + 8), I.tria, "p")
    if dof:
        I.store(st, Ptr(out.r, out.o + 16), I.dof, "p")


def isdof(F):
    """does the iterator of this method carry a DoFHandler pointer?"""
    return "DoF" in F.d.split("(")[0]


def size(s):
    return 24 if "DoF" in s else 16


def m_it_ctor(I, st, a, F):
    if len(a) == 1:
        I.store(st, a[0], END, "i64")
        I.store(st, Ptr(a[0].r, a[0].o + 8), Ptr(0, 0) if False else 0, "p")
        if isdof(F):
            I.store(st, Ptr(a[0].r, a[0].o + 16), 0, "p")
        return st, None
    return m_it_copy(I, st, a, F)


def m_it_copy(I, st, a, F):
    src = F.d[F.d.index("("):]
    head = F.d[:F.d.index("(")]
    head = head[:head.rfind("operator")] if "operator" in head else head
    n = min(size(src), size(head))
    for o, t in ((0, "i64"), (8, "p"), (16, "p")):
        if o < n:
            I.store(st, Ptr(a[0].r, a[0].o + o), I.load(st, Ptr(a[1].r, a[1].o + o), t), t)
    if n == 16 and size(head) == 24 and I.load(st, Ptr(a[0].r, a[0].o + 16), "p") in (0, UNDEF):
        raise AnalysisError("iterator over degrees of freedom assigned from a triangulation iterator without a handler: %s, %s" % (F.d, src))
    return st, (a[0] if F.ret == "p" else None)


def m_it_self(I, st, a, F):
    return st, a[0]


def m_it_inc(I, st, a, F):
    c = it_id(I, st, a[0])
    I.store(st, a[0], c + 1 if c + 1 < M(I).nc else END, "i64")
    return st, a[0]


def m_it_dec(I, st, a, F):
    c = it_id(I, st, a[0])
    I.store(st, a[0], c - 1 if c != END else M(I).nc - 1, "i64")
    return st, a[0]


def m_it_cmp(I, st, a, F):
    x, y = it_id(I, st, a[0]), it_id(I, st, a[1])
    op = re.search(r"operator(==|!=|<)", F.d).group(1)
    return st, int({"==": x == y, "!=": x != y, "<": x < y}[op])


def cell(I, st, p):
    c = it_id(I, st, p)
    if c >= M(I).nc:
        raise Fault("dereferenced the end iterator")
    I.cells_used.add(c)
    return c


def inrange(f, I):
    if type(f) is not int or not 0 <= f < 2 * M(I).dim:
        raise Fault("face number %s" % (f,))
    return f


def m_face(I, st, a, F):
    c = cell(I, st, a[1])
    put_it(I, st, a[0], M(I).face(c, inrange(a[2], I)), "DoFCellAccessor" in F.d)
    return st, None


def m_neighbor(I, st, a, F):
    n = M(I).neighbor(cell(I, st, a[1]), inrange(a[2], I))
    if n is None:
        raise Fault("asked for the neighbour of a boundary face")
    put_it(I, st, a[0], n, "DoFCellAccessor" in F.d)
    return st, None


def m_neighbor_index(I, st, a, F):
    n = M(I).neighbor(cell(I, st, a[0]), inrange(a[1], I))
    return st, NOIDX if n is None else n


def m_neighbor_of(I, st, a, F):
    c, f = cell(I, st, a[0]), inrange(a[1], I)
    if M(I).neighbor(c, f) is None:
        raise Fault("asked for the neighbour of a boundary face")
    return st, f ^ 1


def m_at_boundary(I, st, a, F):
    m = M(I)
    if "CellAccessor" in F.d.split("(")[0]:
        c = cell(I, st, a[0])
        fs = [inrange(a[1], I)] if len(a) > 1 else range(2 * m.dim)
        return st, int(any(m.neighbor(c, f) is None for f in fs))
    return st, int(m.face_bid(it_id(I, st, a[0])) is not None)


def m_bid(I, st, a, F):
    b = M(I).face_bid(it_id(I, st, a[0]))
    return st, NOIDX if b is None else b


def m_owned(I, st, a, F):
    o = M(I).owner(cell(I, st, a[0]))
    n = re.search(r"::(is_\w+|subdomain_id)\(", F.d).group(1)
    if n == "subdomain_id":
        return st, (0, 1, 4294967294)[o]
    return st, int({"is_locally_owned": o == 0, "is_ghost": o == 1, "is_artificial": o == 2, "is_active": True}[n])


def const(v):
    return lambda I, st, a, F: (st, v)


def m_bad(what):
    def f(I, st, a, F):
        raise AnalysisError(what)
    return f


def m_vertex(I, st, a, F):
    m = M(I)
    d = F.d.split("(")[0]
    if re.search(r"TriaAccessor<(\d), \1, \1", d):
        c = cell(I, st, a[0])
        v = tuple(x + ((a[1] >> k) & 1) for k, x in enumerate(m.mi(c)))
    else:
        v = m.face_vertices(it_id(I, st, a[0]))[a[1]]

    def make():
        p = region(I, st, "vertex", 64)
        for k, x in enumerate(m.point(v)):
            I.store(st, Ptr(p.r, 8 * k), x, "d")
        return p
    return st, cached(I, st, ("vertex", v), make)


def m_minvertex(I, st, a, F):
    return st, M(I).min_edge(cell(I, st, a[0]))


def m_measure(I, st, a, F):
    return st, math.prod(hi - lo for lo, hi in M(I).box(cell(I, st, a[0])))


def m_userflag(I, st, a, F):
    k = ("mesh", "flag", it_id(I, st, a[0]))
    if "user_flag_set" in F.d:
        return st, st.x.get(k, 0)
    st.x[k] = 1
    return st, None


def m_begin(I, st, a, F):
    put_it(I, st, a[0], 0, isdof(F))
    return st, None


def m_end(I, st, a, F):
    put_it(I, st, a[0], END, isdof(F))
    return st, None


def m_iters(I, st, a, F):
    """range of all (active) cells, begin and end one after the other; the mesh is flat"""
    n = 24 if isdof(F) else 16
    put_it(I, st, a[0], 0, isdof(F))
    put_it(I, st, Ptr(a[0].r, a[0].o + n), END, isdof(F))
    return st, None


def m_range_at(second):
    def m(I, st, a, F):
        n = 24 if isdof(F) else 16
        for o, t in ((0, "i64"), (8, "p"), (16, "p"))[:n // 8]:
            I.store(st, Ptr(a[0].r, a[0].o + o), I.load(st, Ptr(a[1].r, a[1].o + o + n * second), t), t)
        return st, None
    return m


# ---- vectors ---------------------------------------------------------------------------
def vec_data(I, st, p, elem):
    """(begin, length) of a std::vector"""
    b, e = I.load(st, p, "p"), I.load(st, Ptr(p.r, p.o + 8), "p")
    if not isinstance(b, Ptr):
        return b, 0
    return b, (e.o - b.o) // elem


def vec_make(I, st, p, elem, n, name="vec"):
    r = region(I, st, name, max(elem * n, 8))
    for o, v in ((0, 0), (8, elem * n), (16, elem * n)):
        I.store(st, Ptr(p.r, p.o + o), Ptr(r.r, v), "p")
    return r


# ---- degrees of freedom ------------------------------------------------------------------
def m_cell_dofs(I, st, a, F):
    c = cell(I, st, a[0])
    if M(I).owner(c) == 2:
        I.event(st, "unknown to this process", ("degrees of freedom of cell %d" % c,))
    b, n = vec_data(I, st, a[1], 4)
    if n != M(I).nloc:
        raise Fault("get_dof_indices: the vector has %s entries" % n)
    for j, g in enumerate(M(I).cell_dofs[c]):
        I.store(st, Ptr(b.r, b.o + 4 * j), g, "i32")
    return st, None


def m_face_dofs(I, st, a, F):
    m = M(I)
    c, f = divmod(it_id(I, st, a[0]), 2 * m.dim)
    js = sorted((j for j in range(m.nloc) if m.on_face(j, f)), key=lambda j: [x for k, x in enumerate(m.loc[j]) if k != f // 2])
    js = js[1:] + js[:1]                         # same order on opposite faces, but not the order of the cells
    g = [] if m.dg else [m.cell_dofs[c][j] for j in js]
    b, n = vec_data(I, st, a[1], 4)
    if n != len(g):
        raise Fault("get_dof_indices: the vector has %s entries" % n)
    for j, x in enumerate(g):
        I.store(st, Ptr(b.r, b.o + 4 * j), x, "i32")
    return st, None


def m_handler(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    I.dof, I.tria = a[0], a[1]
    st.x[("mesh", "dofs")] = 0
    return st, None


def m_distribute(I, st, a, F):
    st.x[("mesh", "dofs")] = 1
    kind = st.x.get(("fe",) + key(a[1]))
    if kind is None:
        raise AnalysisError("distribute_dofs of an unknown element")
    I.event(st, "distribute_dofs", kind)
    return st, None


def m_ndofs(I, st, a, F):
    return st, M(I).nd if st.x.get(("mesh", "dofs")) else 0


def iset(st, p):
    s = st.x.get(("is",) + key(p))
    return frozenset() if s is None else s


def m_owned_dofs(I, st, a, F):
    m = M(I)

    def make():
        p = region(I, st, "owned dofs", 512)
        st.x[("is",) + key(p)] = frozenset(g for g in range(m.nd) if m.dof_owner[g] == 0)
        return p
    return st, cached(I, st, "owned", make)


def m_relevant(I, st, a, F):
    m = M(I)
    s = set()
    for c in range(m.nc):
        if m.owner(c) < 2:
            s.update(m.cell_dofs[c])
    st.x[("is",) + key(a[1])] = frozenset(s)
    return st, None


def m_is_ctor(I, st, a, F):
    if len(a) == 2 and isinstance(a[1], Ptr):
        st.x[("is",) + key(a[0])] = iset(st, a[1])
    else:
        st.x[("is",) + key(a[0])] = frozenset()
    return st, (a[0] if F.ret == "p" else None)


def m_is_add(I, st, a, F):
    k = ("is",) + key(a[0])
    st.x[k] = iset(st, a[0]) | {a[1]}
    return st, None


def m_is_has(I, st, a, F):
    if type(a[1]) is not int:
        raise AnalysisError("is_element of a symbolic index")
    return st, int(a[1] in iset(st, a[0]))


def m_is_count(I, st, a, F):
    return st, len(iset(st, a[0])) if "n_elements" in F.d else M(I).nd


# ---- finite elements ---------------------------------------------------------------------
def m_fe(I, st, a, F):
    if getattr(I, "fe_vtable", None):
        I.store(st, a[0], Ptr(I.fe_vtable, 0), "p")
    else:
        set_nop_vtable(I, st, a[0])
    b, n = vec_data(I, st, Ptr(a[1].r, a[1].o + I.quad_off), 8)
    xs = [I.load(st, Ptr(b.r, b.o + 8 * k), "d") for k in range(n)]
    if "DGQ" in F.d:
        kind = "dg"
    else:
        kind = "cg"
    m = M(I)
    ok = n == m.p + 1 and all(abs(x - y) < 1e-12 for x, y in zip(xs, m.x1))
    st.x[("fe",) + key(a[0])] = (kind, n - 1, ok)
    # dofs_per_cell and friends are constant data members
    base = a[0].r
    fe_default(I, st.writable(base), kind == "dg", a[0].o)
    return st, None


def fe_default(I, r, dg, at=0):
    m = M(I)
    pf = 0 if dg else (m.p + 1) ** (m.dim - 1)
    deg = getattr(I, "fe_degree_off", None)
    r.default = lambda off, ty: (pf if off == at + I.fe_face_off else m.nloc if off == at + I.fe_cell_off else m.p if deg is not None and off == at + deg else UNDEF) if ty == "i32" else UNDEF


def m_support_points(I, st, a, F):
    m = M(I)

    def make():
        p = region(I, st, "unit_support_points", 64)
        r = vec_make(I, st, p, 8 * m.dim, m.nloc)
        for j in range(m.nloc):
            for d, x in enumerate(m.unit_support(j)):
                I.store(st, Ptr(r.r, 8 * (j * m.dim + d)), x, "d")
        return p
    return st, cached(I, st, "usp", make)


def m_support_on_face(I, st, a, F):
    return st, int(M(I).on_face(a[1], inrange(a[2], I)))


def fe_virtual(I, st, a):
    raise AnalysisError("unmodelled virtual function of a finite element")


absint.BUILTIN["__fe_virtual"] = fe_virtual
absint.BUILTIN["__fe_support"] = lambda I, st, a: m_support_on_face(I, st, a, None)


def m_fe_ref(I, st, a, F):
    return st, cached(I, st, "fe", lambda: _fe(I, st))


def _fe(I, st):
    p = region(I, st, "finite element", 4096)
    fe_default(I, st.writable(p.r), M(I).dg)
    I.store(st, p, Ptr("vt:fe", 0), "p")
    return p


def m_ndpc(I, st, a, F):
    return st, M(I).nloc


# ---- quadratures (base, Subscriptor: [vtable ...], points and weights as vectors) ---------------
def qlayout(I):
    return I.quad_off


def quad_put(I, st, p, pts, ws):
    """pts: list of coordinate lists"""
    set_nop_vtable(I, st, p)
    d = len(pts[0]) if pts else 1
    o = I.quad_off
    I.store(st, Ptr(p.r, p.o + o - 8), len(pts), "i32")
    r = vec_make(I, st, Ptr(p.r, p.o + o), 8 * d, len(pts), "quadrature points")
    for k, pt in enumerate(pts):
        for j, x in enumerate(pt):
            I.store(st, Ptr(r.r, 8 * (k * d + j)), x, "d")
    r = vec_make(I, st, Ptr(p.r, p.o + o + 24), 8, len(pts), "quadrature weights")
    for k, x in enumerate(ws):
        I.store(st, Ptr(r.r, 8 * k), x, "d")
    st.x[("q",) + key(p)] = (tuple(tuple(x) for x in pts), tuple(ws))


def quad_get(I, st, p):
    q = st.x.get(("q",) + key(p))
    if q is None:
        raise AnalysisError("unknown quadrature")
    return q


def tensor_rule(xs, ws, d):
    pts, w = [], []
    for k in itertools.product(range(len(xs)), repeat=d):
        k = k[::-1]
        pts.append([xs[i] for i in k])
        w.append(math.prod(ws[i] for i in k))
    return pts, w


def m_rule(I, st, a, F):
    n, d = re.search(r"dealii::(\w+)<(\d)>::", F.d).groups()
    if n == "QGaussLobatto":
        xs, ws = lobatto(a[1])
    elif n == "QGauss":
        xs, ws = gauss(a[1])
    else:
        raise AnalysisError("quadrature rule " + n)
    quad_put(I, st, a[0], *tensor_rule(xs, ws, int(d)))
    return st, None


def m_quad(I, st, a, F):
    d = int(re.search(r"Quadrature<(\d)>", F.d).group(1))
    if "Quadrature<%d> const&)" % d in F.d or "Quadrature<%d>&&)" % d in F.d:
        quad_put(I, st, a[0], *map(list, quad_get(I, st, a[1])))
        return st, None
    b, n = vec_data(I, st, a[1], 8 * d)
    pts = [[I.load(st, Ptr(b.r, b.o + 8 * (k * d + j)), "d") for j in range(d)] for k in range(n)]
    ws = [math.inf] * n
    if len(a) > 2:
        b, n2 = vec_data(I, st, a[2], 8)
        ws = [I.load(st, Ptr(b.r, b.o + 8 * k), "d") for k in range(n2)]
    quad_put(I, st, a[0], pts, ws)
    return st, None


def m_quad_point(I, st, a, F):
    d = int(re.search(r"Quadrature<(\d)>", F.d).group(1))
    quad_get(I, st, a[0])
    b = I.load(st, Ptr(a[0].r, a[0].o + I.quad_off), "p")
    return st, Ptr(b.r, b.o + 8 * d * a[1])


def m_quad_size(I, st, a, F):
    return st, len(quad_get(I, st, a[0])[0])


# ---- finite element values -------------------------------------------------------------------
UPD = {"values": 1, "gradients": 2, "hessians": 4, "points": 0x20, "jxw": 0x40, "normals": 0x80}


class Vals:
    """immutable description of an FEValues object"""
    def __init__(self, pts, ws, flags, face):
        self.pts, self.ws, self.flags, self.face = pts, ws, flags, face


def m_fev(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    face = "FEFaceValues" in F.d
    qa = [x for x in a[1:] if isinstance(x, Ptr) and ("q",) + key(x) in st.x]
    if not qa:
        raise AnalysisError("FEValues without a quadrature")
    pts, ws = st.x[("q",) + key(qa[-1])]
    st.x[("fev",) + key(a[0])] = Vals(pts, ws, a[-1], face)
    st.x[("fevq",) + key(a[0])] = qa[-1]
    q = region(I, st, "quadrature of fe values", 512)
    quad_put(I, st, q, [list(p) for p in pts], list(ws))
    st.x[("fevq",) + key(a[0])] = q
    # n_quadrature_points and dofs_per_cell are data members: answered by position
    I.fev_layout(I, st, a[0], len(pts))
    return st, None


def fev(I, st, p, need=None):
    v = st.x.get(("fev",) + key(p))
    if v is None:
        raise AnalysisError("finite element values without construction")
    if need and not v.flags & UPD[need]:
        I.event(st, "missing update flag", (need,))
    c = st.x.get(("fevc",) + key(p))
    if c is None:
        raise Fault("finite element values used before reinit")
    return v, c


def m_fev_reinit(I, st, a, F):
    c = cell(I, st, a[1])
    f = inrange(a[2], I) if len(a) > 2 else None
    st.x[("fevc",) + key(a[0])] = (c, f)
    st.x.pop(("fevjxw",) + key(a[0]), None)
    return st, None


def unit(I, v, cf, q):
    c, f = cf
    pt = v.pts[q]
    if not v.face:
        return list(pt)
    d = f // 2
    rest = [k for k in range(M(I).dim) if k != d]
    if M(I).dim == 3 and d == 1:
        rest = [2, 0]
    u = [0.0] * M(I).dim
    u[d] = float(f % 2)
    for k, x in zip(rest, pt):
        u[k] = x
    return u


def qidx(v, q):
    if type(q) is not int or not 0 <= q < len(v.pts):
        raise Fault("quadrature point %s of %d" % (q, len(v.pts)))
    return q


def m_shape(I, st, a, F):
    v, cf = fev(I, st, a[0], "values")
    if type(a[1]) is not int or not 0 <= a[1] < M(I).nloc:
        raise AnalysisError("shape function %s" % (a[1],))
    p = region(I, st, "shape value", 8)
    I.store(st, p, M(I).shape(a[1], unit(I, v, cf, qidx(v, a[2]))), "d")
    return st, p


def m_shape_grad(I, st, a, F):
    v, cf = fev(I, st, a[0], "gradients")
    m = M(I)
    u = unit(I, v, cf, qidx(v, a[2]))
    p = region(I, st, "grad", 64)
    for d in range(m.dim):
        I.store(st, Ptr(p.r, 8 * d), m.dshape(cf[0], a[1], u, [int(k == d) for k in range(m.dim)]), "d")
    return st, p


def m_shape_hessian(I, st, a, F):
    v, cf = fev(I, st, a[0], "hessians")
    m = M(I)
    u = unit(I, v, cf, qidx(v, a[2]))
    p = region(I, st, "hessian", 128)
    for d in range(m.dim):
        for e in range(m.dim):
            o = [0] * m.dim
            o[d] += 1
            o[e] += 1
            I.store(st, Ptr(p.r, 8 * (d * m.dim + e)), m.dshape(cf[0], a[1], u, o), "d")
    return st, p


def jxw(I, v, cf, q):
    h = [hi - lo for lo, hi in M(I).box(cf[0])]
    if cf[1] is not None:
        h[cf[1] // 2] = 1.0
    u = unit(I, v, cf, q)
    return v.ws[q] * math.prod(h) * (M(I).jac(cf[0], u) if cf[1] is None else M(I).face_geometry(cf[0], cf[1], u)[0])


def m_jxws(I, st, a, F):
    v, cf = fev(I, st, a[0], "jxw")
    p = region(I, st, "JxW", 64)
    r = vec_make(I, st, p, 8, len(v.pts))
    for q in range(len(v.pts)):
        I.store(st, Ptr(r.r, 8 * q), jxw(I, v, cf, q), "d")
    return st, p


def m_jxw(I, st, a, F):
    v, cf = fev(I, st, a[0], "jxw")
    return st, jxw(I, v, cf, qidx(v, a[1]))


def m_normals(I, st, a, F):
    v, cf = fev(I, st, a[0], "normals")
    m = M(I)
    p = region(I, st, "normals", 64)
    r = vec_make(I, st, p, 8 * m.dim, len(v.pts))
    for q in range(len(v.pts)):
        n = m.face_geometry(cf[0], cf[1], unit(I, v, cf, q))[1]
        for d in range(m.dim):
            I.store(st, Ptr(r.r, 8 * (q * m.dim + d)), n[d], "d")
    return st, p


def m_qpoint(I, st, a, F):
    v, cf = fev(I, st, a[0], "points")
    m = M(I)
    p = region(I, st, "quadrature point", 64)
    for d, x in enumerate(m.u2r(cf[0], unit(I, v, cf, qidx(v, a[1])))):
        I.store(st, Ptr(p.r, 8 * d), x, "d")
    return st, p


def m_get_quad(I, st, a, F):
    return st, st.x[("fevq",) + key(a[0])]


# ---- matrices ------------------------------------------------------------------------------
def m_blockobj(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    return st, None


def m_block_reinit(I, st, a, F):
    k = key(a[0])
    if isinstance(a[1], Ptr):
        raise AnalysisError("block reinit from an object")
    if a[1] != a[2]:
        raise AnalysisError("rectangular block matrix")
    old = st.x.get(("blk",) + k)
    p = region(I, st, "blocks", 1 << 30)
    st.x[("blk",) + k] = (p, a[1])
    for i in range(a[1] * a[1]):
        st.x[("mat", p.r, 64 * i)] = {}
    return st, None


def m_block(I, st, a, F):
    b = st.x.get(("blk",) + key(a[0]))
    if b is None:
        raise AnalysisError("block of an uninitialised block object")
    p, n = b
    i, j = a[1], a[2]
    if type(i) is not int or type(j) is not int or not (0 <= i < n and 0 <= j < n):
        raise Fault("block (%s, %s) of %d" % (i, j, n))
    return st, Ptr(p.r, 64 * (i * n + j))


def mat(st, p, write=False):
    k = ("mat",) + key(p)
    d = st.x.get(k)
    if d is None:
        d = st.x[k] = {}
    elif write:
        pass
    return d


def m_sp_reinit(I, st, a, F):
    st.x[("mat",) + key(a[0])] = {}
    st.x[("rows",) + key(a[0])] = iset(st, a[1]) if isinstance(a[1], Ptr) else None
    return st, None


def m_sp_add(I, st, a, F):
    if type(a[1]) is not int or type(a[2]) is not int:
        raise AnalysisError("sparsity entry with symbolic index")
    mat(st, a[0])[(a[1], a[2])] = 1
    return st, None


def idx_list(I, st, p):
    b, n = vec_data(I, st, p, 4)
    return [I.load(st, Ptr(b.r, b.o + 4 * k), "i32") for k in range(n)]


def m_sp_couple(I, st, a, F):
    """AffineConstraints without lines: every row is coupled to every column"""
    two = F.d.count("std::vector") > 1
    rows = idx_list(I, st, a[1])
    cols = idx_list(I, st, a[2]) if two else rows
    d = mat(st, a[3 if two else 2])
    for r in rows:
        for c in cols:
            d[(r, c)] = 1
    return st, None


def m_mat_set(I, st, a, F):
    """matrix = number: all entries of the pattern"""
    if type(a[1]) not in (int, float) or a[1] != 0:
        raise AnalysisError("a matrix is set to a value that is not zero")
    st.x[("mat",) + key(a[0])] = {}
    return st, a[0]


def m_blk_set(I, st, a, F):
    b = st.x.get(("blk",) + key(a[0]))
    if b is None:
        raise AnalysisError("an uninitialised block matrix is set")
    for k in range(b[1] ** 2):
        if type(a[1]) not in (int, float) or a[1] != 0:
            raise AnalysisError("a matrix is set to a value that is not zero")
        st.x[("mat", b[0].r, 64 * k)] = {}
    return st, a[0]


def m_sp_compress(I, st, a, F):
    st.x[("done",) + key(a[0])] = 1
    return st, None


def m_mat_reinit(I, st, a, F):
    st.x[("mat",) + key(a[0])] = {}
    if "SparseMatrix const" in F.d:
        pat = st.x.get(("pat",) + key(a[1]))
        if pat is None:
            raise AnalysisError("matrix with the pattern of an uninitialised matrix")
        st.x[("pat",) + key(a[0])] = pat
        return st, None
    st.x[("pat",) + key(a[0])] = frozenset(mat(st, a[1]))
    if not st.x.get(("done",) + key(a[1])):
        I.event(st, "matrix from an uncompressed pattern", ())
    return st, None


def m_mat_add(I, st, a, F):
    if type(a[1]) is not int or type(a[2]) is not int:
        raise AnalysisError("matrix entry with symbolic index")
    pat = st.x.get(("pat",) + key(a[0]))
    if pat is None or (a[1], a[2]) not in pat:
        I.event(st, "entry outside the sparsity pattern", (key(a[0]), a[1], a[2]))
    d = mat(st, a[0])
    d[(a[1], a[2])] = A.add(d.get((a[1], a[2]), 0.0), a[3])
    return st, None


def m_mat_compress(I, st, a, F):
    I.event(st, "compress", (a[1] if len(a) > 1 else None,))
    return st, None


def m_block_vmult(I, st, a, F):
    b = st.x.get(("blk",) + key(a[0]))
    if b is None:
        raise AnalysisError("product with an uninitialised matrix")
    q, n = b
    if LA.nblk(I, st, a[1]) != n or LA.nblk(I, st, a[2]) != n:
        I.event(st, "product of a matrix and vectors of different size", (n, LA.nblk(I, st, a[1]), LA.nblk(I, st, a[2])))
    src = [LA.tv_vals(I, st, LA.blk_get(I, st, a[2], j))[1] for j in range(n)]
    out = [[0.0] * M(I).nd for _ in range(n)]
    for i in range(n):
        for j in range(n):
            for (r, c), v in st.x.get(("mat", q.r, 64 * (i * n + j)), {}).items():
                out[i][r] = A.add(out[i][r], A.mul(v, src[j][c]))
    for i in range(n):
        rid, _ = LA.tv_vals(I, st, LA.blk_get(I, st, a[1], i))
        for k, x in enumerate(out[i]):
            I.store(st, Ptr(rid, 8 * k), x, "d")
    I.event(st, "streamed", ())
    return st, None


def m_collect(I, st, a, F):
    st.x[("sizes",) + key(a[0])] = 1
    return st, None


def blocks(I, st, p):
    """{(i, j): {(row, col): value}} of a block matrix"""
    b = st.x.get(("blk",) + key(p))
    if b is None:
        return {}
    q, n = b
    return {(i, j): st.x.get(("mat", q.r, 64 * (i * n + j)), {}) for i in range(n) for j in range(n)}


# ---- periodic faces ---------------------------------------------------------------------------
def m_collect_faces(I, st, a, F):
    m = M(I)
    dofs = "DoFHandler" in F.d.split("(")[0] or "collect_periodic_faces<dealii::DoFHandler" in F.d
    b1, b2, d, vec = a[1], a[2], a[3], a[4]
    f1, f2 = 2 * d, 2 * d + 1
    if m.bids[f1] == b2 and m.bids[f2] == b1:
        f1, f2 = f2, f1
    if m.bids[f1] != b1 or m.bids[f2] != b2:
        raise AnalysisError("collect_periodic_faces: no faces with these ids in this direction")
    pairs = []
    for c in range(m.nc):
        if m.neighbor(c, f1) is None:
            mm = m.mi(c)
            mm[d] = m.n[d] - 1 if f2 % 2 else 0
            pairs.append((c, m.ci(mm)))
    lay = I.fp_dof if dofs else I.fp_tria
    r = vec_make(I, st, vec, lay["size"], len(pairs), "periodic face pairs")
    for k, (c1, c2) in enumerate(pairs):
        o = k * lay["size"]
        put_it(I, st, Ptr(r.r, o), c1, dofs)
        put_it(I, st, Ptr(r.r, o + lay["cell1"]), c2, dofs)
        I.store(st, Ptr(r.r, o + lay["face"]), f1, "i32")
        I.store(st, Ptr(r.r, o + lay["face"] + 4), f2, "i32")
        I.store(st, Ptr(r.r, o + lay["orient"]), 1, "i64")
    return st, None


def m_fp_copy(I, st, a, F):
    lay = I.fp_dof if "DoFCellAccessor" in F.d else I.fp_tria
    if len(a) == 1:
        I.store(st, P8(a[0], lay["orient"]), 0, "i64")
        return st, None
    I.memcpy(st, a[0], a[1], lay["matrix"])
    return st, (a[0] if F.ret == "p" else None)


# ---- shared with the library models ------------------------------------------------------------
from models_std import P8, isnull, same  # noqa: E402


def m_hook(which):
    def f(I, st, a, F):
        out, c, p = a
        m = M(I)
        x = [I.load(st, P8(p, 8 * k), "d") for k in range(m.dim)]
        if any(v is UNDEF for v in x):
            raise AnalysisError("mapping an undefined point")
        cid = cell(I, st, c)
        for k, v in enumerate(m.u2r(cid, x) if which == "u2r" else m.r2u(cid, x)):
            I.store(st, P8(out, 8 * k), v, "d")
        return st, None
    return f


def m_mapping(I, st, a, F):
    d = int(re.search(r"Mapping\w+<(\d)", F.d).group(1))
    kind = re.search(r"dealii::(Mapping\w+)<", F.d).group(1)
    I.event(st, "mapping", (kind,))
    vt = [g for g in I.mod.globals if re.match(r"_ZTV12ProbeMappingILi%dE" % d, g)]
    if not vt:
        raise AnalysisError("no stand-in mapping")
    I.store(st, a[0], Ptr("g:" + vt[0], 16), "p")
    return st, None


def m_function(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    n = a[1] if len(a) > 1 and type(a[1]) is int else 1
    if "ConstantFunction" in F.d:
        n = a[2] if len(a) > 2 and type(a[2]) is int else 1
        st.x[("const",) + key(a[0])] = a[1]
    I.store(st, P8(a[0], I.ncomp_off), n, "i32")
    return st, None


def m_set_time(I, st, a, F):
    st.x[("time",) + key(a[0])] = a[1]
    return st, None


def m_get_time(I, st, a, F):
    return st, st.x.get(("time",) + key(a[0]), 0.0)


def m_minmax(I, st, a, F):
    """sum, minimum, maximum, ..., average over all processes: the minimum is that of another process when the check says so"""
    x = getattr(I, "global_min", None)
    x = a[1] if x is None else x
    I.event(st, "collective", ("min_max_avg", a[1]))
    for k, v in ((0, A.add(a[1], x)), (8, x), (16, a[1]), (32, A.scale(A.add(a[1], x), 0.5))):
        I.store(st, P8(a[0], k), v, "d")
    return st, None


IT = r"^(?:[^(]* )?dealii::Tria(?:Raw|Active)?Iterator<.*>::"
RNG = r"^(?:[^(]* )?dealii::IteratorRange<.*>::"
OIT = r"^(?:[^(]* )?dealii::IteratorOverIterators<.*>::"
ACC = r"^dealii::(?:CellAccessor|TriaAccessor|DoFAccessor|DoFCellAccessor)<[^(]*>::"
D = r"^(?:[^(]* )?dealii::"
MESH = [
    (r"^dealii::(DoFHandler|Triangulation)<[^(]*>::(active_)?cell_iterators\(\)", m_iters),
    (RNG + r"begin\(", m_range_at(0)), (RNG + r"end\(", m_range_at(1)), (RNG + r"(~|IteratorRange\(\))", nop),
    (OIT + r"~", nop), (OIT + r"operator\+\+\(", m_it_inc), (OIT + r"operator!=\(", m_it_cmp), (OIT + r"operator(->|\*)\(", m_it_self), (OIT + r"operator dealii::Tria", m_it_self),
    (r"BlockSparseMatrix::vmult<", m_block_vmult),
    (r"dealii::Utilities::MPI::min_max_avg\(double", m_minmax),
    (r"^dealii::(Functions::)?\w*Function<[^(]*>::\w*Function\(", m_function), (r"^dealii::FunctionTime<[^(]*>::set_time\(", m_set_time), (r"^dealii::FunctionTime<[^(]*>::get_time\(", m_get_time),
    (r"^vhook_u2r", m_hook("u2r")), (r"^vhook_r2u", m_hook("r2u")),
    (IT + r"~", nop), (IT + r"Tria(Raw|Active)?Iterator[<(]", m_it_ctor), (IT + r"operator=[<(]", m_it_copy), (IT + r"operator(->|\*)\(", m_it_self), (IT + r"operator\+\+\(", m_it_inc), (IT + r"operator--\(", m_it_dec),
    (IT + r"operator(==|!=|<)\(", m_it_cmp), (r"dealii::(DoF|Tria|Cell)\w*Accessor<.*>::operator(==|!=|<)", m_it_cmp),
    (ACC + r"face\(", m_face), (ACC + r"neighbor\(", m_neighbor), (ACC + r"neighbor_index\(", m_neighbor_index), (ACC + r"neighbor_(of_neighbor|face_no)\(", m_neighbor_of), (ACC + r"neighbor_is_coarser\(", const(0)),
    (ACC + r"at_boundary\(", m_at_boundary), (ACC + r"boundary_id\(", m_bid), (ACC + r"(is_locally_owned|is_ghost|is_artificial|is_active|subdomain_id)\(", m_owned),
    (ACC + r"(has_children|number_of_children|n_children|refinement_case)\(", const(0)), (ACC + r"(child|neighbor_child_on_subface|n_active_descendants)\(", m_bad("the mesh has no children")), (ACC + r"vertex\(", m_vertex),
    (ACC + r"minimum_vertex_distance\(", m_minvertex), (ACC + r"measure\(", m_measure), (ACC + r"(user_flag_set|set_user_flag)\(", m_userflag), (r"^dealii::DoFCellAccessor<[^(]*>::get_dof_indices\(", m_cell_dofs),
    (r"^dealii::DoFAccessor<[^(]*>::get_dof_indices\(", m_face_dofs), (ACC + r"get_fe\(", m_fe_ref), (ACC + r"nth_active_fe_index\(", const(0)),
    (r"^dealii::DoFHandler<[^(]*>::(DoFHandler\()", m_handler), (r"^dealii::DoFHandler<[^(]*>::distribute_dofs\(", m_distribute), (r"^dealii::DoFHandler<[^(]*>::n_dofs\(", m_ndofs), (r"^dealii::DoFHandler<[^(]*>::locally_owned_dofs\(", m_owned_dofs),
    (r"^dealii::DoFHandler<[^(]*>::(get_fe|get_fe_collection)\(", m_fe_ref), (r"^dealii::(DoFHandler|Triangulation)<[^(]*>::begin(_active)?\(", m_begin), (r"^dealii::(DoFHandler|Triangulation)<[^(]*>::end\(", m_end), (r"^dealii::DoFHandler<[^(]*>::(~|clear)", nop),
    (r"^dealii::Triangulation<[^(]*>::n_(global_)?levels\(", lambda I, st, a, F: (st, M(I).levels)), (r"Triangulation<[^(]*>::n_(global_)?active_cells\(", lambda I, st, a, F: (st, M(I).nc)), (r"add_periodicity\(", lambda I, st, a, F: (I.event(st, "add_periodicity", ()), (st, None))[1]),
    (D + r"DoFTools::extract_locally_relevant_dofs", m_relevant),
    (D + r"IndexSet::IndexSet\(|^dealii::IndexSet::operator=\(", m_is_ctor), (D + r"IndexSet::add_index\(", m_is_add), (D + r"IndexSet::is_element\(", m_is_has), (D + r"IndexSet::(n_elements|size)\(", m_is_count),
    (D + r"FE_(Q|DGQArbitraryNodes|DGQ)<[^(]*>::FE_\w+\(", m_fe), (D + r"FiniteElement<[^(]*>::get_unit_support_points\(", m_support_points), (r"has_support_on_face\(", m_support_on_face), (r"(n_dofs_per_cell|max_dofs_per_cell)\(", m_ndpc),
    (D + r"Q(GaussLobatto|Gauss|GaussChebyshev|GaussLobattoChebyshev)<\d>::Q\w+\(", m_rule), (D + r"Quadrature<\d>::Quadrature\(", m_quad), (D + r"Quadrature<\d>::point\(", m_quad_point), (D + r"Quadrature<\d>::size\(", m_quad_size),
    (D + r"FE(Face)?Values<[^(]*>::FE(Face)?Values\(", m_fev), (D + r"FE(Face)?Values<[^(]*>::reinit", m_fev_reinit), (D + r"FEValuesBase<[^(]*>::shape_value\(", m_shape), (D + r"FEValuesBase<[^(]*>::shape_grad\(", m_shape_grad),
    (D + r"FEValuesBase<[^(]*>::shape_hessian\(", m_shape_hessian), (D + r"FEValuesBase<[^(]*>::get_JxW_values\(", m_jxws), (D + r"FEValuesBase<[^(]*>::JxW\(", m_jxw), (D + r"FEValuesBase<[^(]*>::get_(all_)?normal_vectors\(", m_normals),
    (D + r"FEValuesBase<[^(]*>::quadrature_point\(", m_qpoint), (D + r"FEValuesBase<[^(]*>::get_fe\(", m_fe_ref), (D + r"FE(Face)?Values<[^(]*>::get_quadrature\(", m_get_quad),
    (D + r"TrilinosWrappers::Block(SparseMatrix|SparsityPattern)::Block\w+\(\)", m_blockobj), (r"Block(SparseMatrix|SparsityPattern\w*)(<[^(]*>)?::reinit\(unsigned int, unsigned int\)", m_block_reinit), (r"Block(MatrixBase|SparsityPatternBase)<[^(]*>::block\(", m_block),
    (D + r"TrilinosWrappers::SparsityPattern::SparsityPattern\(.*IndexSet", m_sp_reinit), (D + r"AffineConstraints<[^(]*>::add_entries_local_to_global", m_sp_couple),
    (D + r"TrilinosWrappers::SparseMatrix::operator=\(double", m_mat_set), (r"Block(SparseMatrix|MatrixBase)(<[^(]*>)?::operator=\(double", m_blk_set),
    (D + r"TrilinosWrappers::SparsityPattern::reinit\(", m_sp_reinit), (D + r"TrilinosWrappers::SparsityPattern::add\(", m_sp_add), (D + r"TrilinosWrappers::SparsityPattern::compress\(", m_sp_compress),
    (D + r"TrilinosWrappers::SparseMatrix::reinit\(", m_mat_reinit), (D + r"TrilinosWrappers::SparseMatrix::add\(", m_mat_add), (r"BlockMatrixBase<[^(]*>::compress\(", m_mat_compress), (r"Block\w+::collect_sizes\(", m_collect),
    (r"collect_periodic_faces<", m_collect_faces), (D + r"GridTools::PeriodicFacePair<.*>::~", nop), (D + r"GridTools::PeriodicFacePair<.*>::(PeriodicFacePair|operator=)\(", m_fp_copy), (D + r"TableBase<\d, double>::empty\(", const(1)), (D + r"TableBase<\d, bool>", nop), (D + r"Table<\d, bool>", nop),
    (D + r"Mapping(Cartesian|Q1|Q)<[^(]*>::Mapping\w+\(", m_mapping), (D + r"TimerOutput::Scope::", nop), (D + r"(RefinementCase|AffineConstraints)<", nop),
]
