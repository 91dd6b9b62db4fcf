"""The benchmark problems of the library: exact solutions, grids, boundaries, forces."""
import math
import re

import common
from common import *
import models_la as LA
import models_ph
from absint import Ptr
from models_mesh import key
from models_std import P8, isnull

STOP = LA.LA_RE + "|" + models_ph.PH_RE + (r"|^(const )?dealii::(?!(Tensor|Point)<|internal::(NumberType|TensorSubscriptor)|GridTools::transform)|dealii::Grid(Generator|Out)::|dealii::GridTools::(?!transform)|natrium::natrium_errorexit"
                                           r"|^natrium::(PeriodicBoundary|VelocityNeqBounceBack|ThermalBounceBack)<[^(]*>::\w+\(|^natrium::BoundaryCollection<[^(]*>::addBoundary|^vhook_|^std::basic_[io]?fstream|^std::basic_ostream")


def mod():
    return common.module("benchmarks.cpp", extra_stop=STOP, extra=["-fno-access-control"])


def nop(I, st, a, F):
    return st, None


def m_dvec(I, st, a, F):
    n = a[1]
    r = I.new_region(st, "dvec", 8 * n)
    for i in range(n):
        I.store(st, Ptr(r, 8 * i), 0.0, "d")
    st.x[("dvec",) + key(a[0])] = (r, n)
    return st, None


def m_dvec_at(I, st, a, F):
    r, n = st.x[("dvec",) + key(a[0])]
    if type(a[1]) is not int or a[1] >= n:
        raise Broken("component %s of a vector of %d" % (a[1], n))
    return st, Ptr(r, 8 * a[1])


def vec(I, st, p):
    r, n = st.x[("dvec",) + key(p)]
    return tuple(I.load(st, Ptr(r, 8 * i), "d") for i in range(n))


def m_function(I, st, a, F):
    if "ConstantFunction" in F.d:
        d = int(re.search(r"Function<(\d)", F.d).group(1))
        vt = [g for g in I.m.globals if re.match(r"_ZTV10ProbeConstILi%dE" % d, g)]
        I.store(st, a[0], Ptr("g:" + vt[0], 16), "p")
        st.x[("const",) + key(a[0])] = a[1]
    st.x[("time",) + key(a[0])] = a[2] if "ConstantFunction" not in F.d and len(a) > 2 else 0.0
    return st, None


def m_const(I, st, a, F):
    return st, st.x[("const",) + key(a[0])]


def m_set_time(I, st, a, F):
    st.x[("time",) + key(a[0])] = a[1]
    return st, None


def m_get_time(I, st, a, F):
    return st, st.x[("time",) + key(a[0])]


def pt(I, st, p, d):
    return tuple(I.load(st, P8(p, 8 * k), "d") for k in range(d))


def m_grid(I, st, a, F):
    d = int(re.search(r"Triangulation<(\d)", F.d).group(1))
    n = re.search(r"GridGenerator::(\w+)", F.d).group(1)
    if n == "hyper_cube":
        lo, hi, cells, col = (a[1],) * d, (a[2],) * d, 1, a[3]
    elif n == "hyper_rectangle":
        lo, hi, cells, col = pt(I, st, a[1], d), pt(I, st, a[2], d), 1, a[3]
    elif n == "subdivided_hyper_rectangle":
        lo, hi, cells, col = pt(I, st, a[2], d), pt(I, st, a[3], d), None, a[4]
    else:
        raise Broken("grid generator %s" % n)
    I.event(st, "grid", (key(a[0]), lo, hi, cells, col))
    st.x[("grid",)] = key(a[0])
    return st, None


def m_begin(I, st, a, F):
    I.store(st, a[0], 0, "i64")
    return st, None


def m_self(I, st, a, F):
    return st, a[0]


def m_face(I, st, a, F):
    I.store(st, a[0], a[2], "i64")
    return st, None


def m_setid(I, st, a, F):
    k = I.load(st, a[0], "i64")
    I.event(st, "face_id", (k, a[1]))
    return st, None


def m_refine(I, st, a, F):
    I.event(st, "refine", (key(a[0]), a[1]))
    return st, None


def sp(I, st, p):
    x = I.load(st, p, "p")
    return None if isnull(x) else key(x)


def m_boundary(I, st, a, F):
    n = re.search(r"^natrium::(\w+)<", F.d).group(1)
    r = F.d[F.d.index(n + "<"):]
    if "::" + n + "(" not in F.d:
        return st, I.fresh(F.ret, F.d, a)
    if n == "PeriodicBoundary":
        x = (a[1], a[2], a[3], sp(I, st, a[4]))
    else:
        x = (a[1], vec(I, st, a[2])) + tuple(a[3:])
    st.x[("boundary",) + key(a[0])] = (n,) + x
    return st, None


def m_add(I, st, a, F):
    k = ("boundary",) + sp(I, st, a[1])
    I.event(st, "add", (key(a[0]), st.x[k]))
    c = I.load(st, P8(a[1], 8), "p")    # the collection keeps a reference
    I.store(st, P8(c, 8), I.load(st, P8(c, 8), "i32") + 1, "i32")
    return st, None


def m_point(I, st, a, F):
    d = 3 if I.parts["dim"] == 3 else 2
    for k in range(d):
        I.store(st, P8(a[1], 8 * k), I.parts["x"][k], "d")
    I.event(st, "transform", (key(a[0]),))
    return st, None


def m_moved(I, st, a, F):
    d = 3 if I.parts["dim"] == 3 else 2
    out = []
    for k in range(d):
        v = I.load(st, P8(a[1], 8 * k), "d")
        out.append(v)
    I.event(st, "moved", tuple(out))
    return st, None


def m_null(I, st, a, F):
    for k in (0, 8):
        I.store(st, P8(a[0], k), 0, "p")
    return st, None


def m_throwing(I, st, a, F):
    I.throws.append((F.d, st.guards))
    return None, None


MODELS = [
    (r"^dealii::Vector<double>::Vector\(unsigned int\)", m_dvec), (r"^dealii::Vector<double>::operator\(\)\(|^dealii::Vector<double>::operator\[\]\(", m_dvec_at), (r"^dealii::Vector<double>::~", nop),
    (r"^dealii::(Functions::)?\w*Function<[^(]*>::\w*Function\(", m_function), (r"^dealii::(Functions::)?\w*Function<[^(]*>::~", nop), (r"^vhook_const", m_const), (r"^vhook_time", lambda *a: m_time(*a)),
    (r"^dealii::FunctionTime<[^(]*>::set_time\(", m_set_time), (r"^dealii::FunctionTime<[^(]*>::get_time\(", m_get_time),
    (r"dealii::GridGenerator::", m_grid), (r"Triangulation<[^(]*>::begin_active\(", m_begin), (r"^dealii::Tria(Raw|Active)?Iterator<.*>::operator->\(", m_self), (r"^dealii::CellAccessor<[^(]*>::face\(", m_face),
    (r"^dealii::TriaAccessor<[^(]*>::set_(all_)?boundary_ids?\(", m_setid), (r"Triangulation<[^(]*>::refine_global\(", m_refine), (r"Triangulation<[^(]*>::Triangulation\(", nop),
    (r"^natrium::(PeriodicBoundary|VelocityNeqBounceBack|ThermalBounceBack)<", m_boundary), (r"^natrium::BoundaryCollection<[^(]*>::addBoundary", m_add),
    (r"^vhook_point", m_point), (r"^vhook_moved", m_moved), (r"^natrium::MPIGuard::getInstance", m_null), (r"^natrium::natrium_errorexit", m_throwing),
    (r"^dealii::GridOut::|^void dealii::GridOut::|^std::basic_[io]?fstream|^std::basic_ostream<char, std::char_traits<char>>& std::endl|^natrium::Logging", nop),
]


class W:
    """one constructed benchmark"""

    def __init__(self, C, name, dim, args, fresh=True):
        m = mod()
        m.dim = dim
        self.I = I = common.interp(m, MODELS)
        I.parts = {"dim": dim, "x": None}
        self.dim, self.C, self.name = dim, C, name
        st = absint.State()
        st, n = I.call(st, "probe_size_" + name, [])
        self.b = Ptr(I.new_region(st, "bench", n), 0)
        self.st, _ = I.call(st, "probe_mk_" + name, [self.b] + [a() if callable(a) else a for a in args])
        self.x = [A.sym("xyz"[k]) for k in range(dim)]
        C.use(I)
        if self.st is None:
            return
        if I.approx:
            raise Broken("a loop of the constructor has unknown length: %s" % (I.approx[0],))
        self.ctor = [src(f) for f in (I.m.funcs[n] for n in sorted(I.visited)) if "/benchmarks/" in (f.file or "")]

    def ev(self, kind):
        return [e.args for e in self.st.events if e.kind == kind]

    def call(self, fn, *a):
        I, st = self.I, self.st
        st, r = I.call(st, fn, [self.b] + list(a))
        if st is None:
            raise Broken("%s of %s does not return" % (fn, self.name))
        self.st = st
        self.C.use(I)
        return r

    def point(self, x):
        p = Ptr(self.I.new_region(self.st, "pt", 24), 0)
        for k, v in enumerate(x):
            self.I.store(self.st, P8(p, 8 * k), v, "d")
        return p

    def u(self, t, x=None):
        x = self.x if x is None else x
        return [self.call("probe_u%d" % self.dim, t, self.point(x), c) for c in range(self.dim)]

    def rho(self, t, x=None):
        return self.call("probe_rho%d" % self.dim, t, self.point(self.x if x is None else x))

    def init(self, what, x=None):
        p = self.point(self.x if x is None else x)
        if what == "u":
            return [self.call("probe_iu%d" % self.dim, p, c) for c in range(self.dim)]
        return self.call("probe_i%s%d" % (what, self.dim), p)


# ---- differentiation of terms -----------------------------------------------------------
def diff(p, s, memo=None):
    """d p / d s for a symbol atom id s"""
    memo = {} if memo is None else memo

    def da(a):
        if a == s:
            return 1.0
        if a in memo:
            return memo[a]
        at = A.AT.atoms[a]
        r = 0.0
        if at.kind == "vn":
            r = go(at.defn)
        elif at.kind == "fn":
            n, args = at.args[0], at.args[1:]
            inner = [go(x) if isinstance(x, A.Poly) else 0.0 for x in args]
            if any(not A.isnum(i) or i != 0 for i in inner):
                x, dx = args[0], inner[0]
                if n == "sin":
                    r = A.mul(A.func("cos", x), dx)
                elif n == "cos":
                    r = A.neg(A.mul(A.func("sin", x), dx))
                elif n == "exp":
                    r = A.mul(A.atom_poly(at), dx)
                elif n == "tanh":
                    r = A.mul(A.sub(1.0, A.power(A.atom_poly(at), 2)), dx)
                elif n == "sqrt":
                    r = A.mul(A.scale(A.inv(A.atom_poly(at)), 0.5), dx)
                elif n == "log":
                    r = A.div(dx, x)
                elif n == "pow" and A.isnum(args[1]):
                    r = A.mul(A.scale(A.func("pow", x, args[1] - 1), args[1]), dx)
                else:
                    raise Broken("derivative of %s" % n)
        memo[a] = r
        return r

    def go(q):
        if not isinstance(q, A.Poly):
            return 0.0
        res = 0.0
        for m, c in q.t.items():
            for a, e in m:
                d = da(a)
                if A.isnum(d) and d == 0:
                    continue
                rest = {tuple((b, f - (b == a)) for b, f in m if f - (b == a) != 0): c * e}
                res = A.add(res, A.mul(A.Poly(rest), d))
        return res

    return go(p)


def aid(s):
    (m, c), = s.t.items()
    return m[0][0]


def D(p, *syms):
    for s in syms:
        p = diff(p, aid(s))
    return p


def at(p, **k):
    return A.subst(p, {aid(A.sym(n)): v for n, v in k.items()}) if isinstance(p, A.Poly) else p


RANGES = {"nu": (0.05, 0.2), "t": (0.05, 0.4), "L": (2.0, 5.0)}     # where decaying exponentials are far from zero


def vanish(p):
    return A.vanishes(p, ranges=RANGES)


def tidy(p):
    return A.show(p)[:300]


# ---- N02: grids, boundaries, refinement --------------------------------------------------
S = A.sym


def lz(n):
    return lambda: A.sym(n)


WALL = ("VelocityNeqBounceBack", "ThermalBounceBack")
# name: (variant, dim, constructor arguments, lower corner, upper corner, periodic directions, wall velocities {(direction, side): vector}, straight walls)
def Z(d):
    return (0.0,) * d


def problems():
    out = []
    out.append(("tgv2", "", 2, [lz("nu"), lz("cs"), 1, lz("L"), lz("uh")], lambda: ((0.0, 0.0), (S("L"), S("L"))), (0, 1), lambda: {}, True))
    out.append(("tgv2_default", "", 2, [lz("nu")], lambda: ((0.0, 0.0), (2 * math.pi,) * 2), (0, 1), lambda: {}, True))
    out.append(("tgv3", "", 3, [lz("nu"), lz("cs"), 1, 2, lz("num"), 0], lambda: (Z(3), (2 * math.pi,) * 3), (0, 1, 2), lambda: {}, True))
    for un in (0, 1):
        out.append(("couette2", " unstructured" if un else "", 2, [lz("nu"), lz("U"), lz("L"), lz("t0"), un], lambda: (Z(2), (S("L"), S("L"))), (0,), lambda: {(1, 0): Z(2), (1, 1): (S("U"), 0.0)}, True))
        for L in (1, 2, 3):
            out.append(("couette3", " L=%d%s" % (L, " unstructured" if un else ""), 3, [lz("nu"), lz("U"), L, lz("t0"), un], lambda L=L: (Z(3), (float(L), 1.0, 1.0)), (0, 1),
                        lambda: {(2, 0): Z(3), (2, 1): (S("U"), 0.0, 0.0)}, True))
    out.append(("poiseuille2", "", 2, [lz("nu"), lz("ub"), lz("h"), lz("l"), 1], lambda: (Z(2), (S("l"), S("h"))), (0,), lambda: {(1, 0): Z(2), (1, 1): Z(2)}, True))
    out.append(("poiseuille3", "", 3, [lz("nu"), lz("ub"), lz("h"), lz("w"), lz("l"), 1], lambda: (Z(3), (S("l"), S("w"), S("h"))), (0, 1), lambda: {(2, 0): Z(3), (2, 1): Z(3)}, True))
    out.append(("periodic2", "", 2, [], lambda: (Z(2), (1.0, 1.0)), (0, 1), lambda: {}, True))
    out.append(("periodic3", "", 3, [], lambda: (Z(3), (1.0,) * 3), (0, 1, 2), lambda: {}, True))
    for tr in (0, 1):
        out.append(("riemann", " transformed" if tr else "", 2, [lz("nu")] + ([lz("tx"), lz("ty")] if tr else [0.0, 0.0]), lambda: (Z(2), (2.0, 2.0)), (), lambda: {(d, q): Z(2) for d in (0, 1) for q in (0, 1)}, True))
        out.append(("shear", " transformed" if tr else "", 2, [lz("nu"), lz("u0"), lz("kappa"), lz("pert")] + ([lz("tx"), lz("ty")] if tr else [0.0, 0.0]), lambda: (Z(2), (1.0, 1.0)), (0, 1), lambda: {}, True))
    out.append(("droplet", "", 2, [lz("nu"), lz("l"), lz("h"), lz("rl"), lz("rg"), lz("W"), lz("R0")], lambda: (Z(2), (S("l"), S("h"))), (0, 1), lambda: {}, True))
    moving = lambda: {(1, 0): (S("U"), 0.0), (1, 1): Z(2)}      # noqa: E731
    out.append(("lubrication", "", 2, [lz("nu"), lz("U"), lz("L"), lz("h"), lz("a"), 0.5, lz("rh"), 3], lambda: (Z(2), (S("L"), S("h"))), (0,), moving,
                lambda x: A.add(S("h"), A.add(A.mul(S("a"), cosk(x, 1)), A.mul(S("rh"), cosk(x, 3))))))
    out.append(("sinusoidal", "", 2, [lz("nu"), lz("U"), lz("L"), lz("h"), lz("a"), 0.5], lambda: (Z(2), (1.0, 1.0)), (0,), moving,
                lambda x: A.add(S("h"), A.mul(S("a"), A.func("sin", A.scale(A.div(x, S("L")), 2 * math.pi))))))
    return out


def cosk(x, n):
    return A.func("cos", A.scale(A.div(x, S("L")), 2 * n * math.pi))


FLOORS_N02 = (
    ("constructs", 19),
    ("domain", 47),
    ("faces marked on the single cell", 19),
    ("periodic pair on opposite faces", 33),
    ("periodic boundary of this mesh", 33),
    ("periodic direction", 33),
    ("one boundary per id", 95),
    ("refined as requested", 19),
    ("wall on one face", 28),
    ("wall velocity", 28),
    ("transforms this mesh", 9),
    ("transformation keeps periodic faces congruent", 28),
    ("transformation maps the boundary to itself", 34),
    ("transformation is not degenerate", 9),
    ("transformation gives the gap its shape", 3),
)


def n02(C):
    C.floors += FLOORS_N02
    mod()
    pmap(C, n02_one, range(len(problems())))


def n02_one(C, p):
    name, var, dim, args, dom, per, walls, straight = problems()[p]
    w = W(C, name, dim, args)
    key0 = name + var
    if not C.ob("constructs", key0, w.st is not None, name, "the constructor does not return"):
        return
    where = w.ctor[0]
    lo, hi = dom()
    g = w.ev("grid")
    if len(g) != 1:
        raise Broken("%d grids are generated" % len(g))
    mesh, glo, ghi, cells, col = g[0]
    for k in range(dim):
        C.ob("domain", "%s %s" % (key0, "xyz"[k]), vanish(A.sub(glo[k], lo[k])) and vanish(A.sub(ghi[k], hi[k])), where, "the domain is [%s, %s], expected [%s, %s]" % tuple(A.show(v) for v in (glo[k], ghi[k], lo[k], hi[k])))
    ids = {k: (k if col else 0) for k in range(2 * dim)}
    fid = w.ev("face_id")
    C.ob("faces marked on the single cell", key0, not fid or cells == 1, where, "boundary ids are set on the faces of the first of several cells")
    for k, i in fid:
        ids[k] = i
    face = {}
    for k, i in ids.items():
        face.setdefault(i, []).append(k)
    seen = {}
    for coll, b in w.ev("add"):
        if b[0] == "PeriodicBoundary":
            i1, i2, d, m = b[1:]
            seen[i1] = seen.get(i1, 0) + 1
            seen[i2] = seen.get(i2, 0) + 1
            C.ob("periodic pair on opposite faces", "%s direction %d" % (key0, d), face.get(i1) == [2 * d] and face.get(i2) == [2 * d + 1] or face.get(i2) == [2 * d] and face.get(i1) == [2 * d + 1], where,
                 "ids %s and %s are faces %s and %s, direction %s" % (i1, i2, face.get(i1), face.get(i2), d))
            C.ob("periodic boundary of this mesh", "%s direction %d" % (key0, d), m == mesh, where, "the boundary refers to another mesh")
            C.ob("periodic direction", "%s %s" % (key0, d), d in per, where, "direction %s should not be periodic" % d)
        else:
            i = b[1]
            seen[i] = seen.get(i, 0) + 1
            fs = face.get(i, [])
            if C.ob("wall on one face", "%s id %s" % (key0, i), len(fs) == 1, where, "faces %s carry the id" % fs):
                v = walls().get((fs[0] // 2, fs[0] % 2))
                C.ob("wall velocity", "%s id %s" % (key0, i), v is not None and len(v) == len(b[2]) and all(vanish(A.sub(x, y)) for x, y in zip(v, b[2])), where,
                     "the wall at face %s moves with (%s), expected %s" % (fs[0], ", ".join(A.show(x) for x in b[2]), v and ", ".join(A.show(x) for x in v)))
    for i in sorted(set(face) | set(seen)):
        C.ob("one boundary per id", "%s id %s" % (key0, i), seen.get(i, 0) == 1 and i in face, where, "id %s: on faces %s, in %d boundary descriptions" % (i, face.get(i), seen.get(i, 0)))
    # refinement and transformation
    n0 = len(w.st.events)
    w.I.parts["x"] = w.x
    w.call("probe_refine%d" % dim)
    new = w.st.events[n0:]
    ref = [e.args for e in new if e.kind == "refine"]
    C.ob("refined as requested", key0, [r for r in ref] == [(mesh, 3)], where, "refine(): %s" % (ref,))
    mv = [e.args for e in new if e.kind == "moved"]
    if len(mv) > 1:
        raise Broken("several transformations")
    if not mv:
        return
    tm = [e.args for e in new if e.kind == "transform"]
    C.ob("transforms this mesh", key0, tm[0][0] == mesh, where, "another mesh is transformed")
    C.extra.setdefault("transformations", []).append("%s: %s" % (key0, [A.show(v) for v in mv[0]]))

    def T(x):
        return [A.subst(v, {aid(w.x[k]): x[k] for k in range(dim)}) if isinstance(v, A.Poly) else v for v in mv[0]]

    for d in range(dim):
        xl, xh = list(w.x), list(w.x)
        xl[d], xh[d] = lo[d], hi[d]
        a, b = T(xl), T(xh)
        if d in per:
            for k in range(dim):
                ref = 0.0 if k != d else A.sub(hi[d], lo[d]) if straight is True else S("L")
                C.ob("transformation keeps periodic faces congruent", "%s direction %d component %d" % (key0, d, k), vanish(A.sub(A.sub(b[k], a[k]), ref)), where,
                     "periodic images differ by %s, expected %s" % (tidy(A.sub(b[k], a[k])), A.show(ref)))
        if straight is not True and d == 1:     # flat bottom, upper wall of the given shape
            C.ob("transformation gives the gap its shape", key0 + " bottom", vanish(a[1]), where, "the bottom is moved to %s" % tidy(a[1]))
            C.ob("transformation gives the gap its shape", key0 + " top", vanish(A.sub(b[1], straight(b[0]))), where, "height minus the documented shape: %s" % tidy(A.sub(b[1], straight(b[0]))))
        if straight is True:
            for q, x, e in ((0, a, lo[d]), (1, b, hi[d])):
                C.ob("transformation maps the boundary to itself", "%s face %d" % (key0, 2 * d + q), vanish(A.sub(x[d], e)), where, "face %d is moved to %s, expected %s" % (2 * d + q, tidy(x[d]), A.show(e)))
    J = [[D(mv[0][i], w.x[j]) for j in range(dim)] for i in range(dim)]
    det = A.sub(A.mul(J[0][0], J[1][1]), A.mul(J[0][1], J[1][0])) if dim == 2 else None
    if dim == 3:
        det = 0.0
        for i, j, k, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1)):
            det = A.add(det, A.scale(A.mul(A.mul(J[0][i], J[1][j]), J[2][k]), s))
    C.ob("transformation is not degenerate", key0, not vanish(det), where, "the Jacobian of the grid transformation vanishes")


# ---- N01: exact solutions, initial states, forces ----------------------------------------
def res0(C, rule, k, p, where, what):
    C.ob(rule, k, vanish(p), where, "%s: %s" % (what, tidy(p)))


def value_src(w, cls, fn):
    f = [g for g in w.I.m.funcs.values() if cls in g.d and "::" + fn + "::value(" in g.d]
    return src(f[0]) if f else cls


def shift(p, x, s):
    return A.subst(p, {aid(x): A.add(x, s)}) if isinstance(p, A.Poly) else p


def periodic(C, w, k, us, per, where):
    for n, u in us.items():
        for d, L in per:
            res0(C, "periodic over the domain", "%s %s direction %d" % (k, n, d), A.sub(shift(u, w.x[d], L), u), where, "value one period further minus value")


def initial_is_analytic(C, w, k, where, later):
    """the initial state is the exact solution at time zero, whatever was asked before"""
    u0, r0 = w.u(0.0), w.rho(0.0)
    w.u(later), w.rho(later)
    for c, (a, b) in enumerate(zip(w.init("u"), u0)):
        res0(C, "initial state is the solution at time zero", "%s velocity %d" % (k, c), A.sub(a, b), where, "initial minus exact velocity")
    res0(C, "initial state is the solution at time zero", k + " density", A.sub(w.init("rho"), r0), where, "initial minus exact density")
    res0(C, "initial temperature", k, A.sub(w.init("T"), 1.0), where, "initial temperature minus 1")


def s_tgv2(C):
    for ana, L in ((1, "L"), (1, None), (0, "L")):
        k = "TaylorGreenVortex2D%s%s" % ("" if L else " L=2pi", "" if ana else " without analytic density")
        w = W(C, "tgv2", 2, [lz("nu"), lz("cs"), ana, lz("L") if L else 2 * math.pi, lz("uh")])
        x, y = w.x
        t, nu, cs = S("t"), S("nu"), S("cs")
        u, v = w.u(t)
        rho = w.rho(t)
        wu, wr = value_src(w, "TaylorGreenVortex2D", "AnalyticVelocity"), value_src(w, "TaylorGreenVortex2D", "AnalyticDensity")
        if not ana:
            res0(C, "density without analytic initialisation", k, A.sub(rho, 1.0), wr, "rho - 1")
            continue
        res0(C, "divergence-free", k, A.add(D(u, x), D(v, y)), wu, "div u")
        p = A.mul(A.sub(rho, 1.0), A.mul(cs, cs))
        for n, q, z in (("x", u, x), ("y", v, y)):
            r = D(q, t)
            r = A.add(r, A.add(A.mul(u, D(q, x)), A.mul(v, D(q, y))))
            r = A.add(r, D(p, z))
            r = A.sub(r, A.mul(nu, A.add(D(q, x, x), D(q, y, y))))
            res0(C, "Navier-Stokes", "%s momentum %s" % (k, n), r, wu, "residual of the momentum equation")
        LL = S("L") if L else 2 * math.pi
        periodic(C, w, k, {"u": u, "v": v, "rho": rho}, [(0, LL), (1, LL)], wu)
        C.ob("moves", k, not vanish(u) and not vanish(v) and not vanish(p), wu, "the exact solution is at rest")
        res0(C, "amplitude", k, A.sub(at(u, t=0.0, x=(A.scale(LL, 0.25)), y=0.0, uh=0.0), 1.0), wu, "initial peak velocity minus 1")
        if L:
            initial_is_analytic(C, w, k, wu, t)
            res0(C, "viscosity of the problem", k, A.sub(w.call("probe_nu2"), nu), w.ctor[0], "getViscosity() - nu")


def s_tgv3(C):
    for ana, comp in ((1, 0), (1, 1), (0, 0), (0, 1)):
        k = "TaylorGreenVortex3D%s%s" % (" compressible" if comp else "", "" if ana else " without analytic density")
        w = W(C, "tgv3", 3, [lz("nu"), lz("cs"), ana, 2, lz("num"), comp])
        u = w.init("u")
        rho, T = w.init("rho"), w.init("T")
        wu, wr = value_src(w, "TaylorGreenVortex3D", "InitialVelocity"), value_src(w, "TaylorGreenVortex3D", "InitialDensity")
        res0(C, "initial temperature", k, A.sub(T, 1.0), wr, "initial temperature minus 1")
        if not ana:
            res0(C, "density without analytic initialisation", k, A.sub(rho, 1.0), wr, "rho - 1")
            continue
        div = 0.0
        for c in range(3):
            div = A.add(div, D(u[c], w.x[c]))
        res0(C, "divergence-free", k, div, wu, "div u")
        q = A.sub(rho, 1.0)
        p = A.div(q, S("num")) if comp else A.mul(q, A.mul(S("cs"), S("cs")))
        r = 0.0
        for i in range(3):
            r = A.add(r, D(p, w.x[i], w.x[i]))
            for j in range(3):
                r = A.add(r, A.mul(D(u[i], w.x[j]), D(u[j], w.x[i])))
        res0(C, "pressure balances the initial flow", k, r, wr, "laplace p + grad u : grad u")
        periodic(C, w, k, {"u": u[0], "v": u[1], "w": u[2], "rho": rho}, [(d, 2 * math.pi) for d in range(3)], wu)
        res0(C, "amplitude", k, A.sub(at(u[0], x=math.pi / 2, y=0.0, z=0.0), 1.0), wu, "peak velocity minus 1")


def series(nu, H, t, y, n=4000):
    """impulsively started Couette flow divided by the wall velocity"""
    r = A.div(y, H) if isinstance(y, A.Poly) else y / H
    for i in range(1, n):
        e = math.exp(-nu * (i * math.pi / H) ** 2 * t)
        if e < 1e-18:
            break
        c = (-1) ** i * 2 / (i * math.pi) * e
        r = A.add(r, A.scale(A.func("sin", A.scale(y, i * math.pi / H)), c))
    return r


def s_couette(C):
    for dim in (2, 3):
        for nu, L, t0, t in ((0.1, 1, 0.0, 1.0), (0.05, 2, 0.5, 0.7), (1.0, 1, 0.25, 0.0), (0.02, 3, 0.0, 4.0)):
            k = "CouetteFlow%dD nu=%s L=%s t0=%s t=%s" % (dim, nu, L, t0, t)
            w = W(C, "couette%d" % dim, dim, [nu, lz("U"), float(L) if dim == 2 else L, t0, 0])
            H = float(L) if dim == 2 else 1.0
            y, U = w.x[dim - 1], S("U")
            u = w.u(t)
            wu = value_src(w, "CouetteFlow%dD" % dim, "AnalyticVelocity")
            res0(C, "exact solution between the plates", k, A.sub(u[0], A.mul(U, series(nu, H, t + t0, y))), wu, "velocity minus the solution of the heat equation")
            for c in range(1, dim):
                res0(C, "no cross flow", "%s %d" % (k, c), u[c], wu, "velocity component %d" % c)
            n = "xyz"[dim - 1]
            res0(C, "no slip", k + " lower", at(u[0], **{n: 0.0}), wu, "velocity at the lower wall")
            res0(C, "no slip", k + " upper", A.sub(at(u[0], **{n: H}), U), wu, "velocity at the upper wall minus wall velocity")
            res0(C, "uniform density", k, A.sub(w.rho(t), 1.0), wu, "rho - 1")
            initial_is_analytic(C, w, k, wu, t + 1.0) if t0 > 0 else None
            g = w.ev("grid")[0]
            res0(C, "plates where the grid ends", k, A.sub(g[2][dim - 1], H), w.ctor[0], "height of the grid minus distance of the plates")
            if t0 == 0.0:
                q = w.point([0.3] * (dim - 1) + [H * 0.5])
                res0(C, "starts from rest", k, w.call("probe_u%d" % dim, 0.0, q, 0), wu, "velocity in the channel at time zero")
                q = w.point([0.3] * (dim - 1) + [H])
                res0(C, "starts from rest", k + " at the moving wall", A.sub(w.call("probe_u%d" % dim, 0.0, q, 0), U), wu, "velocity of the moving wall at time zero minus U")
            res0(C, "viscosity of the problem", k, A.sub(w.call("probe_nu%d" % dim), nu), w.ctor[0], "getViscosity() - nu")
            res0(C, "characteristic velocity", k, A.sub(w.call("probe_charU%d" % dim), U), w.ctor[0], "getCharacteristicVelocity() - U")


def s_poiseuille(C):
    for dim in (2, 3):
        k = "PoiseuilleFlow%dD" % dim
        args = [lz("nu"), lz("ub"), lz("h"), lz("l"), 1] if dim == 2 else [lz("nu"), lz("ub"), lz("h"), lz("w"), lz("l"), 1]
        w = W(C, "poiseuille%d" % dim, dim, args)
        nu, ub, h = S("nu"), S("ub"), S("h")
        y = w.x[dim - 1]
        wc = w.ctor[0]
        hf = w.call("probe_hasforce%d" % dim)
        f = Ptr(w.I.new_region(w.st, "force", 24), 0)
        w.call("probe_force%d" % dim, f)
        F = pt(w.I, w.st, f, dim)
        # the parabola with mean ub is held by this force
        prof = A.scale(A.div(A.mul(ub, A.mul(y, A.sub(h, y))), A.mul(h, h)), 6.0)
        res0(C, "driving force", k, A.add(F[0], A.mul(nu, D(prof, y, y))), wc, "force plus nu u'' of the parabola with the bulk velocity")
        for c in range(1, dim):
            res0(C, "driving force along the channel", "%s %d" % (k, c), F[c], wc, "force component %d" % c)
        if isinstance(hf, absint.Cond):
            v = not A.NumEval(1).cond(hf)
            hf = 0 if v else 1
        C.ob("force is applied", k, bool(hf), wc, "hasExternalForce() is false")
        res0(C, "characteristic velocity", k, A.sub(w.call("probe_charU%d" % dim), ub), wc, "getCharacteristicVelocity() - u_bulk")
        res0(C, "characteristic length", k, A.sub(w.call("probe_charL%d" % dim), h), wc, "getCharacteristicLength() - height")
        res0(C, "viscosity of the problem", k, A.sub(w.call("probe_nu%d" % dim), nu), wc, "getViscosity() - nu")
        u = w.u(S("t"))
        wu = value_src(w, k, "AnalyticVelocity")
        r = A.add(A.sub(A.mul(nu, D(u[0], y, y)), D(u[0], S("t"))), F[0])
        res0(C, "exact solution carried by the force", k, r, wu, "F + nu u'' - u_t")
        for q, v in ((0, 0.0), (1, h)):
            res0(C, "no slip", "%s %d" % (k, q), at(u[0], **{"xyz"[dim - 1]: v}), wu, "velocity at the wall")
        for c in range(1, dim):
            res0(C, "no cross flow", "%s %d" % (k, c), u[c], wu, "velocity component %d" % c)
        res0(C, "uniform density", k, A.sub(w.rho(0.0), 1.0), wu, "rho - 1")
        res0(C, "initial temperature", k, A.sub(w.init("T"), 1.0), wu, "initial temperature minus 1")
        res0(C, "starts from rest", k, w.init("u")[0], wu, "initial velocity") if vanish(u[0]) else None


def s_initial(C):
    for n, dim in (("periodic2", 2), ("periodic3", 3)):
        w = W(C, n, dim, [])
        for c, v in enumerate(w.init("u")):
            res0(C, "default initial state", "%s velocity %d" % (n, c), v, w.ctor[0], "velocity")
        res0(C, "default initial state", n + " density", A.sub(w.init("rho"), 1.0), w.ctor[0], "rho - 1")
        res0(C, "default initial state", n + " temperature", A.sub(w.init("T"), 1.0), w.ctor[0], "T - 1")
        C.ob("no force", n, not w.call("probe_hasforce%d" % dim), w.ctor[0], "hasExternalForce()")
    w = W(C, "shear", 2, [lz("nu"), lz("u0"), lz("kappa"), lz("pert"), 0.0, 0.0])
    x, u0, ka = w.x[0], S("u0"), S("kappa")
    wu = value_src(w, "ShearLayer2D", "InitialVelocity")
    for y in (0.0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1.0):
        u, v = w.init("u", [x, y])
        d = y - 0.25 if y <= 0.5 else 0.75 - y
        res0(C, "double shear layer", "u y=%s" % y, A.sub(u, A.mul(u0, A.func("tanh", A.scale(ka, d)) if d else 0.0)), wu, "u minus u0 tanh(kappa d)")
        res0(C, "double shear layer", "v y=%s" % y, A.sub(v, A.mul(A.mul(S("pert"), u0), A.func("sin", A.scale(A.add(x, 0.25), 2 * math.pi)))), wu, "v minus pert u0 sin(2 pi (x+1/4))")
    res0(C, "uniform density", "ShearLayer2D", A.sub(w.init("rho"), 1.0), wu, "rho - 1")
    w = W(C, "lubrication", 2, [lz("nu"), lz("U"), lz("L"), lz("h"), lz("a"), 0.5, lz("rh"), 3])
    wu = value_src(w, "LubricationSine", "InitialVelocity")
    u = w.init("u")
    res0(C, "initial flow moves with the bottom wall", "LubricationSine", A.sub(at(u[0], y=0.0), S("U")), wu, "u - U")
    res0(C, "uniform density", "LubricationSine", A.sub(w.init("rho"), 1.0), wu, "rho - 1")
    w = W(C, "sinusoidal", 2, [lz("nu"), lz("U"), lz("L"), lz("h"), lz("a"), 0.5])
    wu = value_src(w, "SinusoidalShear2D", "InitialVelocity")
    for c, v in enumerate(w.init("u")):
        res0(C, "default initial state", "SinusoidalShear2D velocity %d" % c, v, wu, "velocity")
    res0(C, "uniform density", "SinusoidalShear2D", A.sub(w.init("rho"), 1.0), wu, "rho - 1")
    w = W(C, "droplet", 2, [lz("nu"), lz("l"), lz("h"), lz("rl"), lz("rg"), lz("W"), lz("R0")])
    wu = value_src(w, "Droplet2D", "InitialDensity")
    rl, rg = S("rl"), S("rg")
    dx, dy = A.sub(w.x[0], A.scale(S("l"), 0.5)), A.sub(w.x[1], A.scale(S("h"), 0.5))
    r = A.func("sqrt", A.add(A.mul(dx, dx), A.mul(dy, dy)))
    z = A.div(A.sub(r, S("R0")), S("W"))
    res0(C, "droplet profile", "Droplet2D", A.sub(w.init("rho"), A.sub(A.scale(A.add(rl, rg), 0.5), A.mul(A.scale(A.sub(rl, rg), 0.5), A.func("tanh", z)))), wu, "density minus the tanh profile around the centre")
    for c, v in enumerate(w.init("u")):
        res0(C, "default initial state", "Droplet2D velocity %d" % c, v, wu, "velocity")
    w = W(C, "riemann", 2, [lz("nu"), 0.0, 0.0])
    wu = value_src(w, "Riemann2D", "InitialDensity")
    q = {}
    for i, xx in enumerate((0.4, 1.7)):
        for j, yy in enumerate((0.3, 1.6)):
            q[i, j] = (w.init("u", [xx, yy]), w.init("rho", [xx, yy]), w.init("T", [xx, yy]))
    p = {k: A.mul(v[1], v[2]) for k, v in q.items()}
    for k in ((0, 0), (0, 1)):
        res0(C, "Riemann problem: equal pressure", str(k), A.sub(p[k], p[1, 0]), wu, "pressure jump across a contact")
    U = 0.7276 / math.sqrt(3)
    for k, (u, rr, T) in sorted(q.items()):
        e = {(0, 0): (0.0, 0.0, 0.8), (1, 0): (0.0, U, 1.0), (0, 1): (U, 0.0, 1.0), (1, 1): (0.0, 0.0, 0.5313)}[k]
        for c, (a, b) in enumerate(zip(list(u) + [rr], e)):
            C.ob("Riemann problem: state", "%s %d" % (k, c), abs(num(a) - b) < 1e-4, wu, "%s, expected %s" % (a, b))
    C.ob("Riemann problem: state", "pressure of the shocked quadrant", abs(num(p[1, 1]) - 0.4) < 1e-3, wu, "%s, expected 0.4" % p[1, 1])


def s_other(C):
    m = mod()
    m.dim = 2
    I = common.interp(m, MODELS)
    st = absint.State()
    st, n = I.call(st, "probe_size_inflow", [])
    b = Ptr(I.new_region(st, "inflow", n), 0)
    hs, hd, ua, y = S("hs"), S("hd"), S("ua"), S("y")
    st, _ = I.call(st, "probe_mk_inflow", [b, hs, hd, ua])
    p = Ptr(I.new_region(st, "pt", 24), 0)
    for k, v in enumerate((S("x"), y)):
        I.store(st, P8(p, 8 * k), v, "d")
    st, u = I.call(st, "probe_inflow", [b, p, 0])
    st, v = I.call(st, "probe_inflow", [b, p, 1])
    C.use(I)
    f = [g for g in I.m.funcs.values() if "InflowVelocity::value(" in g.d]
    wu = src(f[0]) if f else "BackwardFacingStep2D"
    res0(C, "inflow profile", "lower wall", at(u, y=hs), wu, "velocity at the step")
    res0(C, "inflow profile", "upper wall", at(u, y=hd), wu, "velocity at the upper wall")
    H = A.sub(hd, hs)
    res0(C, "inflow profile", "parabola", A.add(D(u, y, y), A.scale(A.div(ua, A.mul(H, H)), 12.0)), wu, "u'' + 12 u_mean / H^2")
    res0(C, "inflow profile", "cross flow", v, wu, "second component")
    # the advected bump
    fb = [g for g in I.m.funcs.values() if "AdvectionBenchmark::analytic_solution(" in g.d]
    wb = src(fb[0]) if fb else "AdvectionBenchmark"
    for smooth in (1, 0):
        for t in (0.0, 0.125, 0.5, 1.0, 2.625):
            for x in (0.0625, 0.3, 0.5, 0.9):
                for k, z in enumerate((x, 0.4)):
                    I.store(st, P8(p, 8 * k), z, "d")
                st, r = I.call(st, "probe_bump", [t, p, smooth])
                e = math.sin(2 * math.pi * (x - t))
                if not smooth:
                    e = math.copysign(e * e, e) if abs(e) > 1e-12 else 0.0
                C.ob("advected profile", "smooth=%d t=%s x=%s" % (smooth, t, x), A.isnum(r) and abs(r - e) < 1e-9, wb, "%s, expected %s" % (A.show(r), e))
    C.use(I)


def m_time(I, st, a, F):
    return st, A.add(A.sym("f%d%d" % (a[0], a[2])), A.mul(a[1], A.sym("g%d%d" % (a[0], a[2]))) if a[1] != 0 else 0.0)


def s_user(C):
    """what a benchmark of a user gets from its base classes"""
    for D in (2, 3):
        for kind in ("user", "userc"):
            for given in (1, 0):
                w = W(C, "%s%d" % (kind, D), D, [lz("nu"), lz("L"), given])
                cls = "CompressibleBenchmark" if kind == "userc" else "Benchmark"
                f = [g for g in w.I.m.funcs.values() if re.match(r"natrium::%s<%dul>::%s\(" % (cls, D, cls), g.d)]
                wu = src(f[0]) if f else cls
                k = "%s<%d>%s" % (cls, D, "" if given else ", no solution given")
                fn = lambda which, c, t: A.add(S("f%d%d" % (which, c)), A.mul(t, S("g%d%d" % (which, c)))) if given else (0.0 if which else 1.0)
                for t in (S("t"), S("t2"), 0.0):
                    for c, u in enumerate(w.u(t)):
                        res0(C, "analytic solution at the time asked for", "%s, velocity %d at %s" % (k, c, t), A.sub(u, fn(1, c, t)), wu, "u minus the solution given")
                    res0(C, "analytic solution at the time asked for", "%s, density at %s" % (k, t), A.sub(w.rho(t), fn(0, 0, t)), wu, "rho minus the solution given")
                    if kind == "userc":
                        res0(C, "analytic solution at the time asked for", "%s, temperature at %s" % (k, t), A.sub(w.call("probe_aT%d" % D, t, w.point(w.x)), 1.0), wu, "T - 1")
                w.u(S("t")), w.rho(S("t"))
                for c, u in enumerate(w.init("u")):
                    res0(C, "initial state is the solution at time zero", "%s, velocity %d" % (k, c), A.sub(u, fn(1, c, 0.0)), wu, "u minus the solution given")
                res0(C, "initial state is the solution at time zero", "%s, density" % k, A.sub(w.init("rho"), fn(0, 0, 0.0)), wu, "rho minus the solution given")
                res0(C, "initial temperature", k, A.sub(w.init("T"), 1.0), wu, "T - 1")
                res0(C, "viscosity of the problem", k, A.sub(w.call("probe_nu%d" % D), S("nu")), wu, "nu")
                res0(C, "characteristic length", k, A.sub(w.call("probe_charL%d" % D), S("L")), wu, "L")


PARTS = [s_tgv2, s_tgv3, s_couette, s_poiseuille, s_initial, s_other, s_user]


FLOORS_N01 = (
    ("analytic solution at the time asked for", 90),
    ("divergence-free", 3),
    ("Navier-Stokes", 3),
    ("periodic over the domain", 32),
    ("moves", 1),
    ("amplitude", 3),
    ("initial state is the solution at time zero", 15),
    ("initial temperature", 9),
    ("viscosity of the problem", 9),
    ("density without analytic initialisation", 2),
    ("pressure balances the initial flow", 1),
    ("exact solution between the plates", 7),
    ("no cross flow", 13),
    ("no slip", 18),
    ("uniform density", 11),
    ("plates where the grid ends", 7),
    ("starts from rest", 9),
    ("characteristic velocity", 9),
    ("driving force", 1),
    ("driving force along the channel", 2),
    ("force is applied", 1),
    ("characteristic length", 1),
    ("exact solution carried by the force", 1),
    ("default initial state", 11),
    ("no force", 1),
    ("double shear layer", 16),
    ("initial flow moves with the bottom wall", 1),
    ("droplet profile", 1),
    ("Riemann problem: equal pressure", 1),
    ("Riemann problem: state", 11),
    ("inflow profile", 3),
    ("advected profile", 36),
)


def n01(C):
    C.floors += FLOORS_N01
    mod()
    pmap(C, n01_one, range(len(PARTS)))


def n01_one(C, i):
    PARTS[i](C)


RUN = {"N01": n01, "N02": n02}
