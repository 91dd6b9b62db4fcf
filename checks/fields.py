"""Q01: integral quantities and statistics, F01: filters and regularisation, V01: time step and small solver utilities."""
import itertools
import math
import os
import re

import common
from common import absint, A, Broken
from absint import Ptr, UNDEF, Cond
import box as BX
import boundary as BO
import mesh as MS
import models
import models_la as LA
import models_mesh as MM
import lattice as LT
from solver import where, show, enum

DEEP = os.environ.get("VERIF_TIER") == "thorough"
STOP = MS.STOP + r"|natrium::SolverConfiguration::|TurbulenceStats<.*>::(outfile|legendfile)\(|AdvectionOperator<.*>::getNumberOfDoFs\("
SHARED = {}


def mod():
    return common.module("fields.cpp", roots="^(probe_|lay_)", extra_stop=STOP, extra=["-fno-access-control"])


# ---- models ------------------------------------------------------------------------
def other(I, what, x):
    """the contribution of the other processes to a reduction"""
    I.coll.append((what, x))
    return A.sym("other%d" % len(I.coll))


def onlyself(a):
    """is the communicator the process alone?"""
    return any(isinstance(x, Ptr) and "comm_self" in str(x) for x in a)


def m_minmax(I, st, a, F):
    if onlyself(a):
        for k in (0, 8, 16, 32):
            I.store(st, Ptr(a[0].r, a[0].o + k), a[1], "d")
        return st, None
    s, mn, mx = (other(I, n, a[1]) for n in ("sum", "min", "max"))
    for k, v in ((0, A.add(a[1], s)), (8, A.func("least", a[1], mn)), (16, A.func("greatest", a[1], mx)), (32, A.func("average", a[1], s))):
        I.store(st, Ptr(a[0].r, a[0].o + k), v, "d")
    return st, None


def m_sum(I, st, a, F):
    if onlyself(a):
        raise MM.Fault("a sum over the process alone")
    if "vector<" not in F.d.split("sum", 1)[1]:
        x = a[0]
        if isinstance(x, Ptr):
            x = I.load(st, x, "d" if "double" in F.d.split("MPI::", 1)[1] else "i64")
        if type(x) is int:                  # a number of items: 5 more elsewhere
            I.coll.append(("sum", x))
            return st, x + 5
        return st, A.add(x, other(I, "sum", x))
    b, n = MM.vec_data(I, st, a[0], 8)
    out, k = MM.vec_data(I, st, a[-1], 8)
    if k != n:
        raise MM.Fault("sum over processes: %s values into a vector of %s" % (n, k))
    vals = [I.load(st, Ptr(b.r, b.o + 8 * i), "d") for i in range(n)]
    for i, v in enumerate(vals):
        I.store(st, Ptr(out.r, out.o + 8 * i), A.add(v, other(I, "sum", v)), "d")
    return st, None


def m_max(I, st, a, F):
    w = re.search(r"MPI::(min|max)", F.d).group(1)
    x = I.load(st, a[0], "d") if isinstance(a[0], Ptr) else a[0]
    return st, A.func("least" if w == "min" else "greatest", x, other(I, w, x))


def field(I, st, v, cf, q, der):
    """the finite element function of a distributed vector at a quadrature point of a cell"""
    m = I.mesh
    rid, vals = LA.tv_vals(I, st, v)
    s = 0.0
    fv, c = cf
    u = MM.unit(I, fv, c, q)
    for j, g in enumerate(m.cell_dofs[c[0]]):
        s = A.add(s, A.scale(vals[g], m.dshape(c[0], j, u, der) if der else m.shape(j, u)))
    return s


def m_values(I, st, a, F):
    grad = "gradients" in F.d
    cf = MM.fev(I, st, a[0], "gradients" if grad else "values")
    D = I.mesh.dim
    e = 8 * D if grad else 8
    b, n = MM.vec_data(I, st, a[2], e)
    if n != len(cf[0].pts):
        raise MM.Fault("get_function_*: a vector of %s values for %s points" % (n, len(cf[0].pts)))
    for q in range(n):
        for d in range(D if grad else 1):
            I.store(st, Ptr(b.r, b.o + e * q + 8 * d), field(I, st, a[1], cf, q, [int(k == d) for k in range(D)] if grad else None), "d")
    return st, None


def iset_of(I, st, p):
    v = I.load(st, p, "p")
    return sorted(MM.iset(st, v)) if isinstance(v, Ptr) else []


def m_begin(I, st, a, F):
    src = a[1] if F.ret == "v" else a[0]
    pos = 0 if "begin(" in F.d else len(MM.iset(st, src))
    if F.ret == "v":
        I.store(st, a[0], src, "p")
        I.store(st, Ptr(a[0].r, a[0].o + 8), pos, "i64")
        return st, None
    return st, [src, pos]


def m_deref(I, st, a, F):
    s = iset_of(I, st, a[0])
    k = LA.itpos(I, st, a[0])
    if not 0 <= k < len(s):
        raise MM.Fault("an index set is read past its end")
    return st, s[k]


def m_clear(I, st, a, F):
    st.x[("is",) + models.key(a[0])] = frozenset()
    return st, None


def m_legendre(I, st, a, F):
    """the Legendre polynomials of degree 0..p on [0,1]"""
    p = a[1] if F.ret == "v" else a[0]
    r = MM.vec_make(I, st, a[0], I.poly_size, p + 1, "legendre polynomials")
    for k in range(p + 1):
        st.x[("legendre",) + models.key(Ptr(r.r, r.o + I.poly_size * k))] = k
    return st, None


def legendre(k, x):
    x = 2 * x - 1
    a, b = 1.0, x
    if k == 0:
        return 1.0
    for n in range(1, k):
        a, b = b, ((2 * n + 1) * x * b - n * a) / (n + 1)
    return b


def m_polyval(I, st, a, F):
    if F.ret == "v":
        raise Broken("value of a polynomial: unexpected signature")
    k = st.x.get(("legendre",) + models.key(a[0]))
    if k is None:
        raise Broken("value of an unknown polynomial")
    return st, math.sqrt(2 * k + 1) * legendre(k, a[1])


def m_feshape(I, st, a):
    x = [I.load(st, Ptr(a[2].r, a[2].o + 8 * d), "d") for d in range(I.mesh.dim)]
    return st, I.mesh.shape(a[1], x)


absint.BUILTIN["__fe_shape"] = m_feshape


def m_invert(I, st, a, F):
    """numeric inversion with column pivoting"""
    M = [[float(x) for x in r] for r in models.mrows(I, st, a[1])]
    n = len(M)
    W = [r + [float(i == k) for k in range(n)] for i, r in enumerate(M)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(W[i][k]))
        if abs(W[p][k]) < 1e-12:
            raise MM.Fault("a singular matrix is inverted")
        W[k], W[p] = W[p], W[k]
        W[k] = [x / W[k][k] for x in W[k]]
        for i in range(n):
            if i != k and W[i][k]:
                f = W[i][k]
                W[i] = [x - f * y for x, y in zip(W[i], W[k])]
    models.mput(I, st, a[0], [r[n:] for r in W])
    return st, None


def m_str(I, st, a, F):
    models.sput(st, a[0], "x")
    return st, None


IS = r"^(?:[^(]* )?dealii::IndexSet::"
MODELS = [
    (r"dealii::Utilities::MPI::min_max_avg\(double", m_minmax), (r"dealii::Utilities::MPI::sum<", m_sum), (r"dealii::Utilities::MPI::(max|min)<", m_max),
    (r"FEValuesBase<[^(]*>::get_function_(values|gradients)<", m_values), (IS + r"(begin|end)\(", m_begin), (IS + r"ElementIterator::operator\*\(", m_deref), (IS + r"clear\(", m_clear), (IS + r"set_size\(", models.nop),
    (r"Quadrature<\d>::get_points\(", lambda I, st, a, F: (st, Ptr(a[0].r, a[0].o + I.quad_off))), (r"Quadrature<\d>::get_weights\(", lambda I, st, a, F: (st, Ptr(a[0].r, a[0].o + I.quad_off + 24))),
    (r"generate_complete_basis\(", m_legendre), (r"Polynomial<double>::value\(double", m_polyval), (r"Polynomial<double>::~", models.nop), (r"FullMatrix<double>::invert", m_invert),
    (r"^dealii::[\w:]+(<[^(]*>)?::~", models.nop), (r"getNumberOfDoFs\(", lambda I, st, a, F: (st, I.mesh.nd)),
    (r"SolverConfiguration::getOutputDirectory|TurbulenceStats<.*>::(outfile|legendfile)\(", m_str), (r"natrium::Logging|natrium::LOG", models.nop),
] + BO.MODELS

# consecutive cells with the same measure and different edges
L2 = [[0, 1, 1.75, 3, 3.4], [0, 0.5, 0.875]]
L3 = [[0, 1, 1.75, 3], [0, 0.7], [0, 0.5, 0.875]]
L2S = [[0, 1, 1.8], [0, 0.7]]
L3S = [[0, 1], [0, 0.7], [0, 1.3]]


def owner(n):
    """columns: mine, mine, ghost, artificial"""
    return lambda c: {0: 0, 1: 0, 2: 1, 3: 2}[c % n]


class Fields(MS.World):
    def __init__(self, m, lines, p, dg, procs=1, first=True, box=None, Q0=0, cfg=None, extra=()):
        D = len(lines)
        mesh = MM.Mesh(lines, p, list(range(2 * D)), owner(len(lines[0]) - 1) if procs > 1 else None, dg=dg, mine_first=first)
        mesh.warp = True
        super().__init__(m, mesh, box, procs, extra=list(extra) + MODELS)
        I = self.I
        I.coll = []
        I.strict = True
        I.cfg = {"isSwitchOutputOff": 1, "getHeatCapacityRatioGamma": A.sym("gamma"), "getOutputTableInterval": 1}
        I.cfg.update(cfg or {})
        I.fe_vtable = "vt:fe"
        I.fe_degree_off = self.off("fedeg")
        I.poly_size = self.raw("lay_polynomial")
        slot, shape = self.raw("lay_support%d" % D), self.raw("lay_shape%d" % D)
        self.st.mem["vt:fe"] = absint.Region("vt:fe", "vt:fe", 4096, lambda off, ty: absint.Fn({0: "__model_nop", 8: "__model_nop", slot: "__fe_support", shape: "__fe_shape"}.get(off, "__fe_virtual")), self.st, "vtable")
        self.problem([("wall", i) for i in range(2 * D)])
        (self.dg if dg else self.sl)(Q0, 1.0, 0.1)
        self.call("setup", self.op)
        self.sp = self.call("share", self.op)
        self.own = [c for c in range(mesh.nc) if mesh.owner(c) == 0]
        self.D = D
        self.pts = [list(reversed(x)) for x in itertools.product(mesh.x1, repeat=D)]
        self.ws = [math.prod(x) for x in itertools.product(mesh.w1, repeat=D)]

    def fill(self, names):
        """container with one symbolic field per name"""
        f = self.df(len(names))
        for i, n in enumerate(names):
            for k in range(self.mesh.nd):
                self.put(f, i, k, A.sym("%s_%d" % (n, k)))
        return f

    def at(self, f, i):
        return self.raw("probe_df_at", f, i)

    def val(self, n, c, x, d=None):
        """value or derivative of the field n at the unit point x of cell c"""
        s = 0.0
        m = self.mesh
        for j, g in enumerate(m.cell_dofs[c]):
            s = A.add(s, A.scale(A.sym("%s_%d" % (n, g)), m.shape(j, x) if d is None else m.dshape(c, j, x, [int(k == d) for k in range(self.D)])))
        return s

    def points(self):
        for c in self.own:
            h = math.prod(hi - lo for lo, hi in self.mesh.box(c))
            for x, w in zip(self.pts, self.ws):
                yield c, x, w * h * self.mesh.jac(c, x)

    def integral(self, g):
        s = 0.0
        for c, x, w in self.points():
            s = A.add(s, A.scale(g(lambda n, d=None: self.val(n, c, x, d)), w))
        return s

    def collective(self, r, what="sum"):
        """the reduction a value stands for: [(local part, name)] of the symbols in it"""
        k = [int(a[5:]) for a in symbols(r) if a.startswith("other")]
        return sorted(k)


def symbols(p):
    out, todo = set(), [p]
    while todo:
        x = todo.pop()
        if isinstance(x, A.Poly):
            for m in x.t:
                for a, _ in m:
                    at = A.AT.atoms[a]
                    if at.kind == "sym":
                        out.add(at.name)
                    elif at.kind == "fn":
                        todo += list(at.args[1:])
                    else:
                        todo.append(at.defn)
    return out


def same(x, y):
    return A.vanishes(A.sub(x, y))


XYZ = "xyz"


# ---- Q01 -------------------------------------------------------------------------------
def props(C, m, it):
    D, dg, p, procs, first = it
    key = "%dD %s order %d%s" % (D, "discontinuous" if dg else "continuous", p, ", several processes%s" % ("" if first else ", other numbering") if procs > 1 else "")
    w = lambda n: where(m, r"natrium::PhysicalProperties<%dul>::%s\(" % (D, n))
    small = p > 1 or D == 3
    X = Fields(m, (L2 if D == 2 else L3) if procs > 1 else (L2S if D == 2 else L3S), p, dg, procs, first)
    U = ["u" + c for c in XYZ[:D]]
    f = X.fill(U + ["rho"])
    u, rho = X.call("vecs", f, 0), X.at(f, D)
    sumof = lambda vals: __import__("functools").reduce(A.add, vals, 0.0)

    def ob(name, fn, got, exp, fac=1.0):
        k = X.collective(got)
        ok = len(k) == 1 and X.I.coll[k[0] - 1][0] == "sum" and same(got, A.scale(A.add(exp, A.sym("other%d" % k[0])), fac))
        C.ob("an integral quantity is the integral over the owned cells, summed over all processes", "%s, %s" % (key, name), ok, w(fn), "is %s; expected %s times the sum of %s" % (show(got), fac, show(exp)))

    ob("mass", "mass", X.call("mass", rho, X.sp), X.integral(lambda v: v("rho")))
    ob("kinetic energy", "kineticEnergy", X.call("kin", u, rho, X.sp), X.integral(lambda v: A.mul(v("rho"), sumof(A.mul(v(n), v(n)) for n in U))), 0.5)
    sq = X.R("squared", 8)
    r = X.call("enstrophy", u, X.sp, sq)

    def ens(v):
        if D == 2:
            o = A.sub(v("uy", 0), v("ux", 1))
            return A.mul(o, o)
        return sumof(A.mul(v(n, d), v(n, d)) for n in U for d in range(3))
    ob("enstrophy", "enstrophy", r, X.integral(ens))
    if p == 1:
        ob("squared enstrophy", "enstrophy", X.I.load(X.st, sq, "d"), X.integral(lambda v: A.mul(ens(v), ens(v))))
    # mean velocity: ratio of two reductions
    got = X.call("meanux", X.at(f, 0), X.sp)
    ks = X.collective(got)
    e, a = X.integral(lambda v: v("ux")), X.integral(lambda v: 1.0)
    part = lambda k: (X.I.coll[k - 1][1], A.add(X.I.coll[k - 1][1], A.sym("other%d" % k)))
    ok = len(ks) == 2 and all(X.I.coll[k - 1][0] == "sum" for k in ks) and any(same(A.mul(got, part(y)[1]), part(x)[1]) and same(A.mul(part(x)[0], a), A.mul(part(y)[0], e)) for x, y in (ks, ks[::-1]))
    C.ob("the mean velocity is the integral of the velocity divided by the volume", key, ok, w("meanVelocityX"), "is %s; expected (%s + other) / (%s + other)" % (show(got), show(e), show(a)))
    # pressure
    mn = X.R("minimum", 8)
    cs = A.sym("cs")
    mx = X.call("maxp", rho, cs, mn)
    mn = X.I.load(X.st, mn, "d")
    vals = [A.sym("rho_%d" % k) for k in range(X.mesh.nd)]
    for n, g, o in (("maximal", mx, "max"), ("minimal", mn, "min")):
        C.ob("the extremal pressure belongs to the extremal density", "%s, %s" % (key, n), same(g, A.mul(A.sub(A.func(o, *vals), 1.0), A.mul(cs, cs))), w("maximalPressure"), "is %s" % show(g))
    if p == 1 and procs == 1:
        Q = 9 if D == 2 else 15
        L = SHARED["L"]["D2Q9" if D == 2 else "D3Q15"]
        h = X.df(Q, "f")
        X.raw("probe_df_update", h)
        got = X.call("entropy", h, X.sp)
        f_ = lambda i, k: A.sym("f%d_%d" % (i, k))

        def s(c, x):
            t = 0.0
            for j, g in enumerate(X.mesh.cell_dofs[c]):
                phi = X.mesh.shape(j, x)
                if abs(phi) > 1e-12:
                    for i in range(Q):
                        t = A.add(t, A.scale(A.mul(f_(i, g), A.func("log", A.scale(f_(i, g), 1 / L.W[i]))), phi))
            return t
        exp = 0.0
        for c, x, wt in X.points():
            exp = A.sub(exp, A.scale(s(c, x), wt))
        k = X.collective(got)
        ok = len(k) == 1 and same(got, A.add(exp, A.sym("other%d" % k[0])))
        C.ob("an integral quantity is the integral over the owned cells, summed over all processes", "%s, entropy" % key, ok, w("entropy"), "is %s; expected %s" % (show(got), show(exp)))
    miss = sorted({str(e.args[0]) for e in X.st.events if e.kind == "missing update flag"})
    C.ob("finite element values are requested before use", key, not miss, w("meanVelocityX"), "not requested: %s" % miss)
    C.use(X.I)


def gts(C, m, it):
    D, dg, p, procs = it
    key = "%dD %s order %d%s" % (D, "discontinuous" if dg else "continuous", p, ", several processes" if procs > 1 else "")
    X = Fields(m, (L2 if D == 2 else L3S) if procs > 1 else (L2S if D == 2 else L3S), p, dg, procs)
    I = X.I
    w = where(m, r"natrium::GlobalTurbulenceStats<%dul>::calculate\(" % D)
    U = ["u" + c for c in XYZ[:D]]
    f = X.fill(U + ["rho"])
    s, _ = solver(X, X.df(1), f, 0, X.at(f, D))
    g = X.call("gts", s)
    X.call("gts_calc", g)
    n = X.call("gts_n", g)
    names = [models.sget(I, X.st, X.call("gts_name", g, i)) for i in range(n)]
    exp = ["rho"] + ["drho/d" + c for c in XYZ[:D]] + U + ["d%s/d%s" % (u, c) for u in U for c in XYZ[:D]]
    C.ob("the statistics cover density, velocity and their gradients", key, sorted(names) == sorted(exp), w, "observables are %s" % names)
    if sorted(names) != sorted(exp):
        return

    def obs(v, k):
        q = names[k]
        return v(q[1:].split("/")[0], XYZ.index(q[-1])) if "/" in q else v(q)

    def ob(rule, what, got, fn):
        k = X.collective(got)
        e = X.integral(fn)
        ok = len(k) == 1 and I.coll[k[0] - 1][0] == "sum" and same(got, A.add(e, A.sym("other%d" % k[0])))
        C.ob(rule, "%s, %s" % (key, what), ok, w, "is %s; expected the sum over the processes of %s" % (show(got), show(e)))
    rule = "a turbulence statistic is the integral of the named moment, summed over all processes"
    pw = lambda x, k: x if k == 1 else A.mul(x, pw(x, k - 1))
    for i in range(n):
        ob(rule, names[i], X.call("gts_avg", g, i), lambda v: obs(v, i))
        for j in range(i + 1):
            if p == 1 or i == j or DEEP:
                ob(rule, "%s * %s" % (names[i], names[j]), X.call("gts_cor", g, i, j), lambda v: A.mul(obs(v, i), obs(v, j)))
        if p == 1 and D == 2:
            ob(rule, names[i] + "^3", X.call("gts_m3", g, i), lambda v: pw(obs(v, i), 3))
            ob(rule, names[i] + "^4", X.call("gts_m4", g, i), lambda v: pw(obs(v, i), 4))
    sumof = lambda x: __import__("functools").reduce(A.add, list(x), 0.0)
    en = lambda v: A.scale(sumof(A.mul(v(u), v(u)) for u in U), 0.5)

    def vort(v):
        c = [A.sub(v("uy", 0), v("ux", 1))]
        if D == 3:
            c += [A.sub(v("uz", 1), v("uy", 2)), A.sub(v("ux", 2), v("uz", 0))]
        return sumof(A.mul(x, x) for x in c)
    for k, (what, fn) in enumerate((("kinetic energy", en), ("enstrophy", vort), ("squared energy", lambda v: pw(en(v), 2)), ("squared enstrophy", lambda v: pw(vort(v), 2)))):
        if k < 2 or D == 2 and p == 1 or DEEP and p == 1:
            ob(rule, what, X.call("gts_e", g, k), fn)
    C.use(I)


def cts(C, m, it):
    D, dg, p, procs, order = it
    key = "%dD %s order %d%s, Mach number growing %s" % (D, "discontinuous" if dg else "continuous", p, ", several processes" if procs > 1 else "", order)
    mesh = (L2 if D == 2 else L3S) if procs > 1 else (L2S if D == 2 else L3S)
    X = Fields(m, mesh, p, dg, procs, cfg={})
    I = X.I
    N = X.mesh.nd
    rank = {"forward": lambda k: k, "backward": lambda k: N - 1 - k, "in the middle": lambda k: min(k, N - 1 - k) * 2 + (k >= (N + 1) // 2)}[order]
    box = {"gamma": (1.39, 1.41)}
    for k in range(N):
        u = 0.1 * 1.4 ** rank(k)
        for c in XYZ[:D]:
            box["u%s_%d" % (c, k)] = (u, u * 1.02)
        box["T_%d" % k] = (1.0, 1.02)
        box["rho_%d" % k] = (0.9, 1.1)
    absint.BOX = BX.Box(box)
    w = where(m, r"natrium::CompressibleTurbulenceStats<%dul>::calculate\(" % D)
    U = ["u" + c for c in XYZ[:D]]
    f = X.fill(U + ["rho", "T"])
    s, _ = solver(X, X.df(1), f, 0, X.at(f, D), X.at(f, D + 1))
    g = X.call("cts", s)
    X.call("cts_calc", g)
    sumof = lambda x: __import__("functools").reduce(A.add, list(x), 0.0)
    ref = lambda T: A.div(A.scale(A.func("pow", T, 1.5), 1.402), A.add(T, 0.40417))
    curl = lambda v: [A.sub(v("uy", 0), v("ux", 1))] + ([A.sub(v("uz", 1), v("uy", 2)), A.sub(v("ux", 2), v("uz", 0))] if D == 3 else [])

    def div(v):
        d = sumof(v(U[k], k) for k in range(D))
        return A.mul(d, d)
    for k, what, fn in ((0, "dilatational dissipation", lambda v: A.mul(ref(v("T")), div(v))), (1, "solenoidal dissipation", lambda v: A.mul(ref(v("T")), sumof(A.mul(x, x) for x in curl(v)))), (3, "thermal energy", lambda v: v("T"))):
        got = X.call("cts_e", g, k)
        ks = X.collective(got)
        e = X.integral(fn)
        ok = len(ks) == 1 and I.coll[ks[0] - 1][0] == "sum" and A.vanishes(A.sub(got, A.add(e, A.sym("other%d" % ks[0]))), box)
        C.ob("a compressible statistic is the integral of its density, summed over all processes", "%s, %s" % (key, what), ok, w, "is %s; expected the sum over the processes of %s" % (show(got), show(e)))
    got = X.call("cts_e", g, 2)
    top = max((g_ for c in X.own for g_ in X.mesh.cell_dofs[c]), key=rank)
    mach = A.div(A.func("sqrt", sumof(A.mul(A.sym("%s_%d" % (u, top)), A.sym("%s_%d" % (u, top))) for u in U)), A.func("sqrt", A.mul(A.sym("gamma"), A.sym("T_%d" % top))))
    ks = X.collective(got)
    ok = len(ks) == 1 and I.coll[ks[0] - 1][0] == "max" and A.vanishes(A.sub(I.coll[ks[0] - 1][1], mach), box)
    C.ob("the maximal Mach number is the largest ratio of speed to sound speed on any process", key, ok, w, "is %s; expected the maximum of %s" % (show(got), show(mach)))
    C.use(I)
    absint.BOX = None


def norms(C, m, it):
    D, procs, order = it
    X = Fields(m, L2 if D == 2 else L3S, 1, 0, procs)
    I = X.I
    N = X.mesh.nd
    rank = {"forward": lambda k: k, "backward": lambda k: N - 1 - k, "in the middle": lambda k: min(k, N - 1 - k) * 2 + (k >= (N + 1) // 2)}[order]
    box = {}
    for k in range(N):
        for c in range(D):
            u = 0.1 * 1.2 ** rank(k)
            box["u%s_%d" % (XYZ[c], k)] = (u, u * 1.02) if (k + c) % 2 else (-u * 1.02, -u)
    absint.BOX = BX.Box(box)
    f = X.fill(["u" + c for c in XYZ[:D]])
    vecs = X.call("vecs", f, 0)
    own = [k for k in range(N) if X.mesh.dof_owner[k] == 0]
    s = X.R("set", 512)
    X.st.x[("is",) + models.key(s)] = frozenset(own)
    sq = lambda k: __import__("functools").reduce(A.add, [A.mul(A.sym("u%s_%d" % (c, k)), A.sym("u%s_%d" % (c, k))) for c in XYZ[:D]], 0.0)
    key = "%dD, speed growing %s%s" % (D, order, ", several processes" if procs > 1 else "")
    got = X.call("maxnorm", vecs, s)
    ks = X.collective(got)
    top = max(own, key=rank)
    w = where(m, r"natrium::Math::maxVelocityNorm<")
    ok = len(ks) == 1 and A.vanishes(A.sub(A.mul(got, got), A.func("greatest", sq(top), A.sym("other%d" % ks[0]))), dict(box, other=(0, 9))) and same(I.coll[ks[0] - 1][1], sq(top)) and I.coll[ks[0] - 1][0] == "max"
    C.ob("the maximal velocity is that of the fastest node of all processes", key, ok, w, "is %s; expected the root of the maximum of %s" % (show(got), show(sq(top))))
    got = X.call("2norm", vecs, s)
    ks = X.collective(got)
    e = __import__("functools").reduce(A.add, [sq(k) for k in own], 0.0)
    ok = len(ks) == 1 and A.vanishes(A.sub(A.mul(got, got), A.add(e, A.sym("other%d" % ks[0]))), dict(box, other=(0, 9))) and I.coll[ks[0] - 1][0] == "sum"
    C.ob("the velocity norm sums over the nodes of all processes", key, ok, where(m, r"natrium::Math::velocity2Norm<"), "is %s; expected the root of the sum of %s" % (show(got), show(e)))
    # statistics in a plane
    for d in range(D):
        for x in X.mesh.lines[d]:
            pts = X.R("points", 8 * D * N)
            for k in range(N):
                for c in range(D):
                    I.store(X.st, Ptr(pts.r, 8 * (D * k + c)), X.mesh.support[k][c], "d")
            out = X.R("out", 64)
            plane = [k for k in own if abs(X.mesh.support[k][d] - x) < 1e-9]
            X.call("plane", d, x + 0.01, vecs, pts, N, s, 0.02, out)
            for c in range(D):
                av, rms = (I.load(X.st, Ptr(out.r, 8 * (o + c)), "d") for o in (0, D))
                n = len(plane) + 5
                u = lambda k: A.sym("u%s_%d" % (XYZ[c], k))
                e = __import__("functools").reduce(A.add, [u(k) for k in plane], 0.0)
                ks = X.collective(av)
                ok = len(ks) == 1 and same(A.scale(av, n), A.add(e, A.sym("other%d" % ks[0])))
                C.ob("plane statistics are mean and deviation over the nodes of a plane on all processes", "%s, mean of u%s at %s=%g" % (key, XYZ[c], XYZ[d], x), ok, where(m, r"natrium::StatsInPlane<%dul>::calculate\(" % D), "is %s; expected (%s + others) / %d" % (show(av), show(e), n))
                e = __import__("functools").reduce(A.add, [A.mul(A.sub(u(k), av), A.sub(u(k), av)) for k in plane], 0.0)
                ks = [k for k in X.collective(rms) if k not in ks]
                ok = len(ks) == 1 and A.vanishes(A.sub(A.scale(A.mul(rms, rms), n), A.add(e, A.sym("other%d" % ks[0]))), dict(box, other=(0, 9)))
                C.ob("plane statistics are mean and deviation over the nodes of a plane on all processes", "%s, deviation of u%s at %s=%g" % (key, XYZ[c], XYZ[d], x), ok, where(m, r"natrium::StatsInPlane<%dul>::calculate\(" % D), "is %s; expected the root of (%s + others) / %d" % (show(rms), show(e), n))
    C.use(I)
    absint.BOX = None


def one(C, it):
    m = SHARED["m"]
    try:
        globals()[it[0]](C, m, it[1])
    except MM.Fault as e:
        C.ob("nothing is refused", str(it), False, "", str(e))


FLOORS_Q01 = (
    ("an integral quantity is the integral over the owned cells, summed over all processes", 57),
    ("the mean velocity is the integral of the velocity divided by the volume", 14),
    ("the extremal pressure belongs to the extremal density", 28),
    ("finite element values are requested before use", 14),
    ("the statistics cover density, velocity and their gradients", 9),
    ("a turbulence statistic is the integral of the named moment, summed over all processes", 864),
    ("a compressible statistic is the integral of its density, summed over all processes", 64),
    ("the maximal Mach number is the largest ratio of speed to sound speed on any process", 21),
    ("the maximal velocity is that of the fastest node of all processes", 10),
    ("the velocity norm sums over the nodes of all processes", 10),
    ("plane statistics are mean and deviation over the nodes of a plane on all processes", 367),
)


def q01(C):
    C.floors += FLOORS_Q01
    m = SHARED["m"] = mod()
    SHARED["L"] = {n: LT.table(C, common.module("lattice.cpp"), n) for n in ("D2Q9", "D3Q15")}
    items = [("props", (D, dg, p, procs, first)) for D in (2, 3) for dg in (0, 1) for p, procs, first in ((1, 1, True), (2, 1, True), (1, 3, True), (1, 3, False))]
    items += [("gts", (D, dg, p, procs)) for D in (2, 3) for dg in (0, 1) for p, procs in ((1, 1), (1, 3)) + (((2, 1),) if D == 2 or DEEP else ())]
    items += [("cts", (D, dg, 1, procs, o)) for D in (2, 3) for dg in (0, 1) for procs in (1, 3) for o in ("forward", "backward", "in the middle")]
    items += [("norms", (D, procs, o)) for D in (2, 3) for procs in (1, 3) for o in ("forward", "backward", "in the middle")]
    common.pmap(C, one, items)


# ---- F01: filters ------------------------------------------------------------------------
def modal(mesh, D):
    """(modes, nodal -> modal, modal -> nodal) of the orthonormal Legendre basis"""
    p = mesh.p
    xs, ws = MM.gauss(p + 1)
    modes = list(itertools.product(range(p + 1), repeat=D))
    psi = lambda k, x: math.prod(math.sqrt(2 * a + 1) * legendre(a, y) for a, y in zip(k, x))
    pts = [(x, math.prod(w)) for x, w in zip(itertools.product(xs, repeat=D), itertools.product(ws, repeat=D))]
    to = [[sum(w * mesh.shape(j, x) * psi(k, x) for x, w in pts) for j in range(mesh.nloc)] for k in modes]
    back = [[psi(k, mesh.unit_support(i)) for k in modes] for i in range(mesh.nloc)]
    return modes, to, back


def filtered(mesh, D, sigma):
    modes, to, back = modal(mesh, D)
    s = [sigma(k) for k in modes]
    return [[sum(b * x * t[j] for b, x, t in zip(back[i], s, to)) for j in range(mesh.nloc)] for i in range(mesh.nloc)]


def filt(C, m, it):
    D, p, procs, cases = it
    X = Fields(m, (L2 if D == 2 else L3S) if procs > 1 else (L2S if D == 2 else L3S), p, 1, procs)
    mesh = X.mesh
    own = set(g for c in X.own for g in mesh.cell_dofs[c])
    xs, ws = MM.gauss(p + 1)
    mean = [sum(math.prod(w) * mesh.shape(j, x) for x, w in zip(itertools.product(xs, repeat=D), itertools.product(ws, repeat=D))) for j in range(mesh.nloc)]
    for alpha, s, nc, bysum in cases:
        if nc is None:
            cls, f = "NewFilter", X.call("newfilter", alpha, s, X.op)
            sigma = lambda k: math.exp(-alpha * (sum(k) / (D * p)) ** s)
        else:
            cls, f = "ExponentialFilter", X.call("expfilter", alpha, s, nc, int(bysum), X.op)
            sigma = lambda k: math.exp(-alpha * ((deg(k) + 1 - nc) / ((D * p if bysum else p) + 1 - nc)) ** s) if deg(k) >= nc else 1.0
            deg = sum if bysum else max
        w = where(m, r"natrium::%s<%dul>::applyFilter\(" % (cls, D))
        key = "%s, %dD order %d%s, alpha %g, s %g%s" % (cls, D, p, ", several processes" if procs > 1 else "", alpha, s, "" if nc is None else ", from %s degree %d" % ("total" if bysum else "maximal", nc))
        vec = X.fill(["v"])
        X.call("filter", f, X.op, X.at(vec, 0))
        got = LA.tv_vals(X.I, X.st, X.at(vec, 0))[1]
        M_ = filtered(mesh, D, sigma)
        bad = []
        for c in X.own:
            g = mesh.cell_dofs[c]
            for i in range(mesh.nloc):
                e = 0.0
                for j in range(mesh.nloc):
                    e = A.add(e, A.scale(A.sym("v_%d" % g[j]), M_[i][j]))
                if not same(got[g[i]], e):
                    bad.append((c, i, show(got[g[i]]), show(e)))
        C.ob("a filter damps each Legendre mode of a cell by its own factor", key, not bad, w, "cell %s, node %s: %s; expected %s" % (bad[0] if bad else (0,) * 4))
        bad = []
        for c in X.own:
            e = 0.0
            for j, g in enumerate(mesh.cell_dofs[c]):
                e = A.add(e, A.scale(A.sub(got[g], A.sym("v_%d" % g)), mean[j]))
            if not same(e, 0.0):
                bad.append((c, show(e)))
        if nc is None or nc > 0:
            C.ob("a filter keeps the mean value of every cell", key, not bad, w, "changed in (cell, by) %s" % bad[:1])
        bad = [g for g in range(mesh.nd) if g not in own and not same(got[g], A.sym("v_%d" % g))]
        C.ob("a filter leaves the nodes of other processes alone", key, not bad, w, "changed: %s" % bad[:3])
    miss = sorted({str(e.args[0]) for e in X.st.events if e.kind == "missing update flag"})
    C.use(X.I)


# ---- F01: pseudo-entropic stabilizer --------------------------------------------------------
def moments(L, kind):
    """the moments a stabilizer keeps"""
    D = L.D
    out = [("density", lambda c: 1)] + [("momentum " + XYZ[d], lambda c, d=d: c[d]) for d in range(D)]
    if kind == "shear":
        return out + [("shear stress xy", lambda c: c[0] * c[1]), ("normal stress difference", lambda c: c[0] * c[0] - c[1] * c[1])]
    return out + [("stress " + XYZ[a] + XYZ[b], lambda c, a=a, b=b: c[a] * c[b]) for a in range(D) for b in range(a, D)]


def stab(C, m, it):
    name, kind, procs, fn = it
    L = SHARED["L"][name]
    D, Q = L.D, L.Q
    X = Fields(m, (L2 if D == 2 else L3S) if procs > 1 else (L2S if D == 2 else L3S), 1, 0, procs, Q0=int(D == 3))
    I, st = X.I, X.st
    w = where(m, r"natrium::applyStabilizer<%dul>\(" % Q if fn else r"natrium::PseudoEntropicStabilizer<%dul>::apply_d%dq%d%s\(" % (D, D, Q, "_with_e" if kind == "shear" else ""))
    key = "%s, %s%s" % (name, "single node" if fn else "solver, keeping the %s" % ("shear stress" if kind == "shear" else "stress tensor"), ", several processes" if procs > 1 else "")
    f = lambda i, k: A.sym("f%d_%d" % (i, k))
    if fn:
        a, b = X.R("in", 8 * Q), X.R("out", 8 * Q)
        for i in range(Q):
            I.store(st, Ptr(a.r, a.o + 8 * i), f(i, 0), "d")
        X.raw("probe_stab", Q, a, b)
        new = {0: [I.load(st, Ptr(b.r, b.o + 8 * i), "d") for i in range(Q)]}
    else:
        df = X.df(Q, "f")
        X.raw("probe_df_update", df)
        s, _ = solver(X, df, df, 0, X.at(df, 0))
        X.call("stabilize", s, int(kind == "shear"))
        new = {k: [LA.tv_vals(I, st, X.call("solver_f", s, i))[1][k] for i in range(Q)] for k in range(X.mesh.nd)}
        own = [k for k in range(X.mesh.nd) if X.mesh.dof_owner[k] == 0]
        other = [k for k in new if k not in own and any(not same(new[k][i], f(i, k)) for i in range(Q))]
        C.ob("the stabilizer leaves the nodes of other processes alone", key, not other, w, "changed: %s" % other[:3])
        new = {k: new[k] for k in own}
    keep = moments(L, kind)
    for n, mom in keep:
        bad = []
        for k, v in new.items():
            d = 0.0
            for i in range(Q):
                d = A.add(d, A.scale(A.sub(v[i], f(i, k)), mom(L.E[i])))
            if not same(d, 0.0):
                bad.append((k, show(d)))
        C.ob("the stabilizer keeps density, momentum and the stress it is meant to keep", "%s, %s" % (key, n), not bad, w, "(node, change) %s" % bad[:1])
    # linear map of a node's populations; everything else is taken away: rank, idempotence, isotropy
    mats = {}
    for k, v in new.items():
        M_ = [[coeff(v[i], "f%d_%d" % (j, k)) for j in range(Q)] for i in range(Q)]
        ok = all(x is not None for r in M_ for x in r) and all(same(v[i], lin(M_[i], [f(j, k) for j in range(Q)])) for i in range(Q))
        if not ok:
            C.ob("the stabilizer acts on each node alone, linearly", "%s, node %d" % (key, k), False, w, "population 0 becomes %s" % show(v[0]))
            return
        mats[k] = M_
    C.ob("the stabilizer acts on each node alone, linearly", key, True, w, "")
    first = mats[min(mats)]
    C.ob("the stabilizer treats all nodes alike", key, all(close(x, first) for x in mats.values()), w, "the matrices of different nodes differ")
    sq = [[sum(first[i][k] * first[k][j] for k in range(Q)) for j in range(Q)] for i in range(Q)]
    C.ob("the stabilizer applied twice is the stabilizer applied once", key, close(sq, first), w, "matrix * matrix differs from the matrix")
    tr = sum(first[i][i] for i in range(Q))
    C.ob("the stabilizer removes every other moment", key, abs(tr - len(keep)) < 1e-10, w, "%g moments are kept; expected %d" % (tr, len(keep)))
    bad = []
    for perm in itertools.permutations(range(D)):
        for sg in itertools.product((1, -1), repeat=D):
            g = [L.E.index([sg[d] * e[perm[d]] for d in range(D)]) for e in L.E]
            if any(abs(first[g[i]][g[j]] - first[i][j]) > 1e-10 for i in range(Q) for j in range(Q)):
                bad.append((perm, sg))
    C.ob("the stabilizer respects the symmetry of the lattice", key, not bad, w, "not symmetric under (axes, signs) %s" % bad[:1])
    C.use(I)


def lin(row, v):
    s = 0.0
    for x, y in zip(row, v):
        s = A.add(s, A.scale(y, x))
    return s


def close(a, b):
    return all(abs(x - y) < 1e-10 for r, q in zip(a, b) for x, y in zip(r, q))


def coeff(p, name):
    if not isinstance(p, A.Poly):
        return 0.0
    for mono, c in p.t.items():
        if len(mono) == 1 and mono[0][1] == 1 and A.AT.atoms[mono[0][0]].kind == "sym" and A.AT.atoms[mono[0][0]].name == name:
            return c
    return 0.0


def solver(X, f, u, u0, rho, T=None, it=0):
    s = X.R("solver", X.raw("lay_solver%d" % X.D))
    vecs = X.call("vecs", u, u0)
    X.call("solver", s, vecs, rho, f, X.sp, X.stencil, X.R("cfg", 4096), it, A.sym("time"))
    if T is not None:
        X.call("temperature", s, T)
    return s, vecs


FLOORS_F01 = (
    ("a filter damps each Legendre mode of a cell by its own factor", 27),
    ("a filter leaves the nodes of other processes alone", 27),
    ("a filter keeps the mean value of every cell", 21),
    ("the stabilizer leaves the nodes of other processes alone", 5),
    ("the stabilizer keeps density, momentum and the stress it is meant to keep", 52),
    ("the stabilizer acts on each node alone, linearly", 7),
    ("the stabilizer treats all nodes alike", 7),
    ("the stabilizer applied twice is the stabilizer applied once", 7),
    ("the stabilizer removes every other moment", 7),
    ("the stabilizer respects the symmetry of the lattice", 7),
)


def f01(C):
    C.floors += FLOORS_F01
    m = SHARED["m"] = mod()
    SHARED["L"] = {n: LT.table(C, common.module("lattice.cpp"), n) for n in ("D2Q9", "D3Q19")}
    base = [(1.3, 2.0, 1, False), (1.3, 3.0, 1, True), (0.7, 4.0, 2, False), (0.7, 1.5, 2, True), (0.9, 2.5, None, None)]
    zero = [(0.4, 2.0, 0, True), (0.4, 0.7, 0, False), (17.0, 12.0, 1, True), (1.1, 3.0, None, None)]
    items = [("filt", (D, p, procs, cs)) for D in (2, 3) for p, procs, cs in ((1, 1, zero), (1, 3, base[:2] + base[4:]), (2, 1, base))] + [("filt", (2, 3, 1, base + zero))]
    items += [("stab", x) for x in (("D2Q9", "shear", 1, 0), ("D2Q9", "shear", 3, 0), ("D2Q9", "stress", 1, 0), ("D2Q9", "stress", 3, 0), ("D3Q19", "stress", 1, 0), ("D3Q19", "stress", 3, 0), ("D2Q9", "stress", 1, 1), ("D3Q19", "stress", 1, 1))]
    common.pmap(C, one, items)


# ---- V01: time step and small solver utilities -----------------------------------------------
DIST = {2: [[[0, 1, 1.8, 3, 3.4], [0, 0.7, 2]], [[0, 0.3, 2, 3, 4], [0, 1.1]], [[0, 2, 3, 3.1, 4], [0, 5]], [[0, 2, 3, 5, 5.01], [0, 5, 5.7]]],
        3: [[[0, 1, 1.8, 3], [0, 0.7], [0, 1.2, 2]], [[0, 1, 2, 3], [0, 0.9], [0, 0.2]]]}


def steps(C, m, it):
    D, n, procs, p = it
    lines = DIST[D][n]
    key = "%dD grid %d, order %d%s" % (D, n, p, ", several processes" if procs > 1 else "")
    X = Fields(m, lines, p, 0, procs)
    I = X.I
    local = min(X.mesh.min_edge(c) for c in X.own)

    def least(got, fac, what, fn):
        """fac * (minimum of the local distance and those of the other processes)"""
        ks = X.collective(got)
        ok = len(ks) == 1 and I.coll[ks[0] - 1][0] == "min" and abs(I.coll[ks[0] - 1][1] - local) < 1e-12 and same(got, A.mul(A.func("least", local, A.sym("other%d" % ks[0])), fac))
        C.ob("mesh distances are the smallest over the cells of all processes", "%s, %s" % (key, what), ok, where(m, r"natrium::CFDSolverUtilities::%s<" % fn), "is %s; expected %s * the minimum of %s and the other processes" % (show(got), show(fac), local))
    tria = I.tria
    least(X.call("minvertex", tria), 1.0, "vertex distance", "getMinimumVertexDistance")
    gap = min(b - a for a, b in zip(X.mesh.x1, X.mesh.x1[1:]))
    least(X.call("gll", tria, p), gap, "node distance on a line", "getMinimumDoFDistanceGLL")
    for which, s in ((0, 1.0), (0, 2.5), (1, 1.0)):
        L = SHARED["L"][{(2, 0): "D2Q9", (2, 1): "D2Q25H", (3, 0): "D3Q15", (3, 1): "D3Q19"}[D, which]]
        stencil = X.call("stencil", which, s)
        u = X.raw("probe_umax", stencil)
        cfl = A.sym("cfl")
        got = X.call("timestep", tria, p, stencil, cfl)
        least(got, A.scale(cfl, 1 / (u * p * p)), "time step of %s, scaling %g" % (L.name, s), "calculateTimestep")
    C.use(I)


def speed(C, m, n):
    L = LT.table(C, common.module("lattice.cpp"), n)
    u = LT.coef(L.umax, 1)
    e = max(math.sqrt(sum(x * x for x in v)) for v in L.E)
    C.ob("the maximal particle speed is that of the fastest direction", n, u is not None and abs(u - e) < 1e-9, L.where, "is %s; the fastest direction has %g * scaling" % (A.show(L.umax), e))
    C.use(L.I)


INTEGRATORS = ["RUNGE_KUTTA_5STAGE", "THETA_METHOD", "EXPONENTIAL", "FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES",
               "HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP"]


def names(C, m, _):
    X = Fields(m, L2S, 1, 0)
    I = X.I
    w = where(m, r"natrium::CFDSolverUtilities::get_integrator_by_id\(")
    for k, n in enumerate(INTEGRATORS):
        a, b, s = X.R("a", 8), X.R("b", 8), X.R("s", 64)
        models.sput(X.st, s, "")
        X.raw("probe_integrator", k + 1, a, b, s)
        ia, ib, name = I.load(X.st, a, "i32"), I.load(X.st, b, "i32"), models.sget(I, X.st, s)
        ta = CONST[n if k < 3 else "OTHER"]
        tb = CONST["NONE" if k < 3 else n]
        C.ob("the documented integrator numbers select the integrator of that name", "%d: %s" % (k + 1, n), (ia, ib, name) == (ta, tb, n), w, "selects (%s, %s), named %s; expected (%s, %s)" % (ia, ib, name, ta, tb))
    C.use(I)


STENCILS = {(2, 9): "D2Q9", (2, 25): "D2Q25H", (3, 13): "D3Q13", (3, 15): "D3Q15", (3, 19): "D3Q19", (3, 21): "D3Q21", (3, 27): "D3Q27", (3, 45): "D3Q45"}


def stencils(C, m, _):
    for d in (1, 2, 3, 4):
        for q in (5, 7, 9, 13, 15, 19, 21, 25, 27, 45, 77):
            X = Fields(m, L2S, 1, 0)
            I = X.I
            t, dq, s = X.R("type", 8), X.R("dq", 16), X.R("scaling", 8)
            n = STENCILS.get((d, q))
            w = where(m, r"natrium::CFDSolverUtilities::make_stencil\(")
            I.throws.clear()
            st, _ = I.call(X.st, "probe_make_stencil", [d, q, 3, t, dq, s])
            if st is None:
                C.ob("a velocity set is built as asked or refused", "d=%d, q=%d" % (d, q), n is None, w, "refused: %s" % str(I.throws[-1:])[:200])
            else:
                got = (I.load(st, t, "i32"), I.load(st, dq, "i64"), I.load(st, Ptr(dq.r, 8), "i64"), I.load(st, s, "d"))
                C.ob("a velocity set is built as asked or refused", "d=%d, q=%d" % (d, q), n is not None and got == (CONST["Stencil_" + n], d, q, 3.0), w, "built (type, D, Q, scaling) %s" % (got,))
            C.use(I)


CONST = {}


FLOORS_V01 = (
    ("the maximal particle speed is that of the fastest direction", 12),
    ("the documented integrator numbers select the integrator of that name", 13),
    ("a velocity set is built as asked or refused", 39),
    ("mesh distances are the smallest over the cells of all processes", 144),
)


def v01(C):
    C.floors += FLOORS_V01
    m = SHARED["m"] = mod()
    SHARED["L"] = {n: LT.table(C, common.module("lattice.cpp"), n) for n in ("D2Q9", "D2Q25H", "D3Q15", "D3Q19")}
    for n, L in SHARED["L"].items():
        L.name = n
    for n in INTEGRATORS + ["OTHER", "NONE"] + ["Stencil_" + x for x in STENCILS.values()]:
        CONST[n] = enum(m, n)
    items = [("speed", n) for n in LT.ORDER] + [("names", 0), ("stencils", 0)]
    items += [("steps", (D, n, procs, p)) for D in (2, 3) for n in range(len(DIST[D])) for procs in (1, 3) for p in ((1, 2, 3) if D == 2 else (1, 2))]
    common.pmap(C, one, items)


RUN = {"Q01": q01, "F01": f01, "V01": v01}
