"""T01: time integrators of the discontinuous Galerkin streaming step."""
import re

import common
from common import absint, A, Broken
from absint import Ptr
import models
import models_la as LA
from solver import where, show

STOP = LA.LA_RE + r"|^dealii::"


def mod():
    return common.module("integrators.cpp", extra_stop=STOP, extra=["-fno-access-control"])


# ---- sparse matrices: dense tables of values; block matrices: tables of sparse matrices
def sm(I, st, p):
    k = ("sm",) + models.key(p)
    if k not in st.x:
        st.x[k] = tuple(tuple(0.0 for _ in range(LA.nodes(I))) for _ in range(LA.nodes(I)))
    return st.x[k]


def smput(st, p, M):
    st.x[("sm",) + models.key(p)] = tuple(tuple(r) for r in M)


def bmn(I, st, p):
    return st.x.get(("bmn",) + models.key(p), 0)


def bmb(I, st, p, i, j):
    k = ("bmb",) + models.key(p) + (i, j)
    if k not in st.x:
        st.x[k] = I.new_region(st, "smblock", 64)
    return Ptr(st.x[k], 0)


def isblock(F):
    return "BlockSparseMatrix" in F.d or "BlockMatrixBase" in F.d


def parts(I, st, p, F):
    """list of (row block, column block, sparse matrix)"""
    if not isblock(F):
        return [(0, 0, p)]
    n = bmn(I, st, p)
    return [(i, j, bmb(I, st, p, i, j)) for i in range(n) for j in range(n)]


def vparts(I, st, p, F):
    return [LA.blk_get(I, st, p, i) for i in range(LA.nblk(I, st, p))] if isblock(F) else [p]


def m_vmult(add):
    def f(I, st, a, F):
        V = [LA.tv_vals(I, st, b)[1] for b in vparts(I, st, a[2], F)]
        D = vparts(I, st, a[1], F)
        if len(D) != len(V) or isblock(F) and bmn(I, st, a[0]) != len(V):
            I.event(st, "size mismatch", (F.d,))
            return models.throws(I, st, a, F)
        out = [(LA.tv_vals(I, st, d)[1] if add else [0.0] * len(V[0])) for d in D]
        for i, j, M in parts(I, st, a[0], F):
            for r, row in enumerate(sm(I, st, M)):
                for c, x in enumerate(row):
                    out[i][r] = A.add(out[i][r], A.mul(x, V[j][c]))
        for d, o in zip(D, out):
            rid, v = LA.tv_vals(I, st, d)
            if len(v) != len(o):
                I.event(st, "size mismatch", (F.d,))
            for k, x in enumerate(o):
                I.store(st, Ptr(rid, 8 * k), x, "d")
        I.event(st, "vmult", ())
        return st, None
    return f


def m_scale(I, st, a, F):
    for _, _, M in parts(I, st, a[0], F):
        smput(st, M, [[A.mul(x, a[1]) if "*=" in F.d else A.div(x, a[1]) for x in r] for r in sm(I, st, M)])
    return st, a[0]


def m_copyfrom(I, st, a, F):
    if isblock(F):
        n = bmn(I, st, a[1])
        st.x[("bmn",) + models.key(a[0])] = n
        for i in range(n):
            for j in range(n):
                smput(st, bmb(I, st, a[0], i, j), sm(I, st, bmb(I, st, a[1], i, j)))
    else:
        smput(st, a[0], sm(I, st, a[1]))
    return st, (a[0] if F.ret == "p" else None)


def m_reinit(I, st, a, F):
    if isblock(F):
        if not isinstance(a[1], Ptr):
            st.x[("bmn",) + models.key(a[0])] = a[1]
        else:
            st.x[("bmn",) + models.key(a[0])] = bmn(I, st, a[1])
    else:
        n = LA.nodes(I)
        smput(st, a[0], [[0.0] * n] * n)
    return st, None


def m_add(I, st, a, F):
    M = [list(r) for r in sm(I, st, a[0])]
    M[a[1]][a[2]] = A.add(M[a[1]][a[2]], a[3])
    smput(st, a[0], M)
    return st, None


def m_dim(I, st, a, F):
    n = re.search(r"::(\w+)\(", F.d[F.d.index("Matrix"):]).group(1)
    if n in ("n_block_rows", "n_block_cols"):
        return st, bmn(I, st, a[0])
    if n == "memory_consumption":
        return st, 100 + (bmn(I, st, a[0]) if isblock(F) else int(("sm",) + models.key(a[0]) in st.x))
    if n == "l1_norm":
        return st, A.sym("norm")
    k = LA.nodes(I)
    return st, k * bmn(I, st, a[0]) if isblock(F) else k


def m_solve(I, st, a, F):
    """x := the solution of M x = b"""
    blk = "BlockVector" in F.d
    V = lambda p: [x for b in ([LA.blk_get(I, st, p, i) for i in range(LA.nblk(I, st, p))] if blk else [p]) for x in LA.tv_vals(I, st, b)[1]]
    n = LA.nodes(I)
    if blk:
        k = bmn(I, st, a[1])
        M = [[sm(I, st, bmb(I, st, a[1], r // n, c // n))[r % n][c % n] for c in range(n * k)] for r in range(n * k)]
    else:
        M = [list(r) for r in sm(I, st, a[1])]
    k = len([e for e in st.events if e.kind == "solve"])
    I.event(st, "solve", (M, V(a[3]), V(a[2])))
    c = 0
    for p in ([LA.blk_get(I, st, a[2], i) for i in range(LA.nblk(I, st, a[2]))] if blk else [a[2]]):
        rid, v = LA.tv_vals(I, st, p)
        for j in range(len(v)):
            I.store(st, Ptr(rid, 8 * j), A.sym("x%d_%d" % (k, c)), "d")
            c += 1
    return st, None


MT = r"^(?:[^(]* )?dealii::(?:TrilinosWrappers::(?:Block)?SparseMatrix|BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>)::"
MODELS = [
    (MT + r"vmult_add[<(]", m_vmult(True)), (MT + r"vmult[<(]", m_vmult(False)), (MT + r"operator(\*|/)=\(", m_scale), (MT + r"copy_from[<(]", m_copyfrom), (MT + r"reinit[<(]", m_reinit), (MT + r"add\(", m_add),
    (MT + r"(n|m|n_block_rows|n_block_cols|memory_consumption|l1_norm)\(", m_dim), (MT + r"block\(", lambda I, st, a, F: (st, bmb(I, st, a[0], a[1], a[2]))),
    (MT + r"(BlockSparseMatrix|SparseMatrix|BlockMatrixBase)\(", models.nop), (MT + "~", models.nop),
    (MT + r"locally_owned_domain_indices\(", LA.m_tv_owned),
    (r"^(void )?dealii::Solver\w+<.*>::solve<", m_solve), (r"^dealii::Solver\w+(<.*>)?::", models.nop), (r"^dealii::(TrilinosWrappers::)?Precondition\w+", models.nop), (r"^dealii::GrowingVectorMemory", models.nop),
]


def m_mnorm(I, st, a, F):
    rows = models.mrows(I, st, a[0])
    if "l1_norm" in F.d:
        rows = [list(c) for c in zip(*rows)]
    if "frobenius" in F.d:
        return st, sum(x * x for r in rows for x in r) ** 0.5
    return st, max(sum(abs(x) for x in r) for r in rows)


def m_madd(I, st, a, F):
    M = models.mrows(I, st, a[0])
    if isinstance(a[1], Ptr):          # add(matrix, factor[, offsets])
        src, fac, offs = models.mrows(I, st, a[1]), a[2], a[3:]
    else:                              # add(factor, matrix)
        fac, src, offs = a[1], models.mrows(I, st, a[2]), []
    if len(a) > 3 and any(o != 0 for o in offs):
        raise absint.AnalysisError("matrix sum with offsets")
    models.mput(I, st, a[0], [[A.add(x, A.mul(fac, y)) for x, y in zip(u, v)] for u, v in zip(M, src)])
    return st, None


DENSE = [(r"^(?:[^(]* )?dealii::FullMatrix<double>::add(<double>)?\((double|dealii::FullMatrix)", m_madd), (r"^(?:[^(]* )?dealii::FullMatrix<double>::(linfty|l1|frobenius)_norm\(", m_mnorm)]


class Int:
    """an integrator with a symbolic system matrix, system vector and state"""

    def __init__(self, m, name, nodes, nblk, extra=(), dt0=None):
        self.name, self.m = name, m
        self.I = I = common.interp(m, list(extra) + DENSE + MODELS + list(LA.LA))
        I.nodes = nodes
        self.st = st = absint.State()
        self.blk = name.endswith("b")
        R = lambda n: Ptr(I.new_region(st, n, 512), 0)
        self.f, self.A, self.b = R("f"), R("A"), R("b")
        n = nodes * (nblk if self.blk else 1)
        self.n = n
        self.dt0, self.t, self.theta = A.sym("dt0") if dt0 is None else dt0, A.sym("t"), A.sym("theta")
        self.M = [[A.sym("a%d%d" % (r, c)) for c in range(n)] for r in range(n)]
        if self.blk:
            st.x[("bmn",) + models.key(self.A)] = nblk
            for i in range(nblk):
                for j in range(nblk):
                    smput(st, bmb(I, st, self.A, i, j), [[self.M[i * nodes + r][j * nodes + c] for c in range(nodes)] for r in range(nodes)])
        else:
            smput(st, self.A, self.M)
        for p, nm in ((self.f, "f"), (self.b, "b")):
            if self.blk:
                st.x[("nblk",) + models.key(p)] = nblk
            for i in range(nblk if self.blk else 1):
                q = LA.blk_get(I, st, p, i) if self.blk else p
                LA.tv_new(I, st, q, nodes)
                rid, v = LA.tv_vals(I, st, q)
                for k in range(nodes):
                    I.store(st, Ptr(rid, 8 * k), A.sym("%s%d" % (nm, i * nodes + k)), "d")
        self.F, self.B = self.vals(self.f), self.vals(self.b)
        self.st, self.obj = I.call(st, "probe_new_" + name, [self.dt0, self.theta, self.f, self.f])
        if self.st is None:
            raise Broken("construction of %s does not return" % name)

    def vals(self, p, st=None):
        st = st or self.st
        ps = [LA.blk_get(self.I, st, p, i) for i in range(LA.nblk(self.I, st, p))] if self.blk else [p]
        return [x for q in ps for x in LA.tv_vals(self.I, st, q)[1]]

    def step(self, dt, st=None):
        return self.I.call(st or self.st, "probe_step_" + self.name, [self.obj, self.f, self.A, self.b, self.t, dt])

    def mul(self, v):
        return [sum_([A.mul(x, y) for x, y in zip(r, v)]) for r in self.M]


def sum_(xs):
    s = 0.0
    for x in xs:
        s = A.add(s, x)
    return s


def axpy(a, x, y):
    return [A.add(A.mul(a, u), v) for u, v in zip(x, y)]


def allzero(xs, ys):
    return len(xs) == len(ys) and all(A.vanishes(A.sub(x, y)) for x, y in zip(xs, ys))


LABEL = {"rkb": "RungeKutta5LowStorage (block)", "rks": "RungeKutta5LowStorage", "thb": "ThetaMethod (block)", "ths": "ThetaMethod", "exb": "ExponentialTimeIntegrator (block)", "exs": "ExponentialTimeIntegrator"}


def dts(T):
    """(argument, effective step, key)"""
    return [(0.0, T.dt0, "stored step"), (A.sym("dt"), A.sym("dt"), "given step"), (T.dt0, T.dt0, "given step equal to the stored one")]


def prologue(C, T, key, st, ret, dt, w):
    if not C.ob("a time step returns", key, st is not None, w, "no normal return"):
        return False
    C.ob("a time step advances the time by the step it made", key, isinstance(ret, A.Poly) and A.vanishes(A.sub(ret, A.add(T.t, dt))), w, "returns %s" % show(ret))
    bad = [e.args[0] for e in st.events if e.kind == "undefined"]
    C.ob("no division by zero and no inversion of a singular matrix", key, not bad, w, bad[0] if bad else "")
    C.ob("the integrator remembers the step size", key, A.vanishes(A.sub(T.I.call(st, "probe_dt_" + T.name, [T.obj])[1], dt)), w, "")
    C.ob("a time step leaves matrix and right-hand side alone", key, allzero(T.vals(T.b, st), T.B) and not [e for e in st.events if e.kind == "size mismatch"], w, "")
    return True


def rk(C, m):
    for nm in ("rkb", "rks"):
        w = where(m, r"natrium::RungeKutta5LowStorage<dealii::TrilinosWrappers::%sSparseMatrix.*::step\(" % ("Block" if nm == "rkb" else ""))
        for k in range(3):
            T = Int(m, nm, 1 if nm == "rkb" else 2, 2)
            arg, dt, kn = dts(T)[k]
            key = "%s, %s" % (LABEL[nm], kn)
            st, ret = T.step(arg)
            C.use(T.I)
            if not prologue(C, T, key, st, ret, dt, w):
                continue
            got = T.vals(T.f, st)
            # exact solution, Taylor expanded: f + sum_k dt^k/k! A^(k-1) (A f + b)
            v = axpy(1.0, T.mul(T.F), T.B)
            want, fac, vs = list(T.F), 1.0, []
            for j in range(1, 6):
                fac = A.div(A.mul(fac, dt), float(j))
                vs.append((fac, v))
                if j < 5:
                    want = axpy(fac, v, want)
                v = T.mul(v)
            # the difference is c * dt^5 A^4 (A f + b) with one small constant c
            diff = [A.sub(x, y) for x, y in zip(got, want)]
            lim = [A.mul(vs[4][0], x) for x in vs[4][1]]
            if k == 0:
                ok, ratio = proportional(diff, lim)
            else:
                ok = allzero(diff, [A.mul(ratio, x) for x in lim])
            C.ob("one Runge-Kutta step agrees with the exact solution to fourth order, for any matrix and source", key, ok and 0.0 <= ratio <= 1.0, w, "the remainder is not a fifth-order term (ratio %s)" % ratio)


def proportional(xs, ys):
    """xs == r * ys with one number r (up to round-off of the coefficients); decided on the coefficients of the polynomials"""
    r, ok = None, True
    for x, y in zip(xs, ys):
        x, y = (A.expand(u) if isinstance(u, A.Poly) else u for u in (x, y))
        tx, ty = (x.t if isinstance(x, A.Poly) else {(): x}), (y.t if isinstance(y, A.Poly) else {(): y})
        for mo in set(tx) | set(ty):
            a, b = float(tx.get(mo, 0.0)), float(ty.get(mo, 0.0))
            if b == 0.0:
                ok &= abs(a) < 1e-9
                continue
            if r is None:
                r = a / b
            ok &= abs(a - r * b) < 1e-9
    return ok, r if r is not None else 0.0


def theta(C, m):
    for nm in ("thb", "ths"):
        w = where(m, r"natrium::ThetaMethod<dealii::TrilinosWrappers::%sSparseMatrix.*::step\(" % ("Block" if nm == "thb" else ""))
        for k in range(3):
            T = Int(m, nm, 2, 2)
            arg, dt, kn = dts(T)[k]
            st = T.st
            for rep in (1, 2):
                F = T.vals(T.f, st)
                st, ret = T.step(arg, st)
                C.use(T.I)
                key = "%s, %s, step %d" % (LABEL[nm], kn, rep)
                if not prologue(C, T, key, st, ret, dt, w):
                    break
                sol = [e for e in st.events if e.kind == "solve"][rep - 1:]
                if not C.ob("one theta step solves one linear system", key, len(sol) == 1, w, "%d solves" % len(sol)):
                    break
                Ms, rhs, x0 = sol[0].args
                wantM = [[A.sub(1.0 if r == c else 0.0, A.mul(A.mul(T.theta, dt), T.M[r][c])) for c in range(T.n)] for r in range(T.n)]
                C.ob("the theta method solves (1 - theta dt A) f' = (1 + (1 - theta) dt A) f + dt b", key + " matrix", len(Ms) == T.n and all(allzero(x, y) for x, y in zip(Ms, wantM)), w, "wrong matrix")
                wr = axpy(dt, T.B, axpy(A.mul(A.sub(1.0, T.theta), dt), T.mul(F), F))
                C.ob("the theta method solves (1 - theta dt A) f' = (1 + (1 - theta) dt A) f + dt b", key + " right-hand side", allzero(rhs, wr), w, "wrong right-hand side")
                C.ob("the new state is the solution of the linear system", key, [show(x) for x in T.vals(T.f, st)] == ["1*x%d_%d" % (rep - 1, j) for j in range(T.n)], w, str(T.vals(T.f, st))[:200])


# ---- exponential integrator: Krylov projection with the Arnoldi coefficients chosen, vectors symbolic
class Arnoldi:
    """answers for norms and inner products, in order of the calls; records their arguments"""

    def __init__(self, seed, scale, breakdown=None):
        self.k, self.seed, self.scale, self.log, self.breakdown, self.norms = 0, seed, scale, [], breakdown, 0

    def value(self, kind):
        self.k += 1
        x = (self.k * 0.6180339887 + self.seed * 0.4142135623) % 1.0
        if kind == "norm":
            self.norms += 1
            if self.breakdown == self.norms - 1:
                return 0.0
            return self.scale * (0.4 + 0.6 * x)
        return self.scale * (2.0 * x - 1.0)

    def models(self):
        V = lambda I, st, p: [x for b in ([LA.blk_get(I, st, p, i) for i in range(LA.nblk(I, st, p))] if ("nblk",) + models.key(p) in st.x else [p]) for x in LA.tv_vals(I, st, b)[1]]

        def zero(v):
            return all(not isinstance(x, A.Poly) and x == 0 for x in v)

        def norm(I, st, a, F):
            r = self.value("norm")
            if zero(V(I, st, a[0])):
                r = 0.0
            self.log.append(("norm", r, V(I, st, a[0])))
            return st, r

        def dot(I, st, a, F):
            r = self.value("dot")
            if zero(V(I, st, a[0])) or zero(V(I, st, a[1])):
                r = 0.0
            self.log.append(("dot", r, V(I, st, a[0]), V(I, st, a[1])))
            return st, r

        def divide(I, st, a, F):
            if not isinstance(a[1], A.Poly) and a[1] == 0:
                I.event(st, "undefined", ("division of a vector by zero",))
            for b in ([LA.blk_get(I, st, a[0], i) for i in range(LA.nblk(I, st, a[0]))] if ("nblk",) + models.key(a[0]) in st.x else [a[0]]):
                LA.m_tv_op(I, st, [b, a[1]], F)
            return st, a[0]

        def gj(I, st, a, F):
            M = models.mrows(I, st, a[0])
            try:
                R = models.matinv(M)
                if any(x != x or abs(x) > 1e12 for r in R for x in r):
                    raise ZeroDivisionError
            except (ZeroDivisionError, absint.AnalysisError):
                I.event(st, "undefined", ("inversion of a singular matrix",))
                R = [[0.0] * len(M)] * len(M)
            models.mput(I, st, a[0], R)
            return st, None
        P = r"^(?:[^(]* )?dealii::(?:TrilinosWrappers::MPI::(?:Block)?Vector|BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>)::"
        return [(P + r"l2_norm\(", norm), (P + r"operator\*\((?!=)", dot), (P + r"operator/=\(", divide), (r"^(?:[^(]* )?dealii::FullMatrix<double>::gauss_jordan\(", gj)]


def phis(H, dt, m):
    """phi_1(dt H), phi_2(dt H) by scaling and Taylor series of the augmented matrix, in exact rational arithmetic"""
    from fractions import Fraction as Q
    n = m + 2
    # exp([[Z, e1, 0], [0, 0, 1], [0, 0, 0]]) carries phi_1(Z) e1 and phi_2(Z) e1
    Z = [[Q(0)] * n for _ in range(n)]
    for i in range(m):
        for j in range(m):
            Z[i][j] = Q(H[i][j]) * Q(dt)
    Z[0][m] = Q(1)
    Z[m][m + 1] = Q(1)
    s, nr = 0, max(sum(abs(x) for x in r) for r in Z)
    while nr > 1:
        nr /= 2
        s += 1
    D = 1 << 120
    rnd = lambda x: Q(round(x * D), D)
    Z = [[rnd(x / 2 ** s) for x in r] for r in Z]
    E = [[Q(int(i == j)) for j in range(n)] for i in range(n)]
    T = E
    mm = lambda X, Y: [[rnd(sum(X[i][k] * Y[k][j] for k in range(n) if X[i][k] and Y[k][j])) for j in range(n)] for i in range(n)]
    for k in range(1, 26):
        T = [[rnd(x / k) for x in r] for r in mm(T, Z)]
        E = [[x + y for x, y in zip(u, v)] for u, v in zip(E, T)]
    for _ in range(s):
        E = mm(E, E)
    return [float(E[i][m]) for i in range(m)], [float(E[i][m + 1]) for i in range(m)]


KRYLOV = 6


def exponential(C, m):
    for nm in ("exb", "exs"):
        w = where(m, r"natrium::ExponentialTimeIntegrator<dealii::TrilinosWrappers::%sSparseMatrix.*::step\(" % ("Block" if nm == "exb" else ""))
        for scale, dt in ((1.0, 0.03125), (1.0, 0.25), (1.0, 1.0), (2.0, 1.0), (1.0, 4.0), (1.0, 13.0)):
            for stored in (True, False):
                ar = Arnoldi(3 + stored, scale)
                T = Int(m, nm, 1 if nm == "exb" else 2, 2, ar.models(), dt0=dt if stored else 77.0)
                st, ret = T.step(0.0 if stored else dt)
                C.use(T.I)
                key = "%s, Hessenberg matrix of size %s, dt %s (%s)" % (LABEL[nm], scale, dt, "stored" if stored else "given")
                if not prologue(C, T, key, st, ret, dt, w):
                    continue
                krylov(C, T, key, st, ar, dt, w)
        # steady state: A f + b = 0 has norm zero
        ar = Arnoldi(1, 1.0, 0)
        T = Int(m, nm, 1 if nm == "exb" else 2, 2, ar.models(), dt0=1.0)
        st, ret = T.step(1.0)
        key = "%s, steady state" % LABEL[nm]
        if prologue(C, T, key, st, ret, 1.0, w):
            C.ob("a steady state is left alone", key, allzero(T.vals(T.f, st), T.F), w, "f becomes %s" % [show(x)[:60] for x in T.vals(T.f, st)])
        # the Krylov space is exhausted after k + 1 directions
        for k in range(1, KRYLOV):
            ar = Arnoldi(1, 1.0, k)
            T = Int(m, nm, 1 if nm == "exb" else 2, 2, ar.models(), dt0=1.0)
            st, ret = T.step(1.0)
            key = "%s, Krylov space of dimension %d" % (LABEL[nm], k)
            if prologue(C, T, key, st, ret, 1.0, w):
                krylov(C, T, key, st, ar, 1.0, w, k)


def krylov(C, T, key, st, ar, dt, w, dim=None):
    rule = "the Krylov basis is the Gram-Schmidt orthogonalisation of A f + b, A v0, A v1, ..."
    m = dim or KRYLOV
    log = list(ar.log)
    start = axpy(1.0, T.mul(T.F), T.B)
    ok = log and log[0][0] == "norm" and allzero(log[0][2], start)
    if not C.ob(rule, key + ": first direction", ok, w, "the first norm taken is not that of A f + b"):
        return
    beta = log[0][1]
    V = [[A.div(x, beta) for x in start]]
    H = [[0.0] * m for _ in range(m + 1)]
    p = 1
    for j in range(m):
        u = T.mul(V[j])
        ok = True
        for i in range(j + 1):
            e = log[p] if p < len(log) else ("none",)
            p += 1
            if e[0] != "dot":
                ok = False
                break
            a, b = e[2], e[3]
            ok &= (allzero(a, u) and allzero(b, V[i])) or (allzero(b, u) and allzero(a, V[i]))
            H[i][j] = e[1]
            u = axpy(-e[1], V[i], u)
        e = log[p] if p < len(log) else ("none",)
        p += 1
        ok = ok and e[0] == "norm" and allzero(e[2], u)
        if not C.ob(rule, key + ": direction %d" % (j + 1), ok, w, "inner products or norm of another vector"):
            return
        H[j + 1][j] = e[1]
        if e[1] != 0.0:
            V.append([A.div(x, e[1]) for x in u])
    p1, p2 = phis(H, dt, m)
    want = list(T.F)
    for i in range(m):
        want = axpy(dt * beta * p1[i], V[i], want)
    if H[m][m - 1] != 0.0:
        want = axpy(dt * beta * dt * H[m][m - 1] * p2[m - 1], V[m], want)
    got = T.vals(T.f, st)
    N = A.NumEval(1)
    size = max(abs(N.ev(x)) for v in V + [T.F] for x in v)
    C.ob("the step adds dt |w| (V phi_1(dt H) e1 + dt h phi_2(dt H)_(m,1) v_(m+1))", key, close(got, want, 1e-9 * (1.0 + size)), w, "e.g. %s, expected %s" % (show(got[0])[:80], show(want[0])[:80]))


def close(xs, ys, tol=1e-7):
    if len(xs) != len(ys):
        return False
    for seed in (1, 2):
        N = A.NumEval(seed)
        for x, y in zip(xs, ys):
            u, v = N.ev(x), N.ev(y)
            if not abs(u - v) <= tol * (1.0 + abs(u) + abs(v)):
                return False
    return True


SCHEMES = {"Explicit": ("FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER"), "Implicit": ("BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES"), "EmbeddedExplicit": ("HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP")}


def m_dealrk(I, st, a, F):
    """deal.II's integrators are replaced by one that records what it is given"""
    tag = "s" if "MPI::Vector>" in F.d.split("(")[0] else "b"
    vt = [g for g in I.m.globals if g.startswith("_ZTV7ProbeRK") and ("BlockVector" in g) == (tag == "b")]
    if len(vt) != 1:
        raise Broken("no table of the recording integrator: %s" % vt)
    I.store(st, a[0], Ptr("g:" + vt[0], 16), "p")
    for w, n in ((0, "ps"), (1, "ptau")):
        I.store(st, Ptr(a[0].r, a[0].o + I.call(st, "probe_layrk_" + tag, [w])[1]), A.sym(n), "d")
    I.built.append((re.search(r"TimeStepping::(\w+?)RungeKutta<", F.d).group(1), a[0], tuple(a[1:])))
    return st, None


def h_evolve(I, st, a):
    I.evolved.append(tuple(a[:2]) + tuple([x for b in ([LA.blk_get(I, st, p, i) for i in range(LA.nblk(I, st, p))] if ("nblk",) + models.key(p) in st.x else [p]) for x in LA.tv_vals(I, st, b)[1]] for p in a[2:]))
    return st, None


DEAL = [(r"^(?:[^(]* )?dealii::TimeStepping::(Explicit|Implicit|EmbeddedExplicit|LowStorage)RungeKutta<.*>::\w+RungeKutta\(", m_dealrk), (r"^vhook_evolve", lambda I, st, a, F: h_evolve(I, st, a)), (r"natrium::(Logging|LOG|Timing)|dealii::(TimerOutput|ConditionalOStream)", models.nop)]
PARAMS = ("coarsen", "refine", "shortest", "longest", "rtol", "ctol")


def deal(C, m):
    w = where(m, r"natrium::DealIIWrapper<dealii::TrilinosWrappers::BlockSparseMatrix.*::DealIIWrapper\(")
    wst = where(m, r"natrium::DealIIWrapper<dealii::TrilinosWrappers::BlockSparseMatrix.*::step\(")
    for tag in "bs":
        for cls, names in sorted(SCHEMES.items()):
            for nm in names:
                for emb in ((0, 1) if cls[0:2] == "Em" else (0,)):
                    key = "%s%s%s" % (nm, " (block)" if tag == "b" else "", ", with step size control" if emb else "")
                    T = Int(m, "rk" + tag, 1 if tag == "b" else 2, 2, extra=DEAL)
                    I = T.I
                    I.built, I.evolved = [], []
                    num = I.call(T.st, "probe_scheme_" + nm, [])[1]
                    want = I.call(T.st, "probe_dscheme_" + nm, [])[1]
                    par = [A.sym(p) for p in PARAMS] if emb else []
                    T.st, T.obj = I.call(T.st, "probe_deal_" + ("e" if emb else "") + tag, [T.dt0, num, 3] + par)
                    T.name = "d" + tag
                    ok = len(I.built) == 1 and I.built[0][0] == cls
                    C.ob("a deal.II integrator is built in the class of its scheme", key, ok, w, "built: %s" % [b[0] for b in I.built])
                    if not ok:
                        continue
                    _, at, args = I.built[0]
                    C.ob("the deal.II integrator that runs is the configured one", key, args[0] == want, w, "%s is number %s in deal.II, the integrator is built with %s" % (nm, want, args[0]))
                    if emb:
                        C.ob("an embedded deal.II integrator gets the configured limits", key, len(args) == 7 and all(isinstance(x, A.Poly) and A.vanishes(A.sub(x, y)) for x, y in zip(args[1:], par)), w, "built with %s" % [show(x) for x in args[1:]])
                    same = [I.call(T.st, "probe_deal_%s%s" % (k, tag), [T.obj])[1] for k in ("rk", "em")]
                    C.ob("the integrator that steps is the one that was built", key, same[0] == at and (same[1] == at if cls[0:2] == "Em" else not isinstance(same[1], Ptr)), w, "%s, built %s" % (same, at))
                    if nm not in ("RK_CLASSIC_FOURTH_ORDER", "CRANK_NICOLSON", "DOPRI"):
                        continue
                    for k in range(3):
                        arg, dt, kn = dts(T)[k]
                        k2 = "%s, %s" % (key, kn)
                        I.evolved = []
                        before = len([e for e in T.st.events if e.kind == "solve"])
                        st, ret = T.step(arg)
                        ev = [e for e in (st.events if st else []) if e.kind == "solve"][before:]
                        if not prologue(C, T, k2, st, ret, dt, wst):
                            continue
                        if not C.ob("one step of a deal.II integrator is one step of deal.II", k2, len(I.evolved) == 1, wst, "%d steps" % len(I.evolved)):
                            continue
                        t, d, y, fy, jy = I.evolved[0]
                        C.ob("deal.II integrates from the current time by the step that is asked for", k2, FDs(t, T.t) and FDs(d, dt), wst, "from %s by %s" % (show(t), show(d)))
                        C.ob("deal.II integrates the current state", k2, allzero(y, T.F) and allzero(T.vals(T.f, st), T.F), wst, "wrong state")
                        C.ob("deal.II integrates f' = A f + b", k2, allzero(fy, axpy(1.0, T.mul(T.F), T.B)), wst, "the right-hand side is %s" % [show(x) for x in fy])
                        ok = len(ev) == 1 and [show(x) for x in jy] == ["1*x%d_%d" % (before, j) for j in range(T.n)]
                        if ok:
                            M, rhs, _ = ev[0].args
                            tau = A.sym("ptau")
                            ok = allzero(rhs, T.F) and len(M) == T.n and all(allzero(x, y2) for x, y2 in zip(M, [[A.sub(1.0 if r == c else 0.0, A.mul(tau, T.M[r][c])) for c in range(T.n)] for r in range(T.n)]))
                        C.ob("implicit deal.II integrators get the inverse of 1 - tau A", k2, ok, wst, "%d solves" % len(ev))
                    C.use(I)


FDs = lambda x, y: A.vanishes(A.sub(x, y))


def t01(C):
    m = mod()
    deal(C, m)
    C.floor("the deal.II integrator that runs is the configured one", 34)
    C.floor("deal.II integrates f' = A f + b", 24)
    rk(C, m)
    theta(C, m)
    exponential(C, m)
    C.floor("a time step returns", 10)


RUN = {"T01": t01}
