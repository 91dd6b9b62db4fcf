"""L01 lattice moments, L02 lattice symmetry, L03 moment basis: tables of every velocity set, by constant propagation."""
import itertools

from common import *

# order up to which the moments must be those of a Gaussian with variance c_s^2, and the precision of the published tables
ORDER = {"D2Q9": (5, 1e-12), "D2Q19H": (9, 1e-12), "D2Q19V": (9, 1e-12), "D2Q25H": (9, 1e-12), "D2Q777": (5, 1e-5), "D3Q13": (5, 1e-12),
         "D3Q15": (5, 1e-12), "D3Q19": (5, 1e-12), "D3Q21": (5, 1e-12), "D3Q27": (5, 1e-12), "D3Q45": (7, 1e-12), "D3Q77": (9, 1e-12),
         "D3V27": (7, 1e-12), "RD3Q27": (5, 1e-12)}
DQ = {"D2Q9": (2, 9), "D2Q19H": (2, 19), "D2Q19V": (2, 19), "D2Q25H": (2, 25), "D2Q777": (2, 777), "D3Q13": (3, 13), "D3Q15": (3, 15), "D3Q19": (3, 19),
      "D3Q21": (3, 21), "D3Q27": (3, 27), "D3Q45": (3, 45), "D3Q77": (3, 77), "D3V27": (3, 27), "RD3Q27": (3, 27)}


class Lat:
    pass


def table(C, m, name):
    I = interp(m)
    st = absint.State()
    o = [I.new_region(st, n, 8 * 1000000) for n in ("out", "mom", "inv")]
    st, _ = I.call(st, "probe_lat_" + name, [A.sym("s")] + [absint.Ptr(x, 0) for x in o])
    if st is None:
        raise Broken("constructing %s always throws" % name)
    C.use(I)
    L = Lat()
    L.I, L.st, L.o = I, st, o
    ctor = [F for F in m.funcs.values() if F.d.startswith("natrium::%s::%s(" % (name, name))]
    L.where = src(ctor[0]) if ctor else name
    mk = {k: next((src(F) for F in m.funcs.values() if F.d.startswith("natrium::%s::%s(" % (name, k))), L.where) for k in ("makeWeights", "makeDirections", "makeMomentBasis", "getIndexOfOppositeDirection")}
    L.wh = mk
    g = lambda k: getd(st, o[0], k)
    L.D, L.Q = int(num(g(0))), int(num(g(1)))
    L.cs2, L.cs, L.scal = g(2), g(3), g(4)
    L.nw, L.nd = int(num(g(6))), int(num(g(7)))
    L.W, L.O, L.E = [], [], []
    k = 8
    for i in range(L.Q):
        L.W.append(num(g(k), "weight"))
        L.O.append(num(g(k + 1), "opposite index"))
        L.E.append([coef(g(k + 2 + d), 1) for d in range(L.D)])
        k += 2 + L.D
    L.umax = g(k)
    return L


def gauss(idx, D, cs2):
    v = 1.0
    for c in range(D):
        n = idx.count(c)
        if n % 2:
            return 0.0
        for q in range(n - 1, 0, -2):
            v *= q * cs2
    return v


def lattices(C, names=None):
    m = module("lattice.cpp")
    for n in names or ORDER:
        yield n, table(C, m, n)


def l01(C):
    for name, L in lattices(C):
        order, tol = ORDER[name]
        cs2 = coef(L.cs2, 2)
        C.ob("speed of sound scales with the lattice", name + " cs2", cs2 is not None and cs2 > 0, L.where, "c_s^2 = %s" % A.show(L.cs2))
        c1 = coef(L.cs, 1)
        C.ob("speed of sound scales with the lattice", name + " cs", cs2 is not None and c1 is not None and abs(c1 * c1 - cs2) < 1e-12, L.where, "c_s = %s, c_s^2 = %s" % (A.show(L.cs), A.show(L.cs2)))
        C.ob("scaling is reported", name, coef(L.scal, 1) == 1.0, L.where, A.show(L.scal))
        bad = [i for i in range(L.Q) if any(x is None for x in L.E[i])]
        C.ob("directions scale linearly", name, not bad, L.wh["makeDirections"], "directions %s are not proportional to the scaling" % bad[:5])
        if bad or cs2 is None:
            continue
        if L.Q > 100 and C.tier == "quick":
            order = min(order, 4)
        for n in range(order + 1):
            for idx in itertools.combinations_with_replacement(range(L.D), n):
                s = 0.0
                for w, e in zip(L.W, L.E):
                    p = w
                    for c in idx:
                        p *= e[c]
                    s += p
                ref = gauss(idx, L.D, cs2)
                C.ob("moment of order %d" % n, "%s moment %s" % (name, "".join("xyz"[c] for c in idx) or "1"), abs(s - ref) <= tol, L.wh["makeWeights"],
                     "sum_i w_i e_i.. = %.15g, must be %.15g" % (s, ref))
    for n, k in ((0, 14), (1, 14 * 2), (2, 14 * 3), (4, 14 * 5)):
        C.floor("moment of order %d" % n, k)


def l02(C):
    for name, L in lattices(C):
        C.ob("dimensions", name, (L.D, L.Q) == DQ[name] and L.nw == L.Q and L.nd == L.Q, L.where, "D=%d Q=%d weights=%d directions=%d" % (L.D, L.Q, L.nw, L.nd))
        C.ob("rest direction first", name, all(x == 0 for x in L.E[0]), L.wh["makeDirections"], "e_0 = %s" % L.E[0])
        seen = {}
        for i in range(L.Q):
            o = L.O[i]
            key = "%s[%d]" % (name, i)
            C.ob("weight positive", key, L.W[i] > 0, L.wh["makeWeights"], "w = %g" % L.W[i])
            if not C.ob("opposite index in range", key, o == int(o) and 0 <= o < L.Q, L.wh["getIndexOfOppositeDirection"], "opposite(%d) = %s" % (i, o)):
                continue
            o = int(o)
            C.ob("opposite is an involution", key, L.O[o] == i, L.wh["getIndexOfOppositeDirection"], "opposite(%d)=%d but opposite(%d)=%g" % (i, o, o, L.O[o]))
            if any(x is None for x in L.E[i] + L.E[o]):
                raise Broken("direction of %s not proportional to the scaling" % name)
            C.ob("opposite direction is negated", key, all(abs(a + b) < 1e-12 for a, b in zip(L.E[i], L.E[o])), L.wh["getIndexOfOppositeDirection"], "e=%s, e_opp=%s" % (L.E[i], L.E[o]))
            C.ob("opposite weight is equal", key, abs(L.W[i] - L.W[o]) <= 1e-13 * abs(L.W[i]) + 1e-18, L.wh["makeWeights"], "w=%.17g, w_opp=%.17g" % (L.W[i], L.W[o]))
            k = tuple(round(x, 10) for x in L.E[i])
            C.ob("directions distinct", key, k not in seen, L.wh["makeDirections"], "same as direction %s" % seen.get(k))
            seen[k] = i
    C.floor("opposite direction is negated", 1000)


def l03(C):
    for name, L in lattices(C, [n for n in ORDER if DQ[n][1] <= 27]):
        Q = L.Q
        M = [[getd(L.st, L.o[1], i * Q + j) for j in range(Q)] for i in range(Q)]
        N = [[getd(L.st, L.o[2], i * Q + j) for j in range(Q)] for i in range(Q)]
        # at unit scaling the basis must be invertible
        sid = {a.id: 1.0 for a in A.AT.atoms if a.kind == "sym" and a.name == "s"}
        M1 = [[float(A.subst(x, sid)) for x in r] for r in M]
        try:
            models.matinv(M1)
            inv = True
        except absint.AnalysisError:
            inv = False
        C.ob("basis invertible", name, inv, L.wh["makeMomentBasis"], "the moment basis is singular")
        C.ob("basis is square and complete", name, all(any(x != 0 for x in r) for r in M1), L.wh["makeMomentBasis"], "zero row in the moment basis")
        # the inverse handed out is the inverse of the basis handed out
        ok = True
        for i in range(Q):
            for j in range(Q):
                x = N[i][j]
                if isinstance(x, A.Poly) and len(x.t) == 1:
                    (mm, c), = x.t.items()
                    at = A.AT.atoms[mm[0][0]]
                    if c == 1.0 and len(mm) == 1 and mm[0][1] == 1 and at.kind == "fn" and at.args[0] == "matinv":
                        ok = ok and at.args[2] == i and at.args[3] == j and models.MATINV[at.args[1]] == [[A.skey(v) for v in r] for r in M]
                        continue
                if all(A.isnum(v) for r in M for v in r):
                    continue
                ok = False
        if all(A.isnum(v) for r in M for v in r):
            P = [[sum(M[i][k] * N[k][j] for k in range(Q)) for j in range(Q)] for i in range(Q)]
            ok = all(abs(P[i][j] - (1.0 if i == j else 0.0)) < 1e-10 for i in range(Q) for j in range(Q))
        C.ob("inverse basis is the inverse", name, ok, L.wh["makeMomentBasis"], "the inverse moment basis is not the inverse of the moment basis")
    C.floor("inverse basis is the inverse", 10)


RUN = {"L01": l01, "L02": l02, "L03": l03}
