"""Collision step, analysed end to end through selectCollision for every velocity set and configuration."""
from common import *
import models_la as LA

DQ = {"D2Q9": (2, 9), "D2Q19H": (2, 19), "D2Q19V": (2, 19), "D2Q25H": (2, 25), "D3Q13": (3, 13), "D3Q15": (3, 15), "D3Q19": (3, 19),
      "D3Q21": (3, 21), "D3Q27": (3, 27), "D3Q45": (3, 45), "D3Q77": (3, 77), "D3V27": (3, 27), "RD3Q27": (3, 27)}
SCHEMES = ["BGK_STANDARD", "BGK_STANDARD_TRANSFORMED", "BGK_STEADY_STATE", "BGK_MULTIPHASE", "BGK_INCOMPRESSIBLE", "MRT_STANDARD", "MRT_ENTROPIC", "ENTROPIC_STABILIZED",
           "KBC_STANDARD", "KBC_CENTRAL", "BGK_MULTI_AM4", "BGK_MULTI_BDF2", "BGK_REGULARIZED"]
EQS = ["BGK_EQUILIBRIUM", "QUARTIC_EQUILIBRIUM", "INCOMPRESSIBLE_EQUILIBRIUM", "STEADYSTATE_EQUILIBRIUM", "ENTROPIC_EQUILIBRIUM"]
S, NU, DT = "s", "nu", "dt"


def mod():
    return module("collision.cpp", extra_stop=LA.LA_RE)


def enum(m, name, _c={}):
    k = (id(m), name)
    if k not in _c:
        I = interp(m)
        _c[k] = I.call(absint.State(), "probe_enum_" + name, [])[1]
    return _c[k]


class Run:
    pass


def collide(m, st_name, scheme, eq, forcing="NO_FORCING", mrt=None, thermal=False, force=False, init=False, prandtl=0, suth=0, nodes=1, Fval=None):
    """one collision step of one configuration; None when the configuration is rejected (an exception on every path)"""
    D, Q = DQ[st_name]
    I = interp(m, LA.LA)
    I.nodes = nodes
    I.cfg = {"getStencil": enum(m, "Stencil_" + st_name), "getCollisionScheme": enum(m, scheme), "getEquilibriumScheme": enum(m, eq), "getForcingScheme": enum(m, forcing),
             "isPrandtlNumberSet": prandtl, "isSutherlandLawSet": suth, "getMRTBasis": enum(m, (mrt or ("DELLAR_D2Q9", ""))[0]),
             "getMRTRelaxationTimes": enum(m, (mrt or ("", "RELAX_FULL"))[1])}
    st = absint.State()
    cfg = I.new_region(st, "cfg", 4096)
    dofs = I.new_region(st, "dofs", 4096)
    Fr = I.input_region(st, "F", 24)
    if Fval is not None:
        Fr = I.new_region(st, "Fc", 24)
        for d in range(3):
            I.store(st, absint.Ptr(Fr, 8 * d), Fval[d], "d")
    st, _ = I.call(st, "probe_col_" + st_name, [absint.Ptr(cfg, 0), absint.Ptr(dofs, 0), A.sym(S), A.sym(NU), A.sym(DT), absint.Ptr(Fr, 0), int(force), int(init), int(thermal)])
    if st is None:
        return None
    R = Run()
    R.I, R.st, R.D, R.Q, R.n = I, st, D, Q, nodes
    R.f = [LA.named_vals(I, st, "f", i) for i in range(Q)]
    R.rho = LA.named_vals(I, st, "rho", 0)
    R.u = [LA.named_vals(I, st, "u", d) for d in range(D)]
    if thermal:
        R.g = [LA.named_vals(I, st, "g", i) for i in range(Q)]
        R.T = LA.named_vals(I, st, "T", 0)
        R.mask = LA.named_vals(I, st, "mask", 0)
    return R


# ---------------------------------------------------------------------------------------
import itertools
import lattice as LT

# combinations that the dispatch is known to accept (confirmed by reading it); S01 checks that this is all of them
INCOMP = [("D2Q9", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D2Q9", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D2Q9", "BGK_REGULARIZED", "BGK_EQUILIBRIUM"),
          ("D2Q25H", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D2Q19H", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D2Q19V", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"),
          ("D3Q13", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D3Q15", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D3Q15", "BGK_REGULARIZED", "BGK_EQUILIBRIUM"),
          ("D3Q19", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D3Q19", "BGK_REGULARIZED", "BGK_EQUILIBRIUM"), ("D3Q21", "BGK_STANDARD", "BGK_EQUILIBRIUM"),
          ("D3Q27", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D3Q27", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D3Q27", "BGK_REGULARIZED", "BGK_EQUILIBRIUM"),
          ("D3Q45", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D3Q45", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D3Q77", "BGK_STANDARD", "BGK_EQUILIBRIUM"),
          ("D3Q77", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D3V27", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D3V27", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM")]
MRTS = [("D2Q9", ("DELLAR_D2Q9", "RELAX_FULL")), ("D2Q9", ("DELLAR_D2Q9", "DELLAR_RELAX_ONLY_N")), ("D2Q9", ("LALLEMAND_D2Q9", "RELAX_FULL")),
        ("D3Q19", ("DHUMIERES_D3Q19", "RELAX_FULL")), ("D3Q19", ("DHUMIERES_D3Q19", "RELAX_DHUMIERES_PAPER"))]
COMP = [("D2Q25H", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D2Q25H", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D2Q25H", "BGK_REGULARIZED", "BGK_EQUILIBRIUM"),
        ("D2Q19H", "BGK_STANDARD", "BGK_EQUILIBRIUM"), ("D2Q19H", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D2Q19V", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"),
        ("D3Q45", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM"), ("D3Q77", "BGK_STANDARD", "QUARTIC_EQUILIBRIUM")]
# moments beyond mass, momentum and pressure that the sets support: |order of moment| + |order of the Hermite series| <= order of the set
LORDER = {n: LT.ORDER[n][0] for n in DQ}
RANGES = {"f": (0.5, 1.5), "g": (0.5, 1.5), "u": (-0.2, 0.2), "F": (-1.0, 1.0), "eps": (0.05, 0.2), "cfg.getHeatCapacityRatioGamma": (1.2, 1.6), "cfg.getPrandtlNumber": (0.5, 0.9)}


def items(thermal=False):
    if thermal:
        return [dict(sn=a, sc=b, eq=c, thermal=True) for a, b, c in COMP]
    return [dict(sn=a, sc=b, eq=c) for a, b, c in INCOMP] + [dict(sn=a, sc="MRT_STANDARD", eq="BGK_EQUILIBRIUM", mrt=b) for a, b in MRTS]


def label(it):
    return " ".join([it["sn"], it["sc"], it["eq"]] + ([it["mrt"][0], it["mrt"][1]] if it.get("mrt") else []) + (["compressible"] if it.get("thermal") else []) +
                    [k for k in ("forcing",) if it.get(k) for k in [it[k]]] + (["Pr"] if it.get("prandtl") else []) + (["Sutherland"] if it.get("suth") else []))


def prep(C, it, **kw):
    """lattice + collision run of a configuration; None if it is rejected"""
    L = LT.table(C, module("lattice.cpp"), it["sn"])
    d = dict(it)
    d.update(kw)
    R = collide(mod(), d["sn"], d["sc"], d["eq"], forcing=d.get("forcing", "NO_FORCING"), mrt=d.get("mrt"), thermal=d.get("thermal", False), force=d.get("force", False),
                init=d.get("init", False), prandtl=d.get("prandtl", 0), suth=d.get("suth", 0), nodes=d.get("nodes", 1), Fval=d.get("Fval"))
    if R is None:
        return None
    C.use(R.I)
    if R.I.approx:
        raise Broken("a loop of the collision step has unknown length: %s" % (R.I.approx[0],))
    R.E, R.W = L.E, L.W
    R.cs2 = coef(L.cs2, 2)
    if R.cs2 is None or any(x is None for e in L.E for x in e):
        raise Broken("lattice does not scale")
    R.s, R.nu, R.dt = A.sym(S), A.sym(NU), A.sym(DT)
    R.tau = A.add(A.div(R.nu, A.mul(A.mul(A.mul(R.cs2, R.s), R.s), R.dt)), 0.5)
    R.fin = [A.sym("f%d[0]" % i) for i in range(R.Q)]
    R.gin = [A.sym("g%d[0]" % i) for i in range(R.Q)]
    R.r0 = ssum(R.fin)
    R.j0 = [ssum(A.mul(f, e[d]) for f, e in zip(R.fin, R.E)) for d in range(R.D)]
    R.u0 = [A.div(j, R.r0) for j in R.j0]
    R.where = next((src(R.I.m.funcs[n]) for n in sorted(R.I.visited) if "::relax" in R.I.m.funcs[n].d), it["sn"])
    R.wcol = next((src(R.I.m.funcs[n]) for n in sorted(R.I.visited) if "collideAll" in R.I.m.funcs[n].d), it["sn"])
    R.weq = next((src(R.I.m.funcs[n]) for n in sorted(R.I.visited) if "Equilibrium" in R.I.m.funcs[n].d and "::calc(" in R.I.m.funcs[n].d), R.where)
    R.df = [A.sub(x[0], y) for x, y in zip(R.f, R.fin)]
    return R


def ssum(xs):
    s = 0.0
    for x in xs:
        s = A.add(s, x)
    return s


def zero(x):
    return A.vanishes(x, ranges=RANGES)


def temp0(R):
    """temperature of the node, by definition of total energy"""
    gam = R.I.cfg.get("getHeatCapacityRatioGamma") or A.sym("cfg.getHeatCapacityRatioGamma")
    cv2 = A.div(2.0, A.sub(gam, 1.0))
    k = ssum(A.mul(f, sum(x * x for x in e) / R.cs2) for f, e in zip(R.fin, R.E))
    uu = ssum(A.mul(u, j) for u, j in zip(R.u0, R.j0))
    return A.div(A.sub(A.add(k, ssum(R.gin)), A.scale(uu, 1 / R.cs2)), A.mul(R.r0, cv2)), cv2


def perturb(R, n, outs=None):
    """response of the outputs to f_i -> f_i + eps n_i"""
    eps = A.sym("eps")
    mp = {}
    for i, x in enumerate(n):
        if x:
            (mm, c), = R.fin[i].t.items()
            mp[mm[0][0]] = A.add(R.fin[i], A.scale(eps, x))
    return [A.sub(A.subst(x[0], mp), x[0]) for x in (outs or R.f)]


def shears(R):
    for a in range(R.D):
        for b in range(a + 1, R.D):
            yield "%s%s" % ("xyz"[a], "xyz"[b]), [w * e[a] * e[b] for w, e in zip(R.W, R.E)], [e[a] * e[b] for e in R.E]
            yield "%s%s-%s%s" % ("xyz"[a], "xyz"[a], "xyz"[b], "xyz"[b]), [w * (e[a] ** 2 - e[b] ** 2) for w, e in zip(R.W, R.E)], [e[a] ** 2 - e[b] ** 2 for e in R.E]


def must(C, it, **kw):
    R = prep(C, it, **kw)
    if R is None:
        C.ob("configuration is supported", label(it), False, "collision selection", "every path of the collision step raises an exception for this configuration")
    else:
        C.ob("configuration is supported", label(it), True, R.wcol)
    return R


def at_points(fn, n=8, tol=1e-9):
    """identity testing of extracted terms: fn(seed) -> (value, magnitude) vanishes at n pseudo-random points"""
    for seed in range(1, n + 1):
        v, g = fn(seed)
        if not abs(v) <= tol * max(1.0, g):
            return False
    A.STATS["points"] += 1
    return True


def nev(seed, assign=None):
    return A.NumEval(seed, assign, RANGES)


def response_is(R, n, q, keep, outs=None):
    """sum_i q_i * (response of output i to the perturbation n) == keep * eps * sum n q, for all inputs"""
    outs = outs or R.f
    nq = sum(x * y for x, y in zip(n, q))
    if not hasattr(R, "g") and R.Q <= 27:
        d = perturb(R, n, outs)
        lhs = ssum(A.mul(x, y) for x, y in zip(d, q))
        return zero(A.sub(lhs, A.mul(keep, A.scale(A.sym("eps"), nq))))

    def fn(seed):
        E = nev(seed)
        eps = E.symval("eps")
        E2 = nev(seed, {"f%d[0]" % i: E.symval("f%d[0]" % i) + eps * x for i, x in enumerate(n) if x})
        v, g = -E.ev(keep) * eps * nq, 0.0
        for x, y in zip(outs, q):
            if y:
                a, b = E2.ev(x[0]), E.ev(x[0])
                v += y * (a - b)
                g += abs(y * a)
        return v, g
    return at_points(fn)


# ---- C01 --------------------------------------------------------------------------------
def c01_item(C, it):
    R = must(C, it)
    if R is None:
        return
    C.ob("collision conserves mass", label(it), zero(ssum(R.df)), R.where, "sum of populations changes")
    for d in range(R.D):
        C.ob("collision conserves momentum", "%s %s" % (label(it), "xyz"[d]), zero(ssum(A.mul(x, e[d]) for x, e in zip(R.df, R.E))), R.where, "momentum changes")


def titems(full=True):
    for o in items(True):
        for p, s in ((0, 0), (1, 0), (0, 1), (1, 1)) if full else ((0, 0), (1, 1)):
            yield dict(o, prandtl=p, suth=s)


def c01(C):
    mod(), module("lattice.cpp")
    pmap(C, c01_item, items() + list(titems(C.tier != "quick")))
    C.floor("collision conserves mass", 30)


# ---- C02 --------------------------------------------------------------------------------
def hermite(R, order, theta):
    """Hermite series of the Maxwellian with density r0, velocity u0 and variance cs2*theta, truncated at `order`"""
    c = R.cs2
    t1 = A.scale(A.sub(theta, 1.0), c)
    u = R.u0
    out = []
    dl = lambda a, b: 1.0 if a == b else 0.0
    rng = range(R.D)
    a2 = {(a, b): A.add(A.mul(u[a], u[b]), A.scale(t1, dl(a, b))) for a in rng for b in rng}
    a3 = {}
    a4 = {}
    if order > 2:
        for a, b, d in itertools.combinations_with_replacement(rng, 3):
            a3[a, b, d] = ssum([A.mul(A.mul(u[a], u[b]), u[d])] + [A.mul(t1, A.scale(x, k)) for x, k in ((u[a], dl(b, d)), (u[b], dl(a, d)), (u[d], dl(a, b))) if k])
        for q in itertools.combinations_with_replacement(rng, 4):
            v = [A.mul(A.mul(u[q[0]], u[q[1]]), A.mul(u[q[2]], u[q[3]]))]
            for i, j in itertools.combinations(range(4), 2):
                k, l = [x for x in range(4) if x not in (i, j)]
                if q[i] == q[j]:
                    v.append(A.mul(t1, A.mul(u[q[k]], u[q[l]])))
            for (i, j), (k, l) in (((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))):
                if q[i] == q[j] and q[k] == q[l]:
                    v.append(A.mul(t1, t1))
            a4[q] = ssum(v)
    from math import factorial

    def mult(q):
        n = factorial(len(q))
        for x in set(q):
            n //= factorial(q.count(x))
        return n
    for w, e in zip(R.W, R.E):
        x = [1.0]
        x.append(A.scale(ssum(A.scale(u[d], e[d]) for d in rng), 1 / c))
        x.append(A.scale(ssum(A.scale(a2[a, b], e[a] * e[b] - c * dl(a, b)) for a in rng for b in rng), 0.5 / c ** 2))
        if order > 2:
            x.append(A.scale(ssum(A.scale(v, mult(q) * (e[q[0]] * e[q[1]] * e[q[2]] - c * (e[q[0]] * dl(q[1], q[2]) + e[q[1]] * dl(q[0], q[2]) + e[q[2]] * dl(q[0], q[1])))) for q, v in a3.items()), 1 / (6 * c ** 3)))

            def h4(q):
                z = e[q[0]] * e[q[1]] * e[q[2]] * e[q[3]]
                for i, j in itertools.combinations(range(4), 2):
                    k, l = [y for y in range(4) if y not in (i, j)]
                    z -= c * dl(q[i], q[j]) * e[q[k]] * e[q[l]]
                for (i, j), (k, l) in (((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))):
                    z += c * c * dl(q[i], q[j]) * dl(q[k], q[l])
                return z
            x.append(A.scale(ssum(A.scale(v, mult(q) * h4(q)) for q, v in a4.items()), 1 / (24 * c ** 4)))
        out.append(A.scale(A.mul(ssum(x), R.r0), w))
    return out


def same_at_points(xs, ys, n=6):
    """first index where two lists of terms differ at some pseudo-random point"""
    for seed in range(1, n + 1):
        E = nev(seed)
        for i, (x, y) in enumerate(zip(xs, ys)):
            a, g = E.ev2(x)
            b = E.ev(y)
            if not abs(a - b) <= 1e-9 * max(1.0, abs(g)):
                return i
    A.STATS["points"] += 1
    return None


def tau_eff(R, it):
    if not it.get("thermal"):
        return R.tau
    T, _ = temp0(R)
    return A.add(A.div(A.sub(R.tau, 0.5), A.mul(T, R.r0)), 0.5)


def s01_item(C, it):
    R = must(C, it)
    if R is None:
        return
    th = it.get("thermal")
    # the isothermal second-order series keeps theta = 1; the fourth-order one uses the temperature of the node
    theta = temp0(R)[0] if th and it["eq"] == "QUARTIC_EQUILIBRIUM" else 1.0
    feq = hermite(R, 4 if it["eq"] == "QUARTIC_EQUILIBRIUM" else 2, theta)
    tau = tau_eff(R, it)
    om = A.inv(tau)
    if it["sc"] == "BGK_STANDARD":
        want = [A.sub(f, A.mul(om, A.sub(f, q))) for f, q in zip(R.fin, feq)]
    elif it["sc"] == "BGK_REGULARIZED":
        neq = [A.sub(f, q) for f, q in zip(R.fin, feq)]
        rng = range(R.D)
        pi = {(a, b): ssum(A.scale(x, e[a] * e[b]) for x, e in zip(neq, R.E)) for a in rng for b in rng}
        want = []
        for w, e, q in zip(R.W, R.E, feq):
            f1 = ssum(A.scale(pi[a, b], w / (2 * R.cs2 ** 2) * (e[a] * e[b] - (R.cs2 if a == b else 0.0))) for a in rng for b in rng)
            want.append(A.add(q, A.mul(A.sub(1.0, om), f1)))
    else:
        return
    bad = same_at_points([x[0] for x in R.f], want)
    C.ob("the configured scheme and equilibrium are performed", label(it), bad is None, R.where,
         "population %s after collision is not that of %s with %s" % (bad, it["sc"], it["eq"]))


def s01_reject(C, a):
    sn, th = a
    acc = []
    for sc in SCHEMES:
        for eq in EQS:
            key = (sn, sc, eq)
            mrts = [m for n, m in MRTS if n == sn] if sc == "MRT_STANDARD" and not th else [None]
            for m in mrts or [None]:
                R = collide(mod(), sn, sc, eq, mrt=m, thermal=th)
                known = key in (COMP if th else INCOMP) or (m is not None and eq == "BGK_EQUILIBRIUM")
                lb = "%s %s %s%s%s" % (sn, sc, eq, " " + "/".join(m) if m else "", " compressible" if th else "")
                if known:
                    C.ob("offered combinations are accepted", lb, R is not None, "collision selection", "raises an exception")
                elif R is not None:
                    C.use(R.I)
                    # accepted, though not among the combinations known: it must still be the named collision
                    C.extra["accepted_beyond_the_known"] = C.extra.get("accepted_beyond_the_known", []) + [lb]
                    changed = any(not (A.skey(x[0]) == A.skey(A.sym("f%d[0]" % i))) for i, x in enumerate(R.f))
                    C.ob("an unsupported combination is refused", lb, changed, "collision selection", "returns normally without having collided")
                    if changed and sc in ("BGK_STANDARD", "BGK_REGULARIZED") and eq in ("BGK_EQUILIBRIUM", "QUARTIC_EQUILIBRIUM"):
                        s01_item(C, dict(sn=sn, sc=sc, eq=eq, thermal=th))
                else:
                    C.ob("an unsupported combination is refused", lb, True)


def s01(C):
    mod(), module("lattice.cpp")
    pmap(C, s01_item, [i for i in items() if not i.get("mrt")] + items(True))
    sel = list(DQ) if C.tier != "quick" else ["D2Q9", "D2Q19H", "D2Q25H", "D3Q15", "D3Q19", "D3Q27", "D3V27", "RD3Q27", "D3Q45"]
    pmap(C, s01_reject, [(n, th) for n in sel for th in (False, True)])
    C.floor("the configured scheme and equilibrium are performed", 29)
    C.floor("an unsupported combination is refused", 500)


# ---- C03 viscosity ------------------------------------------------------------------------
def c03_item(C, it):
    R = must(C, it)
    if R is None:
        return
    keep = A.sub(1.0, A.inv(tau_eff(R, it)))
    for nm, n, q in shears(R):
        if all(abs(x) < 1e-14 for x in n):
            raise Broken("no shear perturbation")
        C.ob("shear stress relaxes with nu/(cs^2 dt)+1/2", "%s %s" % (label(it), nm), response_is(R, n, q, keep), R.where, "the viscosity of the collision is not the configured one")


def c03(C):
    mod(), module("lattice.cpp")
    pmap(C, c03_item, items() + [dict(o, prandtl=p) for o in items(True) for p in (0, 1)])
    C.floor("shear stress relaxes with nu/(cs^2 dt)+1/2", 150)


# ---- E01 moments of the equilibrium -----------------------------------------------------------
def e01_item(C, it):
    R = must(C, it)
    if R is None:
        return
    tau = tau_eff(R, it)
    # BGK: out = f - (f - feq)/tau, hence feq = f + tau (out - f); that out has this form is decided by S01/C02
    feq = [A.add(f, A.mul(tau, d)) for f, d in zip(R.fin, R.df)]
    rng = range(R.D)
    theta = temp0(R)[0] if it.get("thermal") and it["eq"] == "QUARTIC_EQUILIBRIUM" else 1.0
    C.ob("density of the equilibrium", label(it), zero(A.sub(ssum(feq), R.r0)), R.weq, "the equilibrium populations do not sum to the density")
    for d in rng:
        C.ob("momentum of the equilibrium", "%s %s" % (label(it), "xyz"[d]), zero(A.sub(ssum(A.scale(q, e[d]) for q, e in zip(feq, R.E)), R.j0[d])), R.weq, "the equilibrium does not carry the momentum")
    # the fourth-order series aliases into the second moment on sets of order five
    for a in rng if it["eq"] != "QUARTIC_EQUILIBRIUM" or LORDER[it["sn"]] >= 6 else ():
        for b in range(a, R.D):
            w = A.mul(R.j0[a], R.u0[b])
            if a == b:
                w = A.add(w, A.scale(A.mul(theta, R.r0), R.cs2))
            C.ob("momentum flux of the equilibrium", "%s %s%s" % (label(it), "xyz"[a], "xyz"[b]), zero(A.sub(ssum(A.scale(q, e[a] * e[b]) for q, e in zip(feq, R.E)), w)), R.weq,
                 "second moment is not rho u u + p")
    if it["eq"] == "QUARTIC_EQUILIBRIUM" and LORDER[it["sn"]] >= 7:
        for a, b, d in itertools.combinations_with_replacement(rng, 3):
            w = A.mul(R.j0[a], A.mul(R.u0[b], R.u0[d]))
            for x, (p, q) in ((a, (b, d)), (b, (a, d)), (d, (a, b))):
                if p == q:
                    w = A.add(w, A.scale(A.mul(theta, R.j0[x]), R.cs2))
            C.ob("third moment of the equilibrium", "%s %s%s%s" % (label(it), "xyz"[a], "xyz"[b], "xyz"[d]),
                 zero(A.sub(ssum(A.scale(q, e[a] * e[b] * e[d]) for q, e in zip(feq, R.E)), w)), R.weq, "third moment is not that of a Maxwellian")
    if it.get("thermal"):
        gam = R.I.cfg.get("getHeatCapacityRatioGamma") or A.sym("cfg.getHeatCapacityRatioGamma")
        geq = [A.add(g, A.mul(tau, A.sub(x[0], g))) for x, g in zip(R.g, R.gin)]
        k = A.sub(A.div(2.0, A.sub(gam, 1.0)), float(R.D))
        T = temp0(R)[0]
        if not it.get("prandtl"):
            C.ob("internal energy of the equilibrium", label(it), zero(A.sub(ssum(geq), A.mul(k, A.mul(T, R.r0)))), R.where, "g equilibrium does not hold the energy of the other degrees of freedom")
            for d in rng:
                C.ob("internal energy flux of the equilibrium", "%s %s" % (label(it), "xyz"[d]),
                     zero(A.sub(ssum(A.scale(q, e[d]) for q, e in zip(geq, R.E)), A.mul(k, A.mul(T, R.j0[d])))), R.where, "g equilibrium does not advect with u")


def e01(C):
    mod(), module("lattice.cpp")
    pmap(C, e01_item, [i for i in items() + items(True) if i["sc"] == "BGK_STANDARD"])
    C.floor("density of the equilibrium", 24)
    C.floor("momentum flux of the equilibrium", 100)


# ---- C02 fixed point -----------------------------------------------------------------------------
def equilibrium_point(R, it, seed):
    """a random state assignment in which the populations are the equilibrium of random density, velocity, temperature"""
    import random
    import itertools as itr
    rg = random.Random(seed)
    rho = rg.uniform(0.6, 1.4)
    u = [rg.uniform(-0.15, 0.15) for _ in range(R.D)]
    th = rg.uniform(0.8, 1.3) if it.get("thermal") and it["eq"] == "QUARTIC_EQUILIBRIUM" else 1.0

    class P:
        pass
    P.D, P.E, P.W, P.cs2, P.r0, P.u0 = R.D, R.E, R.W, R.cs2, rho, u
    f = hermite(P, 4 if it["eq"] == "QUARTIC_EQUILIBRIUM" else 2, th)
    a = {"f%d[0]" % i: float(x) for i, x in enumerate(f)}
    E = nev(seed)
    if it.get("thermal"):
        gam = E.symval("cfg.getHeatCapacityRatioGamma")
        for i, x in enumerate(f):
            a["g%d[0]" % i] = float(x) * th * (2 / (gam - 1) - R.D)
    return nev(seed, a), a


def c02_item(C, it):
    R = must(C, it)
    if R is None:
        return
    bad = set()
    for seed in range(1, 9):
        E, a = equilibrium_point(R, it, seed)
        for nm, o in (("f", R.f), ("g", getattr(R, "g", []))):
            for i, x in enumerate(o):
                v, g = E.ev2(x[0])
                if not abs(v - a["%s%d[0]" % (nm, i)]) <= 1e-9 * max(1.0, abs(g)):
                    bad.add("%s%d" % (nm, i))
    C.ob("equilibrium is a fixed point of collision", label(it), not bad, R.where, "populations %s of an equilibrium node change" % sorted(bad)[:8])
    if it["sc"] != "BGK_STANDARD" or it.get("prandtl") or it.get("suth"):
        return
    # perturbations without density, momentum and energy decay by the factor 1-1/tau, in every population
    N = nullspace([[1.0] * R.Q] + [[e[d] for e in R.E] for d in range(R.D)] + [[sum(x * x for x in e) for e in R.E]])
    for k in range(0, len(N), max(1, len(N) // 3)):
        n = N[k]

        def fn(seed):
            E = nev(seed)
            eps = E.symval("eps")
            E2 = nev(seed, {"f%d[0]" % i: E.symval("f%d[0]" % i) + eps * x for i, x in enumerate(n)})
            keep = E.ev(A.sub(1.0, A.inv(tau_eff(R, it))))
            w, g = 0.0, 1.0
            for i, x in enumerate(R.f):
                w = max(w, abs(E2.ev(x[0]) - E.ev(x[0]) - keep * eps * n[i]))
            return w, g
        C.ob("non-equilibrium decays by 1-1/tau", "%s %d" % (label(it), k), at_points(fn, 4), R.where, "a population does not relax with 1/tau")


def c02(C):
    mod(), module("lattice.cpp")
    pmap(C, c02_item, items() + list(titems(True)))
    C.floor("equilibrium is a fixed point of collision", 30)


# ---- C04 force ------------------------------------------------------------------------------------
def c04_item(C, it):
    if it["forcing"] in ("NO_FORCING", "GUO"):
        R = prep(C, it, force=True, Fval=[0.5, 0.25, 0.125])
        C.ob("a force scheme that is not available is refused", label(it), R is None, "collision selection", "the external force is silently dropped")
        return
    R = must(C, dict(it, force=True))
    if R is None:
        return
    C.ob("a force adds no mass", label(it), zero(ssum(R.df)), R.where, "density changes")
    for d in range(R.D):
        Fd = A.sym("F[%d]" % d)
        dj = ssum(A.scale(x, e[d]) for x, e in zip(R.df, R.E))
        C.ob("a force adds force times dt of momentum", "%s %s" % (label(it), "xyz"[d]), zero(A.sub(A.mul(dj, R.s), A.mul(Fd, R.dt))), R.where,
             "the momentum of a node does not change by F dt")
        C.ob("the reported velocity includes half the force", "%s %s" % (label(it), "xyz"[d]),
             zero(A.sub(A.mul(R.u[d][0], R.r0), A.add(A.mul(R.j0[d], R.s), A.scale(A.mul(Fd, R.dt), 0.5)))), R.wcol, "velocity is not (momentum + F dt/2)/rho")
    C.ob("the reported density is that of the populations", label(it), zero(A.sub(R.rho[0], R.r0)), R.wcol, "density")


def c04(C):
    mod(), module("lattice.cpp")
    its = [dict(i, forcing=f) for i in items() for f in ("SHIFTING_VELOCITY", "EXACT_DIFFERENCE")]
    its += [dict(i, forcing=f) for i in items() if i["sn"] in ("D2Q9", "D3Q19") for f in ("NO_FORCING", "GUO")]
    pmap(C, c04_item, its)
    C.floor("a force adds force times dt of momentum", 100)


# ---- C05 MRT ----------------------------------------------------------------------------------------
def c05_item(C, it):
    R = must(C, it)
    if R is None:
        return
    lb = label(it)
    C.ob("relaxation leaves the density alone", lb, zero(ssum(R.df)), R.where, "mass moment relaxes")
    for d in range(R.D):
        C.ob("relaxation leaves the momentum alone", "%s %s" % (lb, "xyz"[d]), zero(ssum(A.scale(x, e[d]) for x, e in zip(R.df, R.E))), R.where, "momentum moment relaxes")
    keep = A.sub(1.0, A.inv(R.tau))
    for nm, n, q in shears(R):
        C.ob("shear moments relax with the viscous rate", "%s %s" % (lb, nm), response_is(R, n, q, keep), R.where, "viscosity of the MRT collision is not the configured one")
    # linearity: a perturbation that leaves density and momentum unchanged decays independently of the state; its decay matrix is
    # diagonal in the chosen basis, symmetric under the lattice and its eigenvalues are those of the chosen set of relaxation times
    N = nullspace([[1.0] * R.Q] + [[e[d] for e in R.E] for d in range(R.D)])
    n = len(N)
    rates = RATES[it["mrt"]]
    first = None
    for seed in (1, 2, 3):
        fix = {S: 1.0 + 0.0, NU: 0.03, DT: 0.05}
        E = nev(seed, fix)
        tau = E.ev(R.tau)
        base = [E.ev(x[0]) for x in R.f]
        J = []
        for v in N:
            E2 = nev(seed, dict(fix, **{"f%d[0]" % i: E.symval("f%d[0]" % i) + x for i, x in enumerate(v)}))
            J.append([E2.ev(x[0]) - b for x, b in zip(R.f, base)])
        if first is None:
            first = J
        C.ob("relaxation rates do not depend on the state", "%s %d" % (lb, seed), max(abs(x - y) for p, q in zip(J, first) for x, y in zip(p, q)) < 1e-9, R.where, "decay depends on the state")
    # in the basis N the decay matrix A satisfies J = A N; its power sums tr A^k determine the rates
    piv = [next(i for i, x in enumerate(v) if x == 1.0 and all(w[i] == 0.0 for w in N if w is not v)) for v in N]
    M = [[row[p] for p in piv] for row in first]
    want = [1 - 1 / tau] * rates[0] + [1 - x for x in rates[1]]
    ok = len(want) == n
    P = M
    for k in range(1, n + 1):
        ok = ok and abs(sum(P[i][i] for i in range(n)) - sum(x ** k for x in want)) < 1e-7
        P = [[sum(P[i][l] * M[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
    C.ob("the chosen set of relaxation times is used", lb, ok, R.where, "the decay rates of the moments are not the documented ones: %d with 1/tau, the others %s" % (rates[0], sorted(rates[1])))
    if it["mrt"][1] == "DELLAR_RELAX_ONLY_N":
        g = [1.0 - 3.0 * sum(c * c for c in e) + 9.0 * e[0] ** 2 * e[1] ** 2 for e in R.E]
        for nm, q, k in [("N", g, 0.0)] + [("J" + "xy"[d], [a * e[d] for a, e in zip(g, R.E)], keep) for d in (0, 1)]:
            C.ob("only the moment N is relaxed fully", "%s %s" % (lb, nm), response_is(R, [w * x for w, x in zip(R.W, q)], q, k), R.where, "moment %s does not relax with %s" % (nm, "rate one" if nm == "N" else "1/tau"))


def nullspace(B):
    """basis of the null space in reduced form (each free column has its own unit entry)"""
    B = [list(map(float, r)) for r in B]
    n = len(B[0])
    piv = []
    r = 0
    for c in range(n):
        k = max(range(r, len(B)), key=lambda i: abs(B[i][c]), default=None)
        if k is None or abs(B[k][c]) < 1e-10:
            continue
        B[r], B[k] = B[k], B[r]
        B[r] = [x / B[r][c] for x in B[r]]
        for i in range(len(B)):
            if i != r and B[i][c]:
                q = B[i][c]
                B[i] = [x - q * y for x, y in zip(B[i], B[r])]
        piv.append(c)
        r += 1
        if r == len(B):
            break
    out = []
    for c in range(n):
        if c not in piv:
            v = [0.0] * n
            v[c] = 1.0
            for i, p in enumerate(piv):
                v[p] = -B[i][c]
            out.append(v)
    return out


# documented relaxation rates of the non-conserved moments: number at 1/tau, rates of the others
RATES = {("DELLAR_D2Q9", "RELAX_FULL"): (3, [1.0] * 3), ("DELLAR_D2Q9", "DELLAR_RELAX_ONLY_N"): (5, [1.0]), ("LALLEMAND_D2Q9", "RELAX_FULL"): (3, [1.0] * 3),
         ("DHUMIERES_D3Q19", "RELAX_FULL"): (6, [1.0] * 9), ("DHUMIERES_D3Q19", "RELAX_DHUMIERES_PAPER"): (5, [1.19, 1.4, 1.2, 1.2, 1.2, 1.4, 1.4, 1.98, 1.98, 1.98])}


def c05(C):
    mod(), module("lattice.cpp")
    pmap(C, c05_item, [i for i in items() if i.get("mrt")])
    C.floor("shear moments relax with the viscous rate", 15)


# ---- C06 energy -------------------------------------------------------------------------------------
def c06_item(C, it):
    R = must(C, it)
    if R is None:
        return
    dg = [A.sub(x[0], y) for x, y in zip(R.g, R.gin)]
    k = ssum(A.scale(x, sum(c * c for c in e) / R.cs2) for x, e in zip(R.df, R.E))
    C.ob("collision conserves total energy", label(it), zero(A.add(k, ssum(dg))), R.where, "sum of e^2 f/cs^2 + g changes")
    C.ob("the reported temperature is that of the populations", label(it), zero(A.sub(R.T[0], temp0(R)[0])), R.wcol, "temperature")


def c06(C):
    mod(), module("lattice.cpp")
    pmap(C, c06_item, list(titems(True)))
    C.floor("collision conserves total energy", 28)


# ---- C07 locality -------------------------------------------------------------------------------------
def c07_item(C, it):
    R = must(C, dict(it, nodes=2))
    if R is None:
        return
    lb = label(it) + (" initialisation" if it.get("init") else "")
    outs = [("f%d" % i, x) for i, x in enumerate(R.f)] + [("g%d" % i, x) for i, x in enumerate(getattr(R, "g", []))]
    outs += [("rho", R.rho)] + [("u%d" % d, R.u[d]) for d in range(R.D)] + ([("T", R.T), ("mask", R.mask)] if it.get("thermal") else [])
    cross, diff, same = [], [], []
    ren = {}
    for nm, v in outs:
        for k in (0, 1):
            for s in A.symbols(v[k]):
                if s.endswith("[%d]" % (1 - k)) and not s.startswith("F"):
                    cross.append((nm, k, s))
    import random
    E = nev(5)
    asg = {}
    for pre, n in [("f", R.Q), ("g", R.Q if it.get("thermal") else 0), ("u", R.D)]:
        for i in range(n):
            asg["%s%d[1]" % (pre, i)] = E.symval("%s%d[0]" % (pre, i))
    for pre in ("rho0", "T0"):
        asg[pre + "[1]"] = E.symval(pre + "[0]")
    E1 = nev(5, asg)
    for nm, v in outs:
        if abs(E1.ev(v[0]) - E1.ev(v[1])) > 1e-9 * max(1, abs(E1.ev(v[0]))):
            diff.append(nm)
        if nm[0] in "fg" and A.skey(v[0]) == A.skey(A.sym("%s[0]" % nm)):
            same.append(nm)
    C.ob("a node's result depends on its own state only", lb, not cross, R.wcol, "%s of node %s depends on %s" % (cross[0] if cross else ("", "", "")))
    C.ob("every node is collided alike", lb, not diff, R.wcol, "%s differ between two nodes in the same state" % diff[:6])
    C.ob("every population of the node is replaced", lb, not same, R.wcol, "%s keep their values" % same[:6])
    C.ob("the density field is that of the populations", lb, zero(A.sub(R.rho[0], R.r0)), R.wcol, "density field")
    for d in range(R.D):
        if it.get("init"):
            C.ob("initialisation keeps the given velocity field", "%s %s" % (lb, "xyz"[d]), A.skey(R.u[d][0]) == A.skey(A.sym("u%d[0]" % d)), R.wcol, "velocity field is overwritten")
        else:
            C.ob("the velocity field is that of the populations", "%s %s" % (lb, "xyz"[d]), zero(A.sub(R.u[d][0], A.mul(R.u0[d], R.s))), R.wcol, "velocity field")
    if it.get("thermal") and not it.get("init"):
        C.ob("the temperature field is that of the populations", lb, zero(A.sub(R.T[0], temp0(R)[0])), R.wcol, "temperature field")
        tau = tau_eff(R, it)

        def fn(seed):
            # mean over the directions of |f - feq| / w; one collision without a Prandtl number removes (f - feq) / tau
            E = nev(seed)
            t = E.ev(tau)
            want = sum(abs(E.ev(d)) * t / w for d, w in zip(R.df, R.W)) / R.Q
            return E.ev(R.mask[0]) - want, abs(want)
        C.ob("the shock sensor is the distance of the node from its equilibrium", lb, at_points(fn), R.wcol, "shock sensor field")


def c07(C):
    mod(), module("lattice.cpp")
    its = items() + items(True)
    pmap(C, c07_item, its + [dict(i, init=True) for i in its])
    C.floor("every node is collided alike", 60)
    C.floor("the shock sensor is the distance of the node from its equilibrium", 6)


# ---- C09 symmetry ---------------------------------------------------------------------------------------
def symmetries(R):
    """permutations of the velocity set induced by axis swaps and reflections that map the set onto itself"""
    gens = []
    for d in range(R.D):
        gens.append(("reflection of " + "xyz"[d], [[(-1.0 if i == d else 1.0) if i == j else 0.0 for j in range(R.D)] for i in range(R.D)]))
    for a, b in itertools.combinations(range(R.D), 2):
        p = list(range(R.D))
        p[a], p[b] = b, a
        gens.append(("exchange of %s and %s" % ("xyz"[a], "xyz"[b]), [[1.0 if p[i] == j else 0.0 for j in range(R.D)] for i in range(R.D)]))
    for nm, M in gens:
        perm = []
        for e, w in zip(R.E, R.W):
            x = [sum(M[i][j] * e[j] for j in range(R.D)) for i in range(R.D)]
            k = [i for i, (q, v) in enumerate(zip(R.E, R.W)) if max(abs(a - b) for a, b in zip(q, x)) < 1e-9 and abs(v - w) < 1e-9]
            if len(k) != 1:
                break
            perm.append(k[0])
        else:
            yield nm, perm, M


def c09_item(C, it):
    R = must(C, it)
    if R is None:
        return
    n = 0
    for nm, perm, M in symmetries(R):
        bad = None
        for seed in (1, 2, 3):
            E = nev(seed)
            a = {}
            for i, j in enumerate(perm):
                a["f%d[0]" % j] = E.symval("f%d[0]" % i)
                if it.get("thermal"):
                    a["g%d[0]" % j] = E.symval("g%d[0]" % i)
            E2 = nev(seed, a)
            for i, j in enumerate(perm):
                for k, o in (("f", R.f), ("g", getattr(R, "g", None))):
                    if o is not None and abs(E.ev(o[i][0]) - E2.ev(o[j][0])) > 1e-9 * max(1.0, abs(E.ev(o[i][0]))):
                        bad = "%s%d" % (k, i)
        n += 1
        C.ob("collision commutes with the symmetries of the lattice", "%s %s" % (label(it), nm), bad is None, R.where, "population %s" % bad)
    C.ob("the velocity set has mirror symmetries", label(it), n >= 2, R.where, "only %d" % n)


def c09(C):
    mod(), module("lattice.cpp")
    pmap(C, c09_item, items() + list(titems(C.tier != "quick")))
    C.floor("collision commutes with the symmetries of the lattice", 100)


RUN = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C09": c09, "E01": e01, "S01": s01}
