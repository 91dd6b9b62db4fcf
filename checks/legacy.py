"""The collision models of directory collision/: initial distributions and the stand-alone collision kernels."""
from common import *
import collision as CO
import lattice as LT
import models_la as LA
from collision import DQ, ssum, zero

MODELS = ["BGKStandard", "BGKStandardTransformed", "BGKSteadyState", "BGKIncompressible", "MRTStandard", "MRTEntropic", "EntropicStabilized", "KBCStandard", "KBCCentral", "BGKRegularized"]
# combinations that collide (the others refuse with an exception), confirmed by reading
KERNELS = [(m, s) for m in ("BGKStandard", "BGKSteadyState") for s in DQ] + [
    ("BGKStandardTransformed", "D2Q9"), ("BGKStandardTransformed", "D3Q19"),
    ("BGKIncompressible", "D2Q9"), ("MRTStandard", "D2Q9"), ("MRTEntropic", "D2Q9"), ("MRTEntropic", "D3Q19"), ("KBCStandard", "D2Q9"), ("KBCStandard", "D3Q15"),
    ("KBCCentral", "D2Q9"), ("BGKRegularized", "D2Q9"), ("BGKRegularized", "D3Q19")]


def mod():
    return module("legacy.cpp", extra_stop=LA.LA_RE)


class R:
    pass


def run(C, M, S, init=0, eqonly=0, ftype=0, fresh=True):
    m = mod()
    D, Q = DQ[S]
    L = LT.table(C, module("lattice.cpp"), S) if fresh else None
    if fresh:
        I = interp(m, LA.LA)
    else:
        I = absint.Interp(m, list(LA.LA) + models.BASE)
        I.throws = []
    I.nodes, I.cfg = 1, {}
    st = absint.State()
    dofs = I.new_region(st, "dofs", 4096)
    F = I.input_region(st, "F", 24)
    u0 = I.input_region(st, "U", 24)
    out = I.new_region(st, "out", 8 * Q)
    st, _ = I.call(st, "probe_leg_%s_%s" % (M, S), [absint.Ptr(dofs, 0), A.sym("s"), A.sym("tau"), A.sym("dt"), A.sym("gam"), absint.Ptr(F, 0), ftype, init, eqonly,
                                                    absint.Ptr(u0, 0), A.sym("R"), absint.Ptr(out, 0)])
    C.use(I)
    if st is None:
        return None
    if I.approx:
        raise Broken("a loop of the collision has unknown length: %s" % (I.approx[0],))
    r = R()
    r.I, r.st, r.D, r.Q = I, st, D, Q
    if fresh:
        run.L = L
    L = run.L
    r.E = [[A.mul(A.sym("s"), x) for x in e] for e in L.E]
    r.W = L.W
    r.cs2 = A.mul(coef(L.cs2, 2), A.mul(A.sym("s"), A.sym("s")))
    fs = [f for f in (I.m.funcs[n] for n in sorted(I.visited)) if "natrium::" + M in f.d or "natrium::BGK::" in f.d or "natrium::MRT::" in f.d]
    pick = [f for f in fs if ("getEquilibriumDistribution(" if eqonly else "collide") in f.d] or fs
    r.where = src(sorted(pick, key=lambda f: (M not in f.d, -len(f.d)))[0]) if pick else M
    if eqonly:
        r.feq = [getd(st, out, i) for i in range(Q)]
    else:
        r.f = [LA.named_vals(I, st, "f", i)[0] for i in range(Q)]
        r.rho = LA.named_vals(I, st, "rho", 0)[0]
        r.u = [LA.named_vals(I, st, "u", d)[0] for d in range(D)]
        r.fin = [A.sym("f%d[0]" % i) for i in range(Q)]
    return r


# ---- I01: the distributions a simulation starts from ------------------------------------------
def i01_item(C, a):
    M, S = a
    r = run(C, M, S, eqonly=1)
    if not C.ob("model offers initial distributions", "%s %s" % a, r is not None, M, "getEquilibriumDistributions raises an exception on every path"):
        return
    rho = A.sym("R")
    u = [A.sym("U[%d]" % d) for d in range(r.D)]
    # deviations from the rest state are stored by this model: f - w
    sub = ssum(r.W) if M == "BGKStandardTransformed" else 0.0
    C.ob("initial populations sum to the density", "%s %s" % a, zero(A.sub(A.add(ssum(r.feq), sub), rho)), r.where, "sum of the initial populations is not the density")
    inc = False
    for d in range(r.D):
        j = ssum(A.mul(x, e[d]) for x, e in zip(r.feq, r.E))
        C.ob("initial populations carry the momentum", "%s %s %s" % (a + ("xyz"[d],)), zero(A.sub(j, u[d] if inc else A.mul(rho, u[d]))), r.where, "first moment is not density times velocity")
    if M == "KBCStandard":
        return          # product form: its stress is not polynomial
    k = 1.0 if M != "BGKSteadyState" else A.inv(A.sym("gam"))
    for p in range(r.D):
        for q in range(p, r.D):
            P = ssum(A.mul(x, A.mul(e[p], e[q])) for x, e in zip(r.feq, r.E))
            want = A.mul(A.mul(k, A.mul(u[p], u[q])), 1.0 if inc else rho)
            if p == q:
                want = A.add(want, A.mul(A.sub(rho, sub), r.cs2))
            C.ob("initial populations have the Maxwellian stress", "%s %s %s%s" % (a + ("xyz"[p], "xyz"[q])), zero(A.sub(P, want)), r.where, "second moment is not rho u u + rho cs^2")


def i01(C):
    mod(), module("lattice.cpp")
    pmap(C, i01_item, [(m, s) for m in MODELS for s in DQ if m != "KBCStandard" or s == "D2Q9"])
    C.floor("initial populations sum to the density", 115)


# ---- C08: the collision kernels of these models -----------------------------------------------
def c08_item(C, a):
    M, S = a
    lab = "%s %s" % a
    r = run(C, M, S)
    if not C.ob("model collides", lab, r is not None, M, "collideAll raises an exception on every path"):
        return
    if not defined(C, r, lab):
        return
    tr = M == "BGKStandardTransformed"
    rho0 = A.add(ssum(r.fin), 1.0 if tr else 0.0)
    j0 = [ssum(A.mul(x, e[d]) for x, e in zip(r.fin, r.E)) for d in range(r.D)]
    df = [A.sub(x, y) for x, y in zip(r.f, r.fin)]
    C.ob("kernel conserves mass", lab, zero(ssum(df)), r.where, "sum of the populations changes")
    for d in range(r.D):
        C.ob("kernel conserves momentum", lab + " " + "xyz"[d], zero(ssum(A.mul(x, e[d]) for x, e in zip(df, r.E))), r.where, "momentum changes")
    C.ob("kernel reports the density of the node", lab, zero(A.sub(r.rho, rho0)), r.where, "reported density is not the sum of the populations")
    inc = False
    for d in range(r.D):
        C.ob("kernel reports the velocity of the node", lab + " " + "xyz"[d], zero(A.sub(A.mul(r.u[d], 1.0 if inc else rho0), j0[d])), r.where, "reported velocity is not momentum over density")
    # the kernel relaxes towards the equilibrium the model announces, with rate 1/(tau+1/2)
    eu = run(C, M, S, eqonly=1, fresh=False).feq
    u0 = [A.div(j, 1.0 if inc else rho0) for j in j0]

    def at_state(rho, u):
        mp = {sid("R"): rho}
        for d in range(r.D):
            mp[sid("U[%d]" % d)] = u[d]
        return [A.subst(x, mp) for x in eu]
    if M in ("BGKStandard", "BGKStandardTransformed", "BGKSteadyState", "BGKIncompressible"):
        feq = at_state(rho0, u0)
        om = A.inv(A.add(A.sym("tau"), 0.5))
        bad = next((i for i in range(r.Q) if not zero(A.sub(r.f[i], A.sub(r.fin[i], A.mul(om, A.sub(r.fin[i], feq[i])))))), None)
        C.ob("kernel relaxes towards the announced equilibrium", lab, bad is None, r.where, "population %s does not relax towards getEquilibriumDistribution with rate 1/(tau+1/2)" % bad)
    if M in ("BGKStandard", "BGKRegularized", "BGKIncompressible", "BGKStandardTransformed", "BGKSteadyState"):
        ri = run(C, M, S, init=1, fresh=False)
        if C.ob("model collides during initialisation", lab, ri is not None, M, "raises an exception on every path"):
            if not defined(C, ri, lab + " initialisation"):
                return
            ui = [A.sym("u%d[0]" % d) for d in range(r.D)]
            C.ob("initialisation keeps the prescribed velocity", lab, all(zero(A.sub(x, y)) for x, y in zip(ri.u, ui)), ri.where, "the velocity field is changed in the initialisation procedure")
            C.ob("initialisation conserves mass", lab, zero(A.sub(ssum(ri.f), ssum([A.sym("f%d[0]" % i) for i in range(r.Q)]))), ri.where, "sum of the populations changes in the initialisation procedure")


def defined(C, r, lab):
    return C.ob("kernel computes from initialised values", lab, not any(x is absint.UNDEF for x in r.f + r.u + [r.rho]), r.where, "an uninitialised value flows into the populations")


def sid(name):
    (m, c), = A.sym(name).t.items()
    return m[0][0]


# ---- multistep models -------------------------------------------------------------------------
def multistep(C, a):
    """one collision of a multistep model on arbitrary populations and history"""
    S, model, later, init = a
    D, Q = DQ[S]
    name = ("AM4", "BDF2")[model]
    lab = "%s %s%s%s" % (name, S, "" if later else ", first collision", ", initialisation" if init else "")
    m = mod()
    L = LT.table(C, module("lattice.cpp"), S)
    I = interp(m, LA.LA)
    I.nodes, I.cfg = 1, {}
    st = absint.State()
    dofs = I.new_region(st, "dofs", 4096)
    F = I.input_region(st, "F", 24)
    p = lambda r: absint.Ptr(r, 0)
    st, _ = I.call(st, "probe_multi_" + S, [p(dofs), A.sym("s"), A.sym("tau"), A.sym("dt"), A.sym("nu"), model, int(later), p(F), I.call(absint.State(), "probe_enum_NO_FORCING", [])[1], int(init)])
    C.use(I)
    fs = [f for f in (I.m.funcs[n] for n in sorted(I.visited)) if "natrium::BGKMultistep::collide" in f.d]
    w = src(max(fs, key=lambda f: len(f.d))) if fs else "BGKMultistep"
    if S not in ("D2Q9", "D3Q19"):
        C.ob("lattices without a multistep kernel are refused", lab, st is None, w, "collideAll returns without having done anything")
        return
    if not C.ob("model collides", lab, st is not None, w, "collideAll raises an exception on every path"):
        return
    if I.approx:
        raise Broken("a loop of the collision has unknown length: %s" % (I.approx[0],))
    get = lambda n, i: st.x.get(("out", n, i))
    f, hF, hE = ([get(n, i) for i in range(Q)] for n in "fFE")
    rho, u = get("rho", 0), [get("u", d) for d in range(D)]
    o = "f"
    fin = [A.sym("%s%d[0]" % (o, i)) for i in range(Q)]
    if not C.ob("kernel computes from initialised values", lab, not any(x is absint.UNDEF for x in f + hF + hE + u + [rho]), w, "an uninitialised value flows into the populations, the history or the moments"):
        return
    E = [[A.mul(A.sym("s"), x) for x in e] for e in L.E]
    cs2 = A.mul(coef(L.cs2, 2), A.mul(A.sym("s"), A.sym("s")))
    rho0 = ssum(fin)
    C.ob("kernel reports the density of the node", lab, zero(A.sub(rho, rho0)), w, "reported density is not the sum of the populations")
    if init:
        ue = [A.sym("u%d[0]" % d) for d in range(D)]
        C.ob("initialisation keeps the prescribed velocity", lab, all(zero(A.sub(x, y)) for x, y in zip(u, ue)), w, "the velocity field is changed in the initialisation procedure")
    else:
        j = [ssum(A.mul(x, e[d]) for x, e in zip(fin, E)) for d in range(D)]
        ue = [A.div(x, rho0) for x in j]
        for d in range(D):
            C.ob("kernel reports the velocity of the node", lab + " " + "xyz"[d], zero(A.sub(u[d], ue[d])), w, "reported velocity is not momentum over density")
    uu = ssum(A.mul(x, x) for x in ue)
    feq = []
    for i in range(Q):
        eu = A.div(ssum(A.mul(x, y) for x, y in zip(E[i], ue)), cs2)
        feq.append(A.mul(A.mul(L.W[i], rho0), A.add(A.add(1.0, eu), A.sub(A.scale(A.mul(eu, eu), 0.5), A.div(uu, A.scale(cs2, 2.0))))))
    # linear multistep rule for the relaxation with rate 1/lambda: the two steps of the implicit scheme, transformed to explicit variables
    lam = A.div(A.div(A.sym("nu"), cs2), A.sym("dt"))
    now, old = [A.sub(x, y) for x, y in zip(fin, feq)], [A.sub(A.sym("F%d[0]" % i), A.sym("E%d[0]" % i)) if later else 0.0 for i in range(Q)]
    if model == 0:
        den = A.inv(A.add(A.scale(lam, 12.0), 5.0))
        want = [A.add(x, A.mul(den, A.add(A.scale(n, -13.0), h))) for x, n, h in zip(fin, now, old)]
    else:
        den = A.inv(A.add(A.scale(lam, 4.5), 3.0))
        was = [A.sym("F%d[0]" % i) for i in range(Q)] if later else fin
        want = [A.add(A.sub(A.scale(x, 4.0 / 3), A.scale(g, 1.0 / 3)), A.mul(den, A.add(A.scale(n, -4.0), h))) for x, g, n, h in zip(fin, was, now, old)]
    bad = next((i for i in range(Q) if not zero(A.sub(f[i], want[i]))), None)
    C.ob("multistep kernels relax with the coefficients of their scheme", lab, bad is None, w, "population %s is not that of the scheme" % bad)
    bad = next((i for i in range(Q) if not zero(A.sub(hF[i], fin[i])) or not zero(A.sub(hE[i], feq[i]))), None)
    C.ob("multistep kernels keep the populations and equilibria of this collision for the next", lab, bad is None, w, "history of population %s" % bad)


MULTI = [(S, model, later, init) for S in ("D2Q9", "D3Q19") for model in (0, 1) for later in (False, True) for init in (False, True)] + [(S, 0, False, False) for S in ("D2Q19H", "D3Q15", "D3Q27")]


def item(C, a):
    multistep(C, a[1:]) if a[0] == "multi" else c08_item(C, a)


def c08(C):
    mod(), module("lattice.cpp")
    pmap(C, item, KERNELS + [("multi",) + a for a in MULTI])
    C.floor("kernel conserves mass", 36)
    C.floor("multistep kernels relax with the coefficients of their scheme", 12)
    C.floor("lattices without a multistep kernel are refused", 3)


RUN = {"I01": i01, "C08": c08}
