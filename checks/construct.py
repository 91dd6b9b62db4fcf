"""R05: a solver is built as the configuration says."""
import re

import common
from common import absint, A
from absint import Ptr, Cond
import models
import models_la as LA
import models_io
import solver as SV
from solver import where, show, same, pops, vals, mod
import restart

# classes whose objects the solver creates; their constructors are recorded, their methods dispatch to recorders
ADV = ("SEDGMinLee", "SemiLagrangian")
COLL = ("BGKStandard", "BGKSteadyState", "BGKStandardTransformed", "BGKRegularized", "BGKPseudopotential", "BGKIncompressible", "MRTStandard", "MRTEntropic", "EntropicStabilized", "KBCStandard", "KBCCentral", "BGKMultistep")
TIME = ("RungeKutta5LowStorage", "ThetaMethod", "ExponentialTimeIntegrator", "DealIIWrapper")
OTHER = ("ExponentialFilter", "NewFilter", "SolverStats", "TurbulenceStats", "GlobalTurbulenceStats", "PseudoEntropicStabilizer", "PseudopotentialParameters", "Checkpoint")
CL = "|".join(ADV + COLL + TIME + OTHER)


def m_new(I, st, a, F):
    c = re.search(r"natrium::(%s)\b" % CL, F.d).group(1)
    I.event(st, "new", (c, a[0]) + tuple(I.simple(st, x) for x in a[1:]))
    st.x[("class", a[0].r)] = c
    if c in ADV:
        I.store(st, a[0], Ptr("g:_ZTV7AdvStub", 16), "p")
    else:
        I.store(st, a[0], Ptr("vt:any", 16), "p")
    if c in COLL:
        I.store(st, a[0], Ptr("vt:cm", 16), "p")
    return st, None


def ev(kind, ret=None):
    def f(I, st, a, F):
        I.event(st, kind, tuple(I.simple(st, x) for x in a[1:]))
        return st, (ret(I, st) if callable(ret) else ret)
    return f


def m_empty_vector(I, st, a, F):
    if F.ret == "p":
        return st, Ptr(I.new_region(st, "vec", 24, lambda off, ty: 0), 0)
    for o in (0, 8, 16):
        I.store(st, Ptr(a[0].r, a[0].o + o), 0, "p")
    return st, None


def m_force(I, st, a, F):
    I.store(st, a[0], I.parts["force"], "p")
    I.store(st, Ptr(a[0].r, a[0].o + 8), 0, "p")
    return st, None


def m_checkproblem(I, st, a, F):
    I.event(st, "checkProblem", ())
    return models.throws(I, st, a, F) if I.misfit else (st, None)


def m_load(I, st, a, F):
    I.event(st, "load", (a[0], a[1]))
    st, _ = I.call(st, "probe_status", [a[4], A.sym("it0"), A.sym("t0"), A.sym("sc0"), A.sym("fe0")])
    return st, None


def m_solver_ev(I, st, a, F):
    n = re.search(r"::(\w+)\(", F.d).group(1)
    I.event(st, n, (tuple(I.simple(st, x) for x in a[1:]),))
    return st, None


MODELS = [
    (r"^natrium::(%s)(<.*>)?::\1\(" % CL, m_new),
    (r"ProblemDescription<2ul>::checkBoundaryConditions\(", ev("checkBoundaryConditions", lambda I, st: I.ok)),
    (r"ProblemDescription<2ul>::hasExternalForce\(", lambda I, st, a, F: (st, I.force)), (r"ProblemDescription<2ul>::getExternalForce\(", m_force),
    (r"natrium::SolverConfiguration::checkProblem", m_checkproblem), (r"natrium::SolverConfiguration::prepareOutputDirectory", ev("prepareOutputDirectory")),
    (r"natrium::Checkpoint<2ul>::exists", lambda I, st, a, F: (st, I.exists)), (r"natrium::Checkpoint<2ul>::load\(", m_load),
    (r"CFDSolverUtilities::getMinimumVertexDistance<2ul>\(", lambda I, st, a, F: (st, A.sym("dx"))),
    (r"natrium::CFDSolver<2ul>::(applyInitialDensities|applyInitialVelocities|initializeDistributions|calculateDensitiesAndVelocities|appendDataProcessor)\(", m_solver_ev),
    (r"natrium::CFDSolver<2ul>::(getMaxVelocityNorm|getNumberOfDoFs)\(", lambda I, st, a, F: (st, A.sym("maxu") if F.ret == "d" else 0)),
    (r"^std::map<.*Boundary<2ul>.*::(begin|end)\(", lambda I, st, a, F: (st, Ptr(I.parts["bounds"].r, 8))),
    (r"dealii::Tensor<1, \d, double>::operator\[\]\(", lambda I, st, a, F: (st, Ptr(a[0].r, a[0].o + 8 * a[1]))),
    (r"BGKPseudopotential<2ul>::setAdvectionOperator\(", ev("pseudopotential.setAdvectionOperator")),
    (r"getWallNormalCoordinates\(", m_empty_vector),
    # (used for log messages only)
    (r"n_mpi_processes\(", lambda I, st, a, F: (st, 0)), (r"MPI::all_gather<", m_empty_vector),
    (r"AdvectionOperator<2ul>::setDeltaT\(", ev("setDeltaT")),
]


def simple(I, st, x):
    """arguments of constructors: shared pointers by the object they own, paths and strings by their text"""
    if not isinstance(x, Ptr) or x in I.objs:
        return x
    try:
        t = models.tostr(I, st, x)
        t = models_io.text(t) if isinstance(t, (str, absint.Opaque)) else "{str()}"
        if not re.fullmatch(r"\{str\([^)]*\)\}", t):
            return ("text", t)
    except Exception:
        pass
    try:
        p = I.load(st, x, "p")
    except Exception:
        return x
    if isinstance(p, Ptr) and not p.r.startswith(("g:", "vt:")):
        return ("sp", p)
    return x


class Built:
    """result of the interpretation of the constructor for one configuration"""


def build(C, m, cfg, force=0, ok=1, misfit=0, exists=1):
    S = restart.tri(m, "CFDSolver", cfg, False, models_=MODELS + restart.CELLM)
    I, st = S.I, S.st
    I.ok, I.force, I.misfit, I.exists = ok, force, misfit, exists
    I.simple = lambda st, x: simple(I, st, x)
    st.mem["vt:any"] = absint.Region("vt:any", "vt:any", 4096, lambda off, ty: absint.Fn("__mesh_virtual"), st, "vtable")
    for n in ("sysmat", "doftrg", "ss", "ts"):
        I.store(st, S.p[n], Ptr("vt:any", 16), "p")
    R = lambda n, k=512: Ptr(I.new_region(st, n, k), 0)

    def sp(p):
        q = R("sp", 16)
        I.store(st, q, p, "p"); I.store(st, Ptr(q.r, 8), 0, "p")
        return q
    I.parts["bounds"] = R("bounds")
    I.parts["pd.getBoundaries"] = sp(I.parts["bounds"])
    I.parts["force"] = Ptr(I.input_region(st, "force", 64), 0)
    I.parts["quad"], I.parts["fe"] = R("quad"), R("fe")
    I.parts["adv.getQuadrature"], I.parts["adv.getFe"] = sp(I.parts["quad"]), sp(I.parts["fe"])
    a = [I.call(st, p, [S.s])[1] for p in ("probe_cfgp", "probe_pdp")]
    B = Built()
    B.S, B.I = S, I
    B.s = R("new", 1 << 16)
    I.objs = list(S.p.values()) + [I.parts[k] for k in ("quad", "fe", "force")] + [B.s]
    st.events[:] = []
    B.st, _ = I.call(st, "probe_ctor", [B.s] + a)
    C.use(I)
    if B.st is not None:
        B.new = [e.args for e in B.st.events if e.kind == "new"]
        B.call = lambda fn, *a: I.call(B.st, fn, list(a))[1]
        B.part = lambda k: B.call("probe_part", B.s, k)
        B.kinds = [e.args[0] if e.kind in ("call", "new") else e.kind for e in B.st.events]
    return B


def made(B, cls):
    return [x for x in B.new if x[0] == cls]


def args(x):
    return tuple(y[1] if isinstance(y, tuple) and y[0] == "sp" else y for y in x[2:])


def eq(x, y):
    """agreement of two argument values"""
    if isinstance(y, str):
        return isinstance(x, tuple) and x[1].replace("1*", "") == y
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return x == y
    if isinstance(x, (Cond, absint.IteVal, tuple)) or x is absint.UNDEF:
        return False
    return A.vanishes(A.sub(x, y))


def eqs(xs, ys):
    return len(xs) == len(ys) and all(eq(x, y) for x, y in zip(xs, ys))


@common.dims
def r05(C, dim=2):
    m = mod(dim)
    memo = {}

    def E(n):
        if n not in memo:
            memo[n] = SV.enum(m, n)
        return memo[n]
    w = where(m, r"natrium::CFDSolver<2ul>::CFDSolver\(boost")
    cfgsym = lambda n: A.sym("cfg." + n)
    ST = "Stencil_D2Q9" if dim == 2 else "Stencil_D3Q19"
    base = dict(getStencil=E(ST), getStencilScaling="s", getAdvectionScheme=E("SEMI_LAGRANGIAN"), getSedgFluxType=E("CENTRAL"), getCollisionScheme=E("BGK_STANDARD"),
                getTimeIntegrator=E("RUNGE_KUTTA_5STAGE"), isFiltering=0, isSwitchOutputOff=0, getRestartAtIteration=0, getRegularizationScheme=E("NO_REGULARIZATION"), isOutputTurbulenceStatistics=0,
                isOutputGlobalTurbulenceStatistics=0, getInitializationScheme=E("EQUILIBRIUM"), getFilteringScheme=E("EXPONENTIAL_FILTER"), getDealIntegrator=0, getForcingScheme=E("GUO"))
    # (symbols belong to an interpretation: made when needed)
    nu, s, p, cfl = lambda: A.sym("nu"), lambda: A.sym("s"), lambda: cfgsym("getSedgOrderOfFiniteElement"), lambda: cfgsym("getCFL")
    OBJ = "the solver is built from the objects the configuration names"

    def mk(key, expect_ok=True, **kw):
        force = kw.pop("force", 0)
        opt = {k: kw.pop(k) for k in ("ok", "misfit", "exists") if k in kw}
        B = build(C, m, dict(base, **kw), force, **opt)
        if expect_ok:
            C.ob("a valid configuration is accepted", key, B.st is not None, w, "construction does not return")
        return B if B.st is not None else None

    def obj(key, B, group, cls, part, expected):
        """exactly one object of the group was created, of class cls with the expected arguments, and it is the solver's part"""
        got = [x for x in B.new if x[0] in group]
        ok = len(got) == (1 if cls else 0) and (not cls or got[0][0] == cls)
        det = "creates %s instead of %s" % ([x[0] for x in got], cls)
        if ok and cls:
            ok = eqs(args(got[0]), expected)
            det = "%s(%s) instead of (%s)" % (cls, ", ".join(map(str, args(got[0]))), ", ".join(map(str, expected)))
            if ok:
                q = B.part(part)
                ok, det = isinstance(q, Ptr) and q.r == got[0][1].r, "the %s created is not the one the solver uses" % cls
        elif ok:
            ok, det = B.part(part) == 0, "unexpected object"
        return C.ob(OBJ, key, ok, w, det)

    def dt(B):
        return A.div(A.mul(cfl(), A.sym("dx")), A.mul(A.mul(p(), p()), B.call("probe_umax", B.s)))

    def tau(B):
        return A.div(nu(), A.mul(dt(B), B.call("probe_cs2", B.s)))
    # ---- stencils
    for n, D in (("D2Q9", 2), ("D3Q19", 3), ("D3Q13", 3), ("D3Q21", 3), ("D3Q15", 3), ("D3Q27", 3), ("D3Q45", 3),
                         ("D3Q77", 3), ("D2Q19H", 2), ("D2Q19V", 2), ("D2Q777", 2), ("D2Q25H", 2), ("RD3Q27", 3), ("D3V27", 3)):
        B = mk(n, D == dim, getStencil=E("Stencil_" + n))
        if D != dim:
            C.ob("a stencil of another dimension is refused", n, B is None, w, "accepted")
        elif B:
            vt = B.I.load(B.st, B.part(0), "p").r
            C.ob("the stencil is the configured one, scaled as configured", n, vt.endswith("%d%sE" % (len(n), n)) and eq(B.call("probe_scaling", B.s), s()), w, "%s scaled by %s" % (vt, B.call("probe_scaling", B.s)))
            C.ob("the solver has one population per direction", n, B.call("probe_Q", B.s) == B.call("probe_stQ", B.s), w, "%s populations" % B.call("probe_Q", B.s))
            x = [e.args[0] for e in B.st.events if e.kind == "setDeltaT"]
            C.ob("the time step follows from the CFL number, the smallest vertex distance, the order and the fastest particle", n, len(x) == 1 and eq(x[0], dt(B)), w, "%s" % x)
            k = B.kinds
            order = ["setupDoFs", "setDeltaT", "reassemble", "BGKStandard", "applyInitialDensities", "setTimeIntegrator", "initializeDistributions"]
            pos = [k.index(o) if o in k else -1 for o in order]
            C.ob("the parts are set up before they are used", n, min(pos) >= 0 and pos == sorted(pos) and pos[5] >= 0 and "applyInitialVelocities" in k and k.index("applyInitialVelocities") < pos[6], w, str(list(zip(order, pos))))
    # ---- advection
    for adv, cls in (("SEDG", "SEDGMinLee"), ("SEMI_LAGRANGIAN", "SemiLagrangian")):
        for flux in ("CENTRAL", "LAX_FRIEDRICHS"):
            B = mk("%s %s" % (adv, flux), getAdvectionScheme=E(adv), getSedgFluxType=E(flux))
            if B:
                exp = (B.S.p["pd"], p(), cfgsym("getQuadrature"), cfgsym("getSupportPoints"), B.part(0)) + ((int(flux == "CENTRAL"), 0.0) if adv == "SEDG" else (0.0,))
                obj("%s %s" % (adv, flux), B, ADV, cls, 3, exp)
                C.ob("the populations have the layout of the advection scheme", "%s %s" % (adv, flux), B.call("probe_fdg", B.s) == int(adv == "SEDG"), w, "")
        for q in ("QGAUSS_LOBATTO", "QGAUSS"):
            for sp in ("GAUSS_LOBATTO_POINTS", "GAUSS_CHEBYSHEV_POINTS", "GAUSS_LOBATTO_CHEBYSHEV_POINTS", "EQUIDISTANT_POINTS"):
                B = mk("%s %s %s" % (adv, q, sp), getAdvectionScheme=E(adv), getQuadrature=E(q), getSupportPoints=E(sp))
                if B:
                    obj("%s %s %s" % (adv, q, sp), B, ADV, cls, 3, (B.S.p["pd"], p(), E(q), E(sp), B.part(0)) + ((1, 0.0) if adv == "SEDG" else (0.0,)))
    # ---- collision
    tab = [("BGK_STANDARD", "BGKStandard"), ("BGK_STANDARD_TRANSFORMED", "BGKStandardTransformed"), ("BGK_REGULARIZED", "BGKRegularized"), ("BGK_INCOMPRESSIBLE", "BGKIncompressible"), ("MRT_STANDARD", "MRTStandard"),
           ("MRT_ENTROPIC", "MRTEntropic"), ("ENTROPIC_STABILIZED", "EntropicStabilized"), ("KBC_STANDARD", "KBCStandard"), ("KBC_CENTRAL", "KBCCentral"), ("BGK_MULTI_AM4", "BGKMultistep"), ("BGK_MULTI_BDF2", "BGKMultistep"),
           ("BGK_STEADY_STATE", "BGKSteadyState"), ("BGK_MULTIPHASE", "BGKPseudopotential")]
    for sch, cls in tab:
        for force in (0, 1):
            key = sch + (" with external force" if force else "")
            B = mk(key, getCollisionScheme=E(sch), force=force, getStencil=E(ST))
            if not B:
                continue
            exp = [tau(B), dt(B), B.part(0)]
            if sch == "BGK_STEADY_STATE":
                exp = [A.div(tau(B), cfgsym("getBGKSteadyStateGamma")), dt(B), B.part(0), cfgsym("getBGKSteadyStateGamma")]
            if cls == "BGKMultistep":
                exp.append(0 if "AM4" in sch else 1)
            if sch == "BGK_MULTIPHASE":
                got = made(B, cls)
                C.ob(OBJ, key, len(got) == 1 and eqs(args(got[0])[:3], exp), w, str(got))
                x = [e.args for e in B.st.events if e.kind == "pseudopotential.setAdvectionOperator"]
                C.ob("the multiphase model uses the solver's advection operator", key, len(x) == 1 and x[0][0] == ("sp", B.part(3)), w, str(x))
            else:
                obj(key, B, COLL, cls, 1, exp)
            if cls == "BGKMultistep":
                C.ob("multistep models share their history with the solver", key, isinstance(B.part(2), Ptr) and B.part(2).r == B.part(1).r, w, "")
                C.ob("multistep models know the viscosity", key, eq(B.call("probe_cmnu", B.part(1)), nu()), w, "")
            if force:
                ft = B.call("probe_cmftype", B.part(1))
                F = [B.call("probe_cmforce", B.part(1), k) for k in range(dim)]
                C.ob("an external force is handed to the collision model with the configured scheme", key, ft == base["getForcingScheme"] and all(eq(F[k], B.call("probe_getforce", B.I.parts["force"], k)) for k in range(dim)), w, "%s %s" % (ft, F))
    # ---- time integrator
    f = lambda B: None
    for ti in ("RUNGE_KUTTA_5STAGE", "THETA_METHOD", "EXPONENTIAL"):
        B = mk(ti, getTimeIntegrator=E(ti), getAdvectionScheme=E("SEDG"))
        if B:
            cls = {"RUNGE_KUTTA_5STAGE": "RungeKutta5LowStorage", "THETA_METHOD": "ThetaMethod", "EXPONENTIAL": "ExponentialTimeIntegrator"}[ti]
            fb = B.call("probe_fblock", B.s)
            exp = (dt(B), fb) if ti[0] == "R" else (dt(B), fb, cfgsym("getThetaMethodTheta")) if ti[0] == "T" else (dt(B), m.ns - 1)
            B.I.objs.append(fb)
            obj(ti, B, TIME, cls, 4, exp)
            C.ob("the advection operator uses the solver's time integrator", ti, B.kinds.count("setTimeIntegrator") == 1 and B.kinds.index("setTimeIntegrator") > B.kinds.index(cls), w, "")
    for d in (0, 6, 7, 11):
        B = mk("deal.II integrator %d" % d, getTimeIntegrator=E("OTHER"), getAdvectionScheme=E("SEDG"), getDealIntegrator=d)
        if B:
            sc = lambda n: A.div(A.mul(dt(B), cfgsym(n)), cfl())
            exp = (dt(B), d, cfgsym("getDealLinearSolver"))
            if d >= 7:
                g = lambda n: cfgsym("getEmbeddedDealIntegrator" + n)
                exp += (g("CoarsenParameter"), g("RefinementParameter"), sc("getEmbeddedDealIntegratorMinimumCFL"), sc("getEmbeddedDealIntegratorMaximumCFL"), g("RefinementTolerance"), g("CoarsenTolerance"))
            obj("deal.II integrator %d" % d, B, TIME, "DealIIWrapper", 4, exp)
    # ---- filters
    for on in (0, 1):
        for fl, cls in (("EXPONENTIAL_FILTER", "ExponentialFilter"), ("NEW_FILTER", "NewFilter")):
          for bs in (0, 1):
            B = mk("filter %s %s %s" % (on, fl, bs), isFiltering=on, getFilteringScheme=E(fl), isFilterDegreeByComponentSums=bs)
            if B:
                exp = (cfgsym("getExponentialFilterAlpha"), cfgsym("getExponentialFilterS"))
                exp += (cfgsym("getExponentialFilterNc"), bs) if fl[0] == "E" else ()
                obj("filter %s %s %s" % (on, fl, bs), B, ("ExponentialFilter", "NewFilter"), cls if on else None, 5, exp + (B.I.parts["quad"], B.I.parts["fe"]))
    # ---- restart
    RS = "a simulation starts at iteration and time zero or continues at those of the checkpoint"
    for it in (0, 1, 7, 1000):
        B = mk("restart at %d" % it, getRestartAtIteration=it)
        if not B:
            continue
        k = B.kinds
        C.ob(RS, "restart at %d" % it, eq(B.call("probe_istart", B.s), A.sym("it0") if it else 0) and eq(B.call("probe_i", B.s), A.sym("it0") if it else 0) and eq(B.call("probe_time", B.s), A.sym("t0") if it else 0.0), w,
             "starts at iteration %s, time %s" % (B.call("probe_i", B.s), B.call("probe_time", B.s)))
        cp = made(B, "Checkpoint")
        C.ob("no run counts as converged before residuals are computed", "restart at %d" % it, all(isinstance(B.call("probe_res", B.s, k), (int, float)) and B.call("probe_res", B.s, k) >= 1 for k in (0, 1)), w, "initial residuals %s" % [B.call("probe_res", B.s, k) for k in (0, 1)])
        C.ob("a restart loads the checkpoint of the configured iteration", "restart at %d" % it, not it and not cp and "load" not in k or it and len(cp) == 1 and cp[0][2] == it and cp[0][4:] == (0, 1) and k.count("load") == 1
             and "checkpoint" in str(cp[0][3]), w, str(cp))
        init, calc = "initializeDistributions" in k or "applyInitialDensities" in k or "applyInitialVelocities" in k, "calculateDensitiesAndVelocities" in k
        C.ob("a restart keeps the restored state, a new simulation starts from the initial conditions", "restart at %d" % it, (init, calc) == (not it, bool(it)), w, str((init, calc)))
        if it and "load" in k:
            C.ob("the parts are set up before they are used", "restart at %d" % it, k.index("load") < k.index("setDeltaT") < k.index("calculateDensitiesAndVelocities"), w, "")
    B = mk("missing checkpoint", False, getRestartAtIteration=7, exists=0)
    C.ob("invalid starts are refused", "missing checkpoint", B is None, w, "accepted")
    B = mk("boundaries", False, ok=0)
    C.ob("invalid starts are refused", "boundaries do not fit the mesh", B is None, w, "accepted")
    B = mk("problem", False, misfit=1)
    C.ob("invalid starts are refused", "problem and configuration do not fit", B is None, w, "accepted")
    # ---- output and processors
    for off in (0, 1):
        for tb in (0, 1):
            for gl in (0, 1):
                key = "output %s statistics %d global %d" % ("off" if off else "on", tb, gl)
                B = mk(key, isSwitchOutputOff=off, isOutputTurbulenceStatistics=tb, isOutputGlobalTurbulenceStatistics=gl)
                if B:
                    n = [len(made(B, c)) for c in ("SolverStats", "TurbulenceStats", "GlobalTurbulenceStats")]
                    C.ob("statistics objects exist as configured", key, n == ([1, 0, 0] if off else [1, tb, gl]) and B.part(6).r == made(B, "SolverStats")[0][1].r, w, str(n))
                    C.ob("the output directory is prepared iff there is output", key, ("prepareOutputDirectory" in B.kinds) == (not off), w, "")
    for rg, fl in (("PSEUDO_ENTROPY_MAXIMIZATION", 0), ("PSEUDO_ENTROPY_MAXIMIZATION_WITH_E", 1), ("NO_REGULARIZATION", None)):
        B = mk("regularization " + rg, getRegularizationScheme=E(rg))
        if B:
            x = made(B, "PseudoEntropicStabilizer")
            C.ob("the configured regularization is installed", rg, fl is None and not x or len(x) == 1 and args(x[0]) == (B.s, fl) and B.kinds.count("appendDataProcessor") == 1, w, str(x))
    C.floor(OBJ, 30)
    C.floor("a valid configuration is accepted", 50)


RUN = {"R05": r05}
