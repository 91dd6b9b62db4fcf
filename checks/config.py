"""U01: the configuration object: every setter/getter pair round-trips through the declared parameter of its name."""
import re
import sys

import common
from common import absint, A, Broken
import models
import models_ph

OUT = ("Output",)
TURB = ("Output", "Turbulence Statistics")
# the documented parameter behind every accessor (PARAMETER file format)
SPEC = {
    "getAdvectionScheme": "Advection/Advection scheme", "getCollisionScheme": "Collision/Collision scheme", "getEquilibriumScheme": "Collision/Equilibrium scheme",
    "getStencil": "General/Stencil", "getTimeIntegrator": "Advection/Time integrator", "getDealIntegrator": "Advection/Deal.II integrator/Runge Kutta scheme",
    "getDealLinearSolver": "Advection/Deal.II linear solver/Linear solver", "getSedgFluxType": "Advection/SEDG/Flux type",
    "getInitializationScheme": "Initialization/Initialization scheme", "getPseudopotentialType": "Collision/BGK parameters/Pseudopotential type",
    "getForcingScheme": "Collision/BGK parameters/Forcing scheme", "getFilteringScheme": "Filtering/Filtering scheme", "getSupportPoints": "Advection/Support points",
    "getQuadrature": "Advection/Quadrature", "getRegularizationScheme": "Filtering/Regularization", "getMRTRelaxationTimes": "Collision/MRT relaxation times",
    "getMRTBasis": "Collision/MRT basis",
    "isWriteALogFile": "Output/Write a log file?", "getWallNormalDirection": "Output/Turbulence Statistics/Wall normal direction", "isVmultLimiter": "Filtering/Apply vmult limiter?",
    "isUserInteraction": "Output/User interaction?", "getThetaMethodTheta": "Advection/Theta method/Theta", "isSwitchOutputOff": "Output/Switch output off?",
    "getStencilScaling": "General/Stencil scaling", "getSimulationEndTime": "Stop condition/Simulation end time",
    "getSedgOrderOfFiniteElement": "Advection/SEDG/Order of finite element", "getRestartAtIteration": "Initialization/Restart at iteration",
    "getReferenceTemperature": "General/Reference temperature", "getPrandtlNumber": "General/Prandtl",
    "isOutputTurbulenceStatistics": "Output/Turbulence Statistics/Output turbulence statistics?", "getOutputTableInterval": "Output/Output table interval",
    "getOutputSolutionInterval": "Output/Output solution interval",
    "isOutputGlobalTurbulenceStatistics": "Output/Turbulence Statistics/Output global turbulence statistics?",
    "isOutputCompressibleTurbulenceStatistics": "Output/Turbulence Statistics/Output compressible turbulence statistics?",
    "getOutputCheckpointInterval": "Output/Output checkpoint interval", "getNumberOfTimeSteps": "Stop condition/Number of time steps",
    "getHeatCapacityRatioGamma": "General/Gamma", "hasAnalyticSolution": "General/Has analytic solution?", "isFiltering": "Filtering/Apply filtering?",
    "getFilterInterval": "Filtering/Filter parameters/Filter interval", "isFilterDegreeByComponentSums": "Filtering/Filter parameters/Degree by component sums",
    "getExponentialFilterS": "Filtering/Filter parameters/Exponential s", "getExponentialFilterNc": "Filtering/Filter parameters/Exponential Nc",
    "getExponentialFilterAlpha": "Filtering/Filter parameters/Exponential alpha", "getConvergenceThreshold": "Stop condition/Convergence threshold",
    "getCommandLineVerbosity": "Output/Command line verbosity", "getCFL": "General/CFL", "getBGKSteadyStateGamma": "Collision/BGK parameters/Steady state gamma",
    "getBGKPseudopotentialT": "Collision/BGK parameters/Pseudopotential T", "getBGKPseudopotentialG": "Collision/BGK parameters/Pseudopotential G",
    "getIterativeInitializationNumberOfIterations": "Initialization/Iterative initialization stop condition/Number of iterations",
    "getIterativeInitializationResidual": "Initialization/Iterative initialization stop condition/Residual",
    "isPrandtlNumberSet": "General/Prandtl number set", "isSutherlandLawSet": "General/Sutherland law set",
    "getEmbeddedDealIntegratorCoarsenParameter": "Advection/Embedded Parameters/Coarsen parameter",
    "getEmbeddedDealIntegratorRefinementParameter": "Advection/Embedded Parameters/Refinement parameter",
    "getEmbeddedDealIntegratorMinimumCFL": "Advection/Embedded Parameters/Minimum CFL", "getEmbeddedDealIntegratorMaximumCFL": "Advection/Embedded Parameters/Maximum CFL",
    "getEmbeddedDealIntegratorRefinementTolerance": "Advection/Embedded Parameters/Refinement tolerance",
    "getEmbeddedDealIntegratorCoarsenTolerance": "Advection/Embedded Parameters/Coarsen tolerance",
}
# option string of the parameter file <-> enumerator
ENUMS = {
    "getAdvectionScheme": ("AdvectionSchemeName", {"SEDG": "SEDG", "Semi-Lagrangian": "SEMI_LAGRANGIAN"}),
    "getCollisionScheme": ("CollisionSchemeName", {"BGK standard": "BGK_STANDARD", "BGK steady state": "BGK_STEADY_STATE", "BGK standard transformed": "BGK_STANDARD_TRANSFORMED",
                           "BGK multiphase": "BGK_MULTIPHASE", "BGK incompressible": "BGK_INCOMPRESSIBLE", "BGK regularized": "BGK_REGULARIZED", "MRT standard": "MRT_STANDARD",
                           "MRT entropic": "MRT_ENTROPIC", "Entropic stabilized": "ENTROPIC_STABILIZED", "KBC standard": "KBC_STANDARD", "KBC central": "KBC_CENTRAL",
                           "BGK multi am4": "BGK_MULTI_AM4", "BGK multi bdf2": "BGK_MULTI_BDF2"}),
    "getEquilibriumScheme": ("EquilibriumSchemeName", {"BGK equilibrium": "BGK_EQUILIBRIUM", "Quartic equilibrium": "QUARTIC_EQUILIBRIUM", "Incompressible equilibrium": "INCOMPRESSIBLE_EQUILIBRIUM",
                             "Steady-state equilibrium": "STEADYSTATE_EQUILIBRIUM", "Entropic equilibrium": "ENTROPIC_EQUILIBRIUM"}),
    "getStencil": ("StencilType", {s: "Stencil_" + s for s in "D2Q9 D3Q13 D3Q19 D3Q15 D3Q21 D3Q27 RD3Q27 D2Q19V D2Q19H D2Q777 D2Q25H D3Q45 D3Q77 D3V27".split()}),
    "getTimeIntegrator": ("TimeIntegratorName", {"Runge-Kutta 5-stage": "RUNGE_KUTTA_5STAGE", "Theta method": "THETA_METHOD", "Exponential": "EXPONENTIAL", "Other": "OTHER"}),
    "getDealIntegrator": ("DealIntegratorName", {"Forward Euler": "FORWARD_EULER", "RK 3rd order": "RK_THIRD_ORDER", "RK Classic 4th order": "RK_CLASSIC_FOURTH_ORDER",
                          "Backward Euler": "BACKWARD_EULER", "Implicit midpoint": "IMPLICIT_MIDPOINT", "Crank-Nicoloson": "CRANK_NICOLSON", "SDIRK 2 stages": "SDIRK_TWO_STAGES",
                          "Heun-Euler": "HEUN_EULER", "Bogacki-Shampine": "BOGACKI_SHAMPINE", "Dopri": "DOPRI", "Fehlberg": "FEHLBERG", "Cash-Karp": "CASH_KARP", "None": "NONE"}),
    "getDealLinearSolver": ("DealSolverName", {s: s.upper() for s in "Bicgstab Cg Fgmres Gmres Minres Qmrs Relaxation Richardson".split()}),
    "getSedgFluxType": ("FluxTypeName", {"Lax-Friedrichs": "LAX_FRIEDRICHS", "Central": "CENTRAL"}),
    "getInitializationScheme": ("InitializationSchemeName", {"Equilibrium": "EQUILIBRIUM", "Iterative": "ITERATIVE", "CompressibleIterative": "COMPRESSIBLE_ITERATIVE", "Gradients": "GRADIENTS"}),
    "getPseudopotentialType": ("PseudopotentialType", {"ShanChen": "SHAN_CHEN", "Sukop": "SUKOP", "CarnahanStarling": "CARNAHAN_STARLING"}),
    "getForcingScheme": ("ForceType", {"No Forcing": "NO_FORCING", "Shifting Velocity": "SHIFTING_VELOCITY", "Exact Difference": "EXACT_DIFFERENCE", "Guo": "GUO"}),
    "getFilteringScheme": ("FilteringSchemeName", {"Exponential": "EXPONENTIAL_FILTER", "New": "NEW_FILTER"}),
    "getSupportPoints": ("SupportPointsName", {"Gauss-Lobatto": "GAUSS_LOBATTO_POINTS", "Gauss-Lobatto-Chebyshev": "GAUSS_LOBATTO_CHEBYSHEV_POINTS",
                         "Gauss-Chebyshev": "GAUSS_CHEBYSHEV_POINTS", "Equidistant": "EQUIDISTANT_POINTS"}),
    "getQuadrature": ("QuadratureName", {"Gauss-Lobatto": "QGAUSS_LOBATTO", "Gauss": "QGAUSS"}),
    "getRegularizationScheme": ("RegularizationSchemeName", {"No Regularization": "NO_REGULARIZATION", "Pseudo-entropy maximization": "PSEUDO_ENTROPY_MAXIMIZATION",
                                "Zero high-order moments": "ZERO_HIGH_ORDER_MOMENTS", "Entropy maximization": "ENTROPY_MAXIMIZATION",
                                "Pseudo-entropy maximization with e": "PSEUDO_ENTROPY_MAXIMIZATION_WITH_E"}),
    "getMRTRelaxationTimes": ("RelaxMode", {"Full": "RELAX_FULL", "Dellar D2Q9 Only N": "DELLAR_RELAX_ONLY_N", "DHumieres Paper": "RELAX_DHUMIERES_PAPER"}),
    "getMRTBasis": ("MomentBasis", {"Dellar D2Q9": "DELLAR_D2Q9", "Lallemand D2Q9": "LALLEMAND_D2Q9", "DHumieres D3Q19": "DHUMIERES_D3Q19"}),
}
ALSO = {"getPrandtlNumber": {("General", "Prandtl number set")}}      # writing Pr also marks it as set
TYPES = {"d": ("double", "int"), "i": ("int",), "b": ("bool",), "s": ("sel", "dir", "list", "double", "int", "bool")}
EMB = ["CoarsenParameter", "RefinementParameter", "MinimumCFL", "MaximumCFL", "RefinementTolerance", "CoarsenTolerance"]
MODELS = [(r"dealii::Utilities::MPI::n_mpi_processes\(", lambda I, st, a, F: (st, I.nproc))] + models_ph.PHM


def mod():
    return common.module("config.cpp", extra_stop=models_ph.PH_RE + r"|dealii::Utilities::MPI::", extra=["-Wno-enum-constexpr-conversion"])


def fresh(m):
    I = common.interp(m, MODELS)
    st = absint.State()
    c = absint.Ptr(I.new_region(st, "cfg", 1 << 16), 0)
    st, _ = I.call(st, "probe_cfg_ctor", [c])
    if st is None:
        raise Broken("the constructor of SolverConfiguration does not return")
    return I, st, c


def entries(st, c):
    h = st.x[("ph",) + models.key(c)]
    if type(h) is not models_ph.PH:
        raise Broken("the parameter set depends on an unknown condition")
    return h


def names(m, T):
    """enumerators of T: {value: name}, from the compiler's own spelling of the enumerator"""
    I = common.interp(m, MODELS)
    out = {}
    for i in range(32):
        st, p = I.call(absint.State(), "probe_names_" + T, [i])
        g = re.search(r"V = ([\w:]+)\]", absint.cstr(I, st, p))
        if g and not g.group(1).isdigit():
            out[i] = g.group(1).split("::")[-1]
    return out


def where(m, fn, cls="SolverConfiguration::"):
    for n, F in m.funcs.items():
        if (cls + fn + "(") in F.d and F.file:
            return common.src(F)
    return fn


def legal(pat, v):
    """does the pattern accept the literal"""
    k = pat[0]
    try:
        if k == "sel":
            return v in pat[1].split("|")
        if k == "bool":
            return v in ("true", "false")
        if k in ("double", "int"):
            x = float(v) if k == "double" else int(v)
            lo = pat[1] if A.isnum(pat[1]) else -1e300
            hi = pat[2] if len(pat) > 2 and A.isnum(pat[2]) else 1e300
            if k == "int" and lo >= 1 << 31:
                lo -= 1 << 32
            return lo > hi or lo <= x <= hi
    except ValueError:
        return False
    return True


def u01(C):
    m = mod()
    I, st, c = fresh(m)
    h = entries(st, c)
    C.use(I)
    w = where(m, "SolverConfiguration")
    C.ob("sub-sections are balanced", "constructor", h.path == (), w, "left in %s" % (h.path,))
    for n, (pat, d, _) in h.ent.items():
        C.ob("declared default satisfies its pattern", "/".join(n), pat is not None and isinstance(d, str) and legal(pat, d), w, "default %r, pattern %s" % (d, pat))
    def number(n):
        try:
            return float(h.ent[n][1]) if n in h.ent else None
        except (TypeError, ValueError):
            return None
    pairs = [(n, n[:-1] + (n[-1].replace("Minimum", "Maximum"),)) for n in h.ent if "Minimum" in n[-1]]
    pairs += [(n, n[:-1] + (n[-1].replace("Coarsen tol", "Refinement tol"),)) for n in h.ent if "Coarsen tol" in n[-1]]
    for lo, hi in pairs:
        C.ob("default limits are in order", "/".join(lo), number(lo) is not None and number(hi) is not None and number(lo) <= number(hi), w, "%s is %s, %s is %s" % (lo[-1], number(lo), hi[-1], number(hi)))
    for g, s in SPEC.items():
        if tuple(s.split("/")) not in h.ent:
            C.ob("documented parameter is declared", s, False, w, "entry of accessor %s is not declared" % g)
    base = h

    def getter(g, st, I, want, key):
        """run the getter; returns its value"""
        st2 = st.fork()
        for k in list(st2.x):
            if k[0] == "phread":
                del st2.x[k]
        n0 = len(I.throws)
        st2, v = I.call(st2, "probe_get_" + g, [c])
        wg = where(m, g)
        if not C.ob("getter returns normally", key, st2 is not None and len(I.throws) == n0, wg, "throws for %s" % (want,)):
            return None
        rd = st2.x.get(("phread",) + models.key(c), ())
        C.ob("getter reads its documented parameter", key, len(rd) >= 1 and all(n == tuple(SPEC[g].split("/")) for _, n in rd), wg, "reads %s" % (rd,))
        for conv, n in rd:
            pat = base.ent.get(n, (None,))[0]
            C.ob("parameter is read with its declared type", key, pat is not None and pat[0] in TYPES[conv], wg, "%s read as %s, declared %s" % ("/".join(n), conv, pat))
        C.ob("sub-sections are balanced", key, entries(st2, c).path == (), wg, "left in %s" % (entries(st2, c).path,))
        C.ob("getter leaves the parameters unchanged", key, entries(st2, c).ent == entries(st, c).ent, wg, "")
        return v

    def frame(g, st2, key, ws):
        e2 = entries(st2, c)
        ch = {n for n in e2.ent if n not in base.ent or repr(base.ent[n][2]) != repr(e2.ent[n][2])}
        own = {tuple(SPEC[g].split("/"))}
        wr = {n for t, n, _ in e2.log}
        C.ob("setter writes its documented parameter and no other", key, wr >= own and wr | ch <= own | ALSO.get(g, set()), ws, "writes %s" % sorted(wr | ch))
        C.ob("sub-sections are balanced", key, e2.path == (), ws, "left in %s" % (e2.path,))

    # ---- scalars
    scal = [g for g in SPEC if g not in ENUMS and ("probe_set_" + g) in m.funcs]
    for g in scal:
        I, st, c = fresh(m)
        F = m.funcs["probe_set_" + g]
        T = F.args[1][0] if isinstance(F.args[1], (list, tuple)) else F.args[1]
        S = "set" + re.sub("^(get|is|has)", "", g)
        if g == "hasAnalyticSolution":
            S = "setHasAnalyticSolution"
        for val in ([0, 1] if T == "i1" else [A.sym("v")]):
            key = g if T != "i1" else "%s(%d)" % (g, val)
            st2, _ = I.call(st.fork(), "probe_set_" + g, [c, val])
            if not C.ob("setter accepts every value of its type", key, st2 is not None, where(m, S), "throws"):
                continue
            frame(g, st2, key, where(m, S))
            v = getter(g, st2, I, val, key)
            if v is not None:
                if T == "i1" and isinstance(v, str):
                    v = int(v == "true")
                if T == "i1":
                    ok = v == val
                else:       # an integer getter is specified for whole numbers: trunc(v) = v
                    ok = A.show(v) == A.show(val) or (m.funcs["probe_get_" + g].ret != "d" and A.show(v) == "1*trunc_to_int(%s)" % A.show(val))
                C.ob("what was set is what is read", key, bool(ok), where(m, g), "set %s, got %s" % (A.show(val) if not A.isnum(val) else val, v))
        C.use(I)
    # ---- the flags and the grouped setter
    I, st, c = fresh(m)
    for g, setter, val in (("isPrandtlNumberSet", "probe_set_getPrandtlNumber", [A.sym("pr")]), ("isSutherlandLawSet", "probe_sutherland", [])):
        v = getter(g, st, I, 0, g + "(default)")
        C.ob("optional physics is off until it is set", g, v == 0, where(m, g), "got %s" % (v,))
        st2, _ = I.call(st.fork(), setter, [c] + val)
        v = getter(g, st2, I, 1, g + "(set)")
        C.ob("what was set is what is read", g, v == 1, where(m, g), "got %s" % (v,))
    vals = [A.sym("e%d" % i) for i in range(6)]
    st2, _ = I.call(st.fork(), "probe_embedded", [c] + vals)
    for n, x in zip(EMB, vals):
        g = "getEmbeddedDealIntegrator" + n
        v = getter(g, st2, I, x, g)
        C.ob("what was set is what is read", g, v is not None and v == x, where(m, "setEmbeddedDealIntegratorParameters"), "set %s, got %s" % (x, v))
    wr = {n for t, n, _ in entries(st2, c).log}
    C.ob("setter writes its documented parameter and no other", "embedded", wr == {tuple(SPEC["getEmbeddedDealIntegrator" + n].split("/")) for n in EMB},
         where(m, "setEmbeddedDealIntegratorParameters"), "writes %s" % (wr,))
    so, s1 = absint.Ptr(I.new_region(st, "so", 64), 0), absint.Ptr(I.new_region(st, "s1", 64), 0)
    models.sput(st, s1, absint.Opaque("dir"))
    st2, _ = I.call(st.fork(), "probe_outdir", [c, s1, so])
    C.ob("what was set is what is read", "OutputDirectory", st2 is not None and entries(st2, c).ent[("Output", "Output directory")][2] == absint.Opaque("dir")
         and entries(st2, c).path == (), where(m, "setOutputDirectory"), "")
    C.use(I)
    # ---- enumerations
    for g, (T, tab) in ENUMS.items():
        en = names(m, T)
        rev = {v: k for k, v in en.items()}
        p = tuple(SPEC[g].split("/"))
        opts = base.ent[p][0][1].split("|") if p in base.ent else []
        C.ob("every documented option is selectable", g, set(tab) <= set(opts), w, "options %s" % opts)
        C.ob("every enumerator can be selected", g, set(en.values()) <= set(tab.values()) | {"Stencil_" + x for x in ()}, w, "without an option: %s" % (set(en.values()) - set(tab.values())))
        I, st, c = fresh(m)
        S = g.replace("get", "set", 1)
        for e, name in en.items():
            key = "%s(%s)" % (g, name)
            n0 = len(I.throws)
            st2, _ = I.call(st.fork(), "probe_set_" + g, [c, e])
            if not C.ob("setter accepts every enumerator", key, st2 is not None and len(I.throws) == n0, where(m, S), "no case for this enumerator"):
                continue
            frame(g, st2, key, where(m, S))
            lit = entries(st2, c).ent[p][2]
            C.ob("setter writes an option of the pattern", key, lit in opts, where(m, S), "writes %r" % (lit,))
            v = getter(g, st2, I, name, key)
            if v is not None:
                C.ob("what was set is what is read", key, v == e, where(m, g), "set %s, got %s" % (name, en.get(v, v)))
        for o in opts:
            key = "%s[%s]" % (g, o)
            st2 = st.fork()
            hh = entries(st2, c)
            ee = dict(hh.ent)
            ee[p] = (ee[p][0], ee[p][1], o)
            models_ph.put(st2, c, models_ph.PH((), ee, ()))
            v = getter(g, st2, I, o, key)
            if v is not None and o in tab:
                C.ob("option of the parameter file selects its documented scheme", key, en.get(v) == tab[o], where(m, g), "selects %s" % en.get(v, v))
            elif v is not None:
                C.ob("option of the parameter file selects its documented scheme", key, v in en, where(m, g), "selects %s" % (v,))
        C.use(I)
    # ---- contradictory settings are refused, consistent ones accepted
    tn, dn = names(m, "TimeIntegratorName"), names(m, "DealIntegratorName")
    cn, fn = names(m, "CollisionSchemeName"), names(m, "ForceType")
    wc = where(m, "isConsistent")
    for tag, a, b, g1, g2, bad in (("time integrator", tn, dn, "getTimeIntegrator", "getDealIntegrator", lambda x, y: x == "OTHER" and y == "NONE"),
                                   ("multiphase forcing", cn, fn, "getCollisionScheme", "getForcingScheme", lambda x, y: x == "BGK_MULTIPHASE" and y == "NO_FORCING")):
        I, st, c = fresh(m)
        I.nproc = 1
        for i, x in a.items():
            for j, y in b.items():
                st2, _ = I.call(st.fork(), "probe_set_" + g1, [c, i])
                st2, _ = I.call(st2, "probe_set_" + g2, [c, j])
                n0 = len(I.throws)
                st2, _ = I.call(st2, "probe_cfg_consistent", [c])
                C.ob("contradictory settings are refused, consistent ones accepted", "%s %s/%s" % (tag, x, y), (st2 is None) == bad(x, y) and (st2 is None or entries(st2, c).path == ()), wc,
                     "rejected" if st2 is None else "accepted")
        C.use(I)
    for np in (1, 2, 8):
        for ui in (0, 1):
            I, st, c = fresh(m)
            I.nproc = np
            st2, _ = I.call(st.fork(), "probe_set_isUserInteraction", [c, ui])
            st2, _ = I.call(st2, "probe_cfg_consistent", [c])
            C.ob("contradictory settings are refused, consistent ones accepted", "interaction %d on %d processes" % (ui, np), (st2 is None) == (np > 1 and ui == 1), wc, "")
    C.floor("contradictory settings are refused, consistent ones accepted", 100)
    C.floor("what was set is what is read", 120)
    C.floor("option of the parameter file selects its documented scheme", 80)
    C.floor("declared default satisfies its pattern", 60)
    C.floor("default limits are in order", 2)
    C.extra["accessors"] = len(SPEC)


RUN = {"U01": u01}
