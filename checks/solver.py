"""R01..: the solver classes - main loop, stop conditions, output schedule, streaming step, filtering, collision coupling."""
import re

import common
from common import absint, A, Broken
from absint import Ptr, Cond, Fn
import models
import models_la as LA
import models_ph
import models_io

STOP = LA.LA_RE + "|" + models_ph.PH_RE + r"|^(const )?dealii::(?!(Tensor|Point)<|internal::(NumberType|TensorSubscriptor))|^std::map<.*natrium::Boundary<|^boost::filesystem|boost::filesystem::(detail::)?\w+::|boost::(iterator_range|make_iterator_range|iterators|range|algorithm|replace_all|starts_with)|^std::(stoi|__cxx11::stoi)|natrium::VmultLimiter"
NQ = {2: 9, 3: 19}


def mod(dim=2):
    m = common.module("solver.cpp", extra_stop=STOP, extra=["-fno-access-control", "-DSDIM=%d" % dim])
    m.dim, m.ns = dim, NQ[dim]
    return m


def enum(m, n):
    I = common.interp(m, ())
    return I.call(absint.State(), "probe_enum_" + n, [])[1]


# ---- models of the collaborators ------------------------------------------------------
def m_adv(I, st, a, F):
    n = re.search(r"::(\w+)\(", F.d).group(1)
    k = ("adv." if "AdvectionOperator" in F.d else "pd.") + n
    if k not in I.parts:
        return st, I.fresh(F.ret, F.d, a)
    return st, I.parts[k]


def blocks(I, st, p):
    return [LA.blk_get(I, st, p, j) for j in range(LA.nblk(I, st, p))]


def put_all(I, st, p, f):
    rid, v = LA.tv_vals(I, st, p)
    for k, x in enumerate(v):
        I.store(st, Ptr(rid, 8 * k), f(x, k), "d")


def m_vmult(I, st, a, F):
    """dst_i = sum_j M_ij src_j (node by node; M_ij opaque)"""
    src = [LA.tv_vals(I, st, b)[1] for b in blocks(I, st, a[2])]
    I.event(st, "vmult", (a[0],))
    for i, p in enumerate(blocks(I, st, a[1])):
        def f(x, k):
            s = 0.0
            for j, y in enumerate(src):
                s = A.add(s, A.mul(A.sym("M%d_%d" % (i, j)), y[k]))
            return s
        put_all(I, st, p, f)
    return st, None


def dist(I, st, p, q):
    """distribution q of a DistributionFunctions object, through the library's own accessor"""
    st2, v = I.call(st, "probe_at", [p, q])
    return v


def m_hook_bc(I, st, a, F):
    kind = F.d.split("(")[0]
    I.event(st, kind, tuple(a))
    tgt = {"hook_bc": 1, "hook_bc_fg": 1, "hook_bc_g": 1}[kind]
    old = {"hook_bc": 0, "hook_bc_fg": 0, "hook_bc_g": 0}[kind]
    t = a[2] if kind == "hook_bc" else (a[3] if kind == "hook_bc_fg" else a[2])
    extra = [a[3]] if kind == "hook_bc_g" else []
    for q in range(1, I.m.ns):
        o = LA.tv_vals(I, st, dist(I, st, a[old], q))[1]
        put_all(I, st, dist(I, st, a[tgt], q), lambda x, k: A.func(kind, x, o[k], t, *extra))
    return st, None


def m_limiter(I, st, a, F):
    src = [LA.tv_vals(I, st, b)[1] for b in blocks(I, st, a[2])]
    for i, p in enumerate(blocks(I, st, a[1])):
        put_all(I, st, p, lambda x, k: A.func("limit", x, src[i][k]))
    I.event(st, "limiter", ())
    return st, None


def m_step(I, st, a, F):
    b = [LA.tv_vals(I, st, x)[1] for x in blocks(I, st, a[3])]
    I.event(st, "step", tuple(a))
    for i, p in enumerate(blocks(I, st, a[1])):
        put_all(I, st, p, lambda x, k: A.func("step", x, b[i][k] if i < len(b) else 0.0, a[4], a[5]))
    return st, A.sym("new_dt")


def ev(kind, ret=None):
    def f(I, st, a, F):
        I.event(st, kind, tuple(a[1:]) if kind not in ("processor",) else tuple(a))
        return st, ret
    return f


def m_filter_hook(I, st, a, F):
    I.event(st, "applyFilter", tuple(a))
    put_all(I, st, a[1], lambda x, k: A.func("filtered", x))
    return st, None


def m_named(I, st, a, F):
    return LA.m_name(I, st, a, F)


HOOKS = [
    (r"^hook_bc(_fg|_g)?(\(|$)", m_hook_bc), (r"^hook_step", m_step), (r"^hook_filter", m_filter_hook), (r"^hook_processor", ev("processor")),
    (r"^hook_sysvec", lambda I, st, a, F: (st, I.parts["sysvec"])), (r"^hook_call", lambda I, st, a, F: (I.event(st, "call", (absint.cstr(I, st, a[0]),)), (st, None))[1]),
    (r"natrium::AdvectionOperator<2ul>::get\w+\(", m_adv), (r"natrium::ProblemDescription<2ul>::get\w+\(", m_adv), (r"natrium::VmultLimiter::apply\(", m_limiter),
    (r"BlockSparseMatrix::vmult<|BlockMatrixBase<.*::vmult", m_vmult), (r"BlockSparseMatrix::vmult\(", m_vmult),
    (r"natrium::CollisionModel::setTimeStep\(", ev("collision.setTimeStep")), (r"natrium::SolverStats<2ul>::(\w+)\(", lambda I, st, a, F: (I.event(st, "stats." + re.search(r"::(\w+)\(", F.d).group(1), tuple(a[1:])), (st, None))[1]),
    (r"natrium::TurbulenceStats<2ul>::(\w+)\(", lambda I, st, a, F: (I.event(st, "turb." + re.search(r"::(\w+)\(", F.d).group(1), tuple(a[1:])), (st, None))[1]),
    (r"natrium::MPI_sync|^MPI_sync", models.nop),
]


def cm_virtual(I, st, a):
    I.event(st, "collision.setTimeStep", tuple(a[1:]))
    return st, None


absint.BUILTIN["__cm_virtual"] = cm_virtual
absint.BUILTIN["__mesh_virtual"] = lambda I, st, a: (st, A.sym("rank"))


class Sol:
    """a solver object whose parts are the stand-ins"""

    def __init__(self, m, extra=(), cfg=None, comp=False, start=None, i=None, nproc=2, dg=0, parts=None):
        self.m = m
        self.I = I = common.interp(m, list(extra) + HOOKS + list(LA.LA))
        I.nodes = 2
        I.cfg = {k: A.sym(v) if isinstance(v, str) else v for k, v in (cfg or {}).items()}
        self.st = st = absint.State()
        R = lambda n, s=4096: Ptr(I.new_region(st, n, s), 0)
        self.s = R("solver", 1 << 16)
        self.p = {k: R(k) for k in ("cfg", "adv", "pd", "cm", "ss", "ts", "dofs", "sysmat", "sysvec", "doftrg", "mesh")}
        sp = R("spdof", 16)
        I.store(st, sp, self.p["doftrg"], "p"); I.store(st, Ptr(sp.r, 8), 0, "p")
        sm = R("spmesh", 16)
        I.store(st, sm, self.p["mesh"], "p"); I.store(st, Ptr(sm.r, 8), 0, "p")
        self.nu = A.sym("nu")
        I.parts = {"adv.getSystemMatrix": self.p["sysmat"], "adv.getLocallyOwnedDofs": self.p["dofs"], "adv.getLocallyRelevantDofs": self.p["dofs"], "adv.getDoFHandler": sp,
                   "pd.getMesh": sm, "pd.getViscosity": self.nu, "sysvec": self.p["sysvec"]}
        I.store(st, self.p["adv"], Ptr("g:_ZTV7AdvStub", 16), "p")
        st.mem["vt:mesh"] = absint.Region("vt:mesh", "vt:mesh", 4096, lambda off, ty: Fn("__mesh_virtual"), st, "vtable")
        st.mem["vt:cm"] = absint.Region("vt:cm", "vt:cm", 4096, lambda off, ty: Fn("__cm_virtual"), st, "vtable")
        I.store(st, self.p["cm"], Ptr("vt:cm", 16), "p")
        I.store(st, self.p["mesh"], Ptr("vt:mesh", 16), "p")
        I.store(st, self.s, Ptr("g:_ZTVN7natrium%sILm%dEEE" % ("21CompressibleCFDSolver" if comp else "9CFDSolver", m.dim), 16), "p")
        st.x[("nblk",) + models.key(self.p["sysvec"])] = m.ns - 1
        for j in range(m.ns - 1):
            b = LA.blk_get(I, st, self.p["sysvec"], j)
            LA.tv_new(I, st, b, 2)
            LA.name_region(I, st, b, "b%d" % j)
        self.dt, self.t = A.sym("dt"), A.sym("t")
        self.start = A.sym("i0") if start is None else start
        self.i = A.sym("i") if i is None else i
        a = [self.s, self.p["cfg"], self.p["adv"], self.p["pd"], self.p["cm"], self.p["ss"], self.p["ts"], self.p["dofs"], A.sym("s"), self.dt, self.start, self.i, self.t, nproc, dg]
        self.st, _ = I.call(st, parts or ("probe_cparts" if comp else "probe_parts"), a)
        if self.st is None:
            raise Broken("the stand-in solver could not be set up")
        self.st.events[:] = []

    def call(self, fn, *a, **kw):
        st, v = self.I.call(kw.get("st") or self.st, fn, [self.s] + list(a))
        return st, v


def where(m, pat):
    pat = pat.replace("2ul", "%dul" % getattr(m, "dim", 2))
    for n, F in m.funcs.items():
        if re.search(pat, F.d) and F.file:
            return common.src(F)
    return pat


def show(x):
    return A.show(x) if isinstance(x, A.Poly) or A.isnum(x) else repr(x)


def same(x, y):
    if A.isnum(x) and A.isnum(y):
        return float(x) == float(y)
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return x == y
    return not isinstance(x, (Cond, absint.IteVal)) and show(A.sub(x, y)) in ("0", "0.0")


# ---- R01: the main loop -----------------------------------------------------------------
def loop_models(k):
    """collide, stream, ... as events; stopConditionMet() is true at its (k+1)-th evaluation"""
    def stop(I, st, a, F):
        n = st.x.get(("stopcount",), 0)
        st.x[("stopcount",)] = n + 1
        I.event(st, "stop", (I.call(st, "probe_i", [a[0]])[1],))
        return st, int(n >= k)

    def e(kind, nargs=0):
        def f(I, st, a, F):
            I.event(st, kind, (I.call(st, "probe_i", [a[0]])[1],) + tuple(a[1:1 + nargs]))
            return st, None
        return f
    C = r"natrium::(Compressible)?CFDSolver<2ul>::"
    return [(C + r"stopConditionMet\(", stop), (C + r"collide\(", e("collide")), (C + r"stream\(", e("stream")), (C + r"gStream\(", e("gstream")), (C + r"(filter|compressibleFilter)\(", e("filter")),
            (C + r"(output|compressibleOutput)\(", e("output", 2)), (C + r"initializeDistributions\(", e("init")),
            (r"natrium::CompressibleTurbulenceStats<2ul>::apply", models.nop)]


def seq(st):
    out = []
    for e in st.events:
        if e.kind in ("stop", "collide", "stream", "gstream", "filter", "output", "init", "processor"):
            out.append((e.kind,) + tuple(show(x) for x in e.args))
    return out


@common.dims
def r01(C, dim=2):
    m = mod(dim)
    for comp in (False, True):
        cls = "CompressibleCFDSolver" if comp else "CFDSolver"
        w = where(m, r"natrium::%s<2ul>::run\(" % cls)
        for k in (0, 1, 2, 3, 5):
            for np in (0, 1, 3):
                for i0 in ((0, 1, 2, 7, 1000) if comp else (None, 0, 7)):
                    S = Sol(m, loop_models(k), comp=comp, start=i0, i=0, nproc=np, cfg={"isOutputCompressibleTurbulenceStatistics": 0})
                    st, _ = S.call("probe_crun" if comp else "probe_run")
                    C.use(S.I)
                    key = "%s steps=%d processors=%d start=%s" % (cls, k, np, "any" if i0 is None else i0)
                    if not C.ob("run() returns", key, st is not None, w, "no normal return"):
                        continue
                    at = lambda j: show(A.add(S.start, float(j)) if not A.isnum(S.start) else S.start + j)
                    exp = [("init", at(0))] if comp and i0 <= 1 else []
                    exp.append(("collide", at(0)))
                    for j in range(k):
                        exp += [("stop", at(j)), ("output", at(j), at(j), "0"), ("stream", at(j + 1))] + ([("gstream", at(j + 1))] if comp else []) + [("filter", at(j + 1)), ("collide", at(j + 1))]
                        exp += [("processor", str(q)) for q in range(np)]
                    exp += [("stop", at(k)), ("output", at(k), at(k), "1")]
                    got = [tuple(str(x) for x in e) for e in seq(st)]
                    exp = [tuple(str(x).replace(".0", "") for x in e) for e in exp]
                    got = [tuple(str(x).replace(".0", "") for x in e) for e in got]
                    d = next((n for n, (x, y) in enumerate(zip(got + [None] * len(exp), exp + [None] * len(got))) if x != y), None)
                    C.ob("one time step is output, advance, stream, filter, collide, processors; the run starts with a collision and ends with the final output", key, got == exp, w,
                         "" if d is None else "event %d is %s instead of %s" % (d, (got + [None] * 99)[d], (exp + [None] * 99)[d]))
    # ---- stop conditions, for every iteration, time, limit and residual
    w = where(m, r"natrium::CFDSolver<2ul>::stopConditionMet\(")

    def residuals(I, st, a, F):
        I.event(st, "stats.calculateResiduals", tuple(a[1:]))
        I.call(st, "probe_setres", [I.sol, A.sym("resU"), A.sym("resR")])
        return st, None
    S = Sol(m, [(r"natrium::SolverStats<2ul>::calculateResiduals\(", residuals)], cfg={"getNumberOfTimeSteps": "N", "getSimulationEndTime": "tend", "getConvergenceThreshold": "thr"})
    S.I.sol = S.s
    S.I.call(S.st, "probe_setres", [S.s, A.sym("oldU"), A.sym("oldR")])
    st, v = S.call("probe_stop")
    C.use(S.I)
    if not C.ob("run() returns", "stopConditionMet", st is not None, w, ""):
        return
    calls = [e for e in st.events if e.kind == "stats.calculateResiduals"]
    for i in (0, 1, 50, 99, 100, 101, 199, 200, 300, 1000, 1001):
        for n in (0, 1, i - 1, i, i + 1, 10 ** 8):
            if n < 0:
                continue
            for t, te in ((0.0, 1.0), (1.0, 1.0), (1.5, 1.0), (0.999, 1.0), (0.0, 0.0)):
                for ru, rr, th in ((1e-3, 1e-3, 1e-6), (1e-9, 1e-3, 1e-6), (1e-3, 1e-9, 1e-6), (1e-6, 1e-9, 1e-6)):
                    E = A.NumEval(1, {"i": float(i), "N": float(n), "t": t, "tend": te, "resU": ru, "resR": rr, "thr": th, "i0": 0.0, "oldU": 1.0, "oldR": 1.0})
                    got = E.cond(v) if isinstance(v, Cond) else bool(E.ev(v)) if isinstance(v, A.Poly) else bool(v)
                    exp = i >= n or t >= te or (i % 100 == 0 and ru < th)
                    C.ob("the run stops exactly at the step limit, the end time, or convergence (tested every 100 iterations)",
                         "i=%d N=%d t=%g/%g res=%g/%g thr=%g" % (i, n, t, te, ru, rr, th), got == exp, w, "stops: %s, expected %s" % (got, exp))
                    if i % 100 == 0 and not (i >= n or t >= te):
                        nres = sum(all(E.cond(g[0]) for g in e.guards) for e in calls)
                        C.ob("residuals are recomputed before they are compared", "i=%d" % i, nres == 1, w, "%d evaluations" % nres)
    C.floor("one time step is output, advance, stream, filter, collide, processors; the run starts with a collision and ends with the final output", 100)
    C.floor("the run stops exactly at the step limit, the end time, or convergence (tested every 100 iterations)", 500)


# ---- R02: the output and checkpoint schedule ----------------------------------------------
def out_models():
    def e(kind, fn=lambda I, st, a: (), ret=None):
        def f(I, st, a, F):
            I.event(st, kind, tuple(fn(I, st, a)))
            return st, ret
        return f

    def fname(I, st, a, k=1):
        return (st.x.get(("file", a[k].r), "?"),)

    def ckctor(I, st, a, F):
        st.x[("ck", a[0].r)] = (a[1], models_io.text(models.tostr(I, st, a[2])), a[3])
        return st, None

    def ckwrite(I, st, a, F):
        c = st.x[("ck", a[0].r)]
        g = lambda n: I.call(st, "probe_status_" + n, [a[4]])[1]
        I.event(st, "checkpoint", c + (a[1], a[2], a[3], g("it"), g("time"), g("scaling"), g("fe")))
        return st, None

    def path_ctor(I, st, a, F):
        if len(a) > 1 and isinstance(a[1], Ptr):
            models.sput(st, a[0], models.tostr(I, st, a[1]))
        return st, None

    def path_div(I, st, a, F):
        models.sput(st, a[0], absint.Opaque(models_io.text(models.tostr(I, st, a[0])) + "/" + models_io.text(models.tostr(I, st, a[1]))))
        return st, a[0]

    def names(I, st, a):
        b, e = I.load(st, a[2], "p"), I.load(st, Ptr(a[2].r, a[2].o + 8), "p")
        return fname(I, st, a) + tuple(models_io.text(models.tostr(I, st, Ptr(b.r, b.o + 32 * k))) for k in range((e.o - b.o) // 32))
    D = r"dealii::DataOut\w*<.*>::"
    return models_io.IO + [
        (D + r"add_data_vector", e("field", lambda I, st, a: (a[1], models_io.text(models.tostr(I, st, a[2]))))),
        (D + r"write_vtu\(", e("vtu", fname)), (D + r"write_pvtu_record\(", e("pvtu", names)), (r"dealii::GridOut::write_vtk", e("grid", lambda I, st, a: fname(I, st, a, 2))),
        (D + r"build_patches", e("patches", lambda I, st, a: a[-2:-1])),
        (r"natrium::Checkpoint<2ul>::Checkpoint\(", ckctor), (r"natrium::Checkpoint<2ul>::write\(", ckwrite), (r"natrium::Checkpoint<2ul>::~Checkpoint\(", models.nop),
        (r"boost::filesystem::path::path", path_ctor), (r"boost::filesystem::path::operator/=|boost::filesystem::path::append", path_div),
        (r"natrium::is_MPI_rank_0\(", lambda I, st, a, F: (st, Cond("t", ("rank0",)))),
        (r"n_mpi_processes", lambda I, st, a, F: (st, 2)), (r"n_active_cells", lambda I, st, a, F: (st, 3)), (r"locally_owned_subdomain", lambda I, st, a, F: (st, A.sym("rank"))),
        (r"dealii::Vector<float>::operator[(\\[]", lambda I, st, a, F: (st, Ptr(I.new_region(st, "float", 8), 0))), (r"dealii::Vector<float>::size\(", lambda I, st, a, F: (st, 3)), (r"addAnalyticSolutionToOutput\(", e("analytic")),
        (r"SolverConfiguration::getOutputDirectory", lambda I, st, a, F: (models.sput(st, a[0], absint.Opaque("dir")), (st, None))[1]),
        (r"^clock$|^clock\(", lambda I, st, a, F: (st, 0)),
    ]


@common.dims
def r02(C, dim=2):
    m = mod(dim)
    for comp in (False, True):
        cls = "CompressibleCFDSolver" if comp else "CFDSolver"
        fn = "compressibleOutput" if comp else "output"
        w = where(m, r"natrium::%s<2ul>::%s\(" % (cls, fn))
        S = Sol(m, out_models(), comp=comp, cfg={"getOutputSolutionInterval": "nS", "getOutputTableInterval": "nT", "getOutputCheckpointInterval": "nC", "isSwitchOutputOff": "off",
                                                 "isOutputTurbulenceStatistics": "turb", "getSedgOrderOfFiniteElement": "p"})
        st, _ = S.call("probe_coutput" if comp else "probe_output", S.i, A.sym("fin"))
        C.use(S.I)
        if not C.ob("output returns", cls, st is not None, w, ""):
            continue
        V = [S.I.call(st, "probe_vec", [S.s, k])[1] for k in range(6)]
        fields = {"rho": V[0], "ux": V[1], "uy": V[2]}
        if dim == 3:
            fields["uz"] = V[5]
        if comp:
            fields.update(T=V[3], shockSensor=V[4])
        F = S.I.call(st, "probe_f", [S.s])[1]
        pops = [(0, F)] + ([(1, S.I.call(st, "probe_g", [S.s])[1])] if comp else [])
        lit = lambda x: models_io.text(x) if not isinstance(x, Ptr) else x
        OUT = ("grid", "field", "vtu", "pvtu", "stats.printNewLine", "turb.printNewLine", "turb.addToReynoldsStatistics", "turb.addReynoldsStatisticsToOutput", "checkpoint", "patches", "analytic")
        dirn = "{dir}"
        strip = lambda t: t[1:-1] if isinstance(t, str) and t.startswith("{{") else t
        exp_ck = sorted((w_, p_, S.p["mesh"], S.p["doftrg"]) for w_, p_ in pops)
        R = "output is written exactly at the configured iterations and at the end"
        for i in (0, 1, 2, 5, 6, 7, 10, 20, 30, 35, 210, 211, 1000):
            for i0 in (0, 5, 30):
                if i < i0:
                    continue
                for nS, nT, nC in ((1, 1, 1), (5, 7, 10), (10, 5, 7), (7, 10, 5), (10 ** 9, 1, 10 ** 9), (2 * 10 ** 8, 3, 10 ** 8), (10 ** 8, 2, 2 * 10 ** 8), (10 ** 8 + 1, 1, 10 ** 8 + 1)):
                    for fin in (0, 1):
                        for off, tu in ((0, 0), (1, 0), (0, 1), (1, 1)):
                            E = A.NumEval(1, {"i": float(i), "i0": float(i0), "nS": float(nS), "nT": float(nT), "nC": float(nC), "fin": float(fin), "off": float(off), "turb": float(tu), "p": 3.0,
                                              "t": 0.25, "s": 2.0, "rank": 0.0})
                            E.free = True
                            happen = [e for e in st.events if e.kind in OUT and all(rank0(g[0]) or E.cond(g[0]) for g in e.guards)]
                            key = "%s i=%d start=%d intervals=%d/%d/%d final=%d off=%d turbulence=%d" % (cls, i, i0, nS, nT, nC, fin, off, tu)
                            kinds = [e.kind for e in happen]
                            sol = not off and (i % nS == 0 and nS <= 10 ** 8 or fin)
                            tab = not off and i % nT == 0
                            ck = not off and (i % nC == 0 or fin) and nC <= 10 ** 8 and i != i0
                            bad = []
                            for k, want in (("vtu", sol), ("pvtu", sol), ("stats.printNewLine", tab), ("turb.printNewLine", tab and tu), ("checkpoint", ck and len(pops)),
                                            ("turb.addToReynoldsStatistics", tu and not off), ("turb.addReynoldsStatisticsToOutput", sol and tu), ("analytic", sol)):
                                if kinds.count(k) != int(want):
                                    bad.append("%s %d times instead of %d" % (k, kinds.count(k), int(want)))
                            if not comp and kinds.count("grid") != int(not off and i == i0):
                                bad.append("mesh file written %d times" % kinds.count("grid"))
                            C.ob(R, key, not bad, w, "; ".join(bad))
                            if bad:
                                continue
                            if sol:
                                got = {strip(e.args[1]): e.args[0] for e in happen if e.kind == "field"}
                                C.ob("a solution file holds the fields under their own names", cls, got.pop("subdomain", None) is not None and got == fields, w, "%s, expected %s" % (got, fields))
                                v = [strip(e.args[0]) for e in happen if e.kind == "vtu"][0]
                                C.ob("output files are named by process and iteration", cls, v == dirn + "/t_{1*rank}.{1*i}.vtu", w, v)
                                v = [tuple(strip(x) for x in e.args) for e in happen if e.kind == "pvtu"][0]
                                C.ob("output files are named by process and iteration", cls + " master", v == (dirn + "/t_{1*rank}.{1*i}.pvtu", "t_0.{1*i}.vtu", "t_1.{1*i}.vtu"), w, str(v))
                            if ck:
                                cks = [e for e in happen if e.kind == "checkpoint"]
                                got = sorted((e.args[2], e.args[4], e.args[3], e.args[5]) for e in cks)
                                C.ob("a checkpoint stores the populations of the current state", cls, got == exp_ck, w, "%s, expected %s" % (got, exp_ck))
                                for e in cks:
                                    C.ob("a checkpoint is labelled with the current iteration, time, scaling and order", "%s %d" % (cls, e.args[2]),
                                         same(e.args[0], S.i) and strip(e.args[1]) == dirn + "/checkpoint" and same(e.args[6], S.i) and same(e.args[7], S.t) and same(e.args[8], A.sym("s")) and same(e.args[9], A.sym("p")),
                                         w, str([lit(x) for x in e.args]))
    C.floor("output is written exactly at the configured iterations and at the end", 3000)
    C.floor("a checkpoint is labelled with the current iteration, time, scaling and order", 10)


def rank0(c):
    return isinstance(c, Cond) and c.k == "t" and c.v == ("rank0",)


# ---- R03: streaming, filtering and collision as the solver couples them -------------------
def vals(S, st, p):
    return LA.tv_vals(S.I, st, p)[1]


def pops(S, st, D, ghost=False):
    """values of all populations of a DistributionFunctions object"""
    return [vals(S, st, S.I.call(st, "probe_gat" if ghost else "probe_at", [D, q])[1]) for q in range(S.m.ns)]


def expect(C, rule, key, got, exp, w, name):
    bad = [(q, k) for q in range(len(exp)) for k in range(len(exp[q])) if not same(got[q][k], exp[q][k])]
    det = ""
    if bad:
        q, k = bad[0]
        det = "%s%d at node %d is %s instead of %s (%d differ)" % (name, q, k, show(got[q][k])[:160], show(exp[q][k])[:160], len(bad))
    return C.ob(rule, key, not bad, w, det)


def col_model(calls):
    def f(I, st, a, F):
        comp = len(a) > 11
        n = [re.sub(r".*::", "", x) for x in ()]
        d = {"cfg": a[0], "pd": a[1], "f": a[2]}
        if comp:
            d.update(g=a[3], rho=a[4], u=a[5], T=a[6], mask=a[7], dofs=a[8], nu=a[9], dt=a[10], stencil=a[11], init=a[12])
        else:
            d.update(rho=a[3], u=a[4], dofs=a[5], nu=a[6], dt=a[7], stencil=a[8], init=a[9])
        I.event(st, "collision", (d["nu"], d["dt"], d["init"]))
        calls.append((d, st.fork()))
        ub = I.load(st, d["u"], "p")
        us = [("u%d" % k, Ptr(ub.r, ub.o + k * I.m_vecsize)) for k in range(I.m.dim)]
        for nm, p in [("rho", d["rho"])] + us + ([("T", d["T"]), ("mask", d["mask"])] if comp else []):
            put_all(I, st, p, lambda x, k, nm=nm: A.func("collided_" + nm, x))
        for nm in ("f", "g") if comp else ("f",):
            for q in range(I.m.ns):
                put_all(I, st, I.call(st, "probe_at", [d[nm], q])[1], lambda x, k, nm=nm: A.func("collided_" + nm, x))
        return st, None
    return [(r"natrium::selectCollision<2ul>\(", f), (r"CFDSolverUtilities::getMinimumVertexDistance<2ul>", lambda I, st, a, F: (I.event(st, "mesh", (a[0],)), (st, A.sym("dx")))[1])]


@common.dims
def r03(C, dim=2):
    m = mod(dim)
    SL, DG = enum(m, "SEMI_LAGRANGIAN"), enum(m, "SEDG")
    BGK, AM4, BDF2 = enum(m, "BGK_STANDARD"), enum(m, "BGK_MULTI_AM4"), enum(m, "BGK_MULTI_BDF2")
    M = lambda src, q, k: sum_(A.mul(A.sym("M%d_%d" % (q - 1, j)), src[j + 1][k]) for j in range(m.ns - 1))
    R1 = "streaming advects exactly the moving populations of every set, with the boundary conditions of the end of the step"
    for comp in (False, True):
        cls = "CompressibleCFDSolver" if comp else "CFDSolver"
        w = where(m, r"natrium::%s<2ul>::stream\(" % cls)
        for adv, an in ((SL, "semi-Lagrangian"), (DG, "SEDG")):
            for lim in (0, 1):
                for sch, sn in ((BGK, "BGK"), (AM4, "AM4"), (BDF2, "BDF2")):
                    for di in (1, 2, 3, 10):
                        S = Sol(m, cfg={"getAdvectionScheme": adv, "isVmultLimiter": lim, "getCollisionScheme": sch}, comp=comp, start=5, i=5 + di)
                        I = S.I
                        D = [I.call(S.st, "probe_" + n, [S.s])[1] for n in ("f", "fp", "fe")]
                        old = [pops(S, S.st, d) for d in D]
                        gold = pops(S, S.st, I.call(S.st, "probe_g", [S.s])[1]) if comp else None
                        st, _ = S.call("probe_cstream" if comp else "probe_stream")
                        C.use(I)
                        key = "%s %s limiter=%d %s step %d" % (cls, an, lim, sn, di)
                        if not C.ob("stream() returns", key, st is not None, w, ""):
                            continue
                        multi = sch != BGK and di > 1
                        for n, (d, nm) in enumerate(zip(D, ("f", "former f", "former feq"))):
                            o = old[n]
                            exp = [list(o[0])]
                            for q in range(1, m.ns):
                                row = []
                                for k in range(len(o[q])):
                                    if n and not multi:
                                        v = o[q][k]
                                    elif adv == SL:
                                        v = A.func("hook_bc_fg" if comp and n == 0 else "hook_bc", M(o, q, k), o[q][k], A.add(S.t, S.dt))
                                        if lim:
                                            v = A.func("limit", v, o[q][k])
                                    else:
                                        v = A.func("step", o[q][k], A.sym("b%d[%d]" % (q - 1, k)) if False else bval(S, st, q - 1, k), 0.0, S.dt)
                                    row.append(v)
                                exp.append(row)
                            expect(C, R1, key + " " + nm, pops(S, st, d), exp, w, nm + " ")
                        if comp:
                            expect(C, R1, key + " g untouched by stream()", pops(S, st, I.call(st, "probe_g", [S.s])[1]), gold, w, "g")
                            for e in st.events:
                                if e.kind == "hook_bc_fg":
                                    C.ob(R1, key + " bc sees g", e.args[2] == I.call(st, "probe_g", [S.s])[1], w, "")
                        tm, ti = I.call(st, "probe_time", [S.s])[1], I.call(st, "probe_tidt", [S.s])[1]
                        nd = S.dt if adv == SL else A.sym("new_dt")
                        C.ob("time advances by exactly the step that was streamed", key, same(tm, A.add(S.t, nd)), w, "time becomes %s" % show(tm))
                        C.ob("the next time step is the one the integrator asks for", key, same(ti, nd), w, "time step becomes %s" % show(ti))
                        sc = [e.args for e in st.events if e.kind == "collision.setTimeStep"]
                        if adv != SL:
                            C.ob("the collision model follows the time step", key, len(sc) >= 1 and same(sc[-1][0], nd), w, "told %s" % (sc,))
                            C.ob("the boundary data of the operator are used", key, all(e.args[1] is not None for e in st.events if e.kind == "step"), w, "")
                        expect(C, "ghost copies equal the populations", key, pops(S, st, D[0], True), pops(S, st, D[0]), w, "ghosted f")
    # ---- g streaming
    w = where(m, r"natrium::CompressibleCFDSolver<2ul>::gStream\(")
    for adv, an in ((SL, "semi-Lagrangian"), (DG, "SEDG")):
        for lim in (0, 1):
            S = Sol(m, cfg={"getAdvectionScheme": adv, "isVmultLimiter": lim, "getCollisionScheme": BGK, "getHeatCapacityRatioGamma": "gamma"}, comp=True, start=5, i=9)
            I = S.I
            G, Fp = I.call(S.st, "probe_g", [S.s])[1], I.call(S.st, "probe_f", [S.s])[1]
            o, fo = pops(S, S.st, G), pops(S, S.st, Fp)
            st, _ = S.call("probe_gstream")
            C.use(I)
            key = "gStream %s limiter=%d" % (an, lim)
            if not C.ob("stream() returns", key, st is not None, w, ""):
                continue
            exp = [list(o[0])]
            for q in range(1, m.ns):
                row = []
                for k in range(len(o[q])):
                    if adv == SL:
                        v = A.func("hook_bc_g", M(o, q, k), fo[q][k], S.t, A.sym("gamma"))
                        if lim:
                            v = A.func("limit", v, o[q][k])
                    else:
                        v = A.func("step", o[q][k], bval(S, st, q - 1, k), 0.0, S.dt)
                    row.append(v)
                exp.append(row)
            expect(C, R1, key, pops(S, st, G), exp, w, "g")
            expect(C, R1, key + " f untouched", pops(S, st, Fp), fo, w, "f")
            tm, ti = I.call(st, "probe_time", [S.s])[1], I.call(st, "probe_tidt", [S.s])[1]
            C.ob("time advances by exactly the step that was streamed", key, same(tm, S.t), w, "time becomes %s" % show(tm))
    # ---- filter
    R2 = "the filter acts on every population, exactly every FilterInterval iterations"
    for comp in (False, True):
        w = where(m, r"natrium::CompressibleCFDSolver<2ul>::compressibleFilter\(" if comp else r"natrium::CFDSolver<2ul>::filter\(")
        for on in (0, 1):
            for i in (1, 2, 3, 6, 7, 12):
                for n in (1, 2, 3, 7, 100):
                    S = Sol(m, cfg={"isFiltering": on, "getFilterInterval": n}, comp=comp, start=0, i=i)
                    sets = [("f", S.I.call(S.st, "probe_f", [S.s])[1])] + ([("g", S.I.call(S.st, "probe_g", [S.s])[1])] if comp else [])
                    old = [pops(S, S.st, d) for _, d in sets]
                    st, _ = S.call("probe_cfilter" if comp else "probe_filter")
                    C.use(S.I)
                    key = "%s filtering=%d i=%d interval=%d" % ("compressible" if comp else "incompressible", on, i, n)
                    if not C.ob("stream() returns", key, st is not None, w, ""):
                        continue
                    act = on and i % n == 0
                    for (nm, d), o in zip(sets, old):
                        expect(C, R2, key + " " + nm, pops(S, st, d), [[A.func("filtered", x) if act else x for x in r] for r in o], w, nm)
                        if on:
                            expect(C, "ghost copies equal the populations", key + " " + nm, pops(S, st, d, True), pops(S, st, d), w, "ghosted " + nm)
                    C.ob(R2, key + " dof handler", all(e.args[0] == S.p["doftrg"] for e in st.events if e.kind == "applyFilter"), w, "")
    # ---- collision
    R3 = "the collision gets the solver's own fields, viscosity, time step and velocity set, and its results become the solver's state"
    for comp in (False, True):
        cls = "CompressibleCFDSolver" if comp else "CFDSolver"
        w = where(m, r"natrium::%s<2ul>::collide\(" % cls)
        calls = []
        S = Sol(m, col_model(calls), comp=comp, start=0, i=4, cfg={"getCFL": "cfl", "getSedgOrderOfFiniteElement": "p"})
        I = S.I
        V = lambda st, k: vals(S, st, I.call(st, "probe_vec", [S.s, k])[1])
        I.m_vecsize = I.call(S.st, "probe_vec", [S.s, 2])[1].o - I.call(S.st, "probe_vec", [S.s, 1])[1].o
        sets = [("f", I.call(S.st, "probe_f", [S.s])[1])] + ([("g", I.call(S.st, "probe_g", [S.s])[1])] if comp else [])
        old = [pops(S, S.st, d) for _, d in sets]
        idx = [(0, "rho"), (1, "u0"), (2, "u1")] + ([(5, "u2")] if dim == 3 else []) + ([(3, "T")] if comp else [])
        fo = [V(S.st, k) for k, _ in idx]
        st, _ = S.call("probe_ccollide" if comp else "probe_collide")
        C.use(I)
        if not C.ob("stream() returns", cls + " collide", st is not None, w, ""):
            continue
        C.ob(R3, cls + " once", len(calls) == 1, w, "%d collisions" % len(calls))
        if len(calls) != 1:
            continue
        d, cst = calls[0]
        for k, want in [("cfg", S.p["cfg"]), ("pd", S.p["pd"]), ("f", sets[0][1]), ("dofs", S.p["dofs"])] + ([("g", sets[1][1])] if comp else []):
            C.ob(R3, "%s %s" % (cls, k), d[k] == want, w, "%s, expected %s" % (d[k], want))
        C.ob(R3, cls + " viscosity", same(d["nu"], S.nu), w, show(d["nu"]))
        C.ob(R3, cls + " not in initialisation mode", d["init"] == 0, w, "%s" % (d["init"],))
        ub = I.load(cst, d["u"], "p")
        arg = [d["rho"]] + [Ptr(ub.r, ub.o + k * I.m_vecsize) for k in range(dim)] + ([d["T"]] if comp else [])
        for (_, nm), p, o in zip(idx, arg, fo):
            C.ob(R3, "%s %s in" % (cls, nm), all(same(x, y) for x, y in zip(vals(S, cst, p), o)) and len(o) > 0, w, "the collision sees %s" % [show(x) for x in vals(S, cst, p)])
        umax = I.call(st, "probe_umax", [S.s])[1]
        exp = A.div(A.mul(A.sym("cfl"), A.sym("dx")), A.mul(umax, A.mul(A.sym("p"), A.sym("p"))))
        E = [A.NumEval(sd, {}) for sd in (1, 2, 3)]
        C.ob(R3, cls + " time step", all(abs(e.ev(d["dt"]) - e.ev(exp)) < 1e-9 * abs(e.ev(exp)) for e in E), w, "time step %s instead of %s" % (show(d["dt"])[:200], show(exp)[:200]))
        C.ob(R3, cls + " mesh", all(e.args[0] == S.p["mesh"] for e in st.events if e.kind == "mesh"), w, "")
        C.ob(R3, cls + " velocity set", I.load(st, d["stencil"], "p") == I.load(st, I.call(st, "probe_stencil", [S.s])[1], "p") and d["stencil"] == I.call(st, "probe_stencil", [S.s])[1], w, "")
        for (nm, p), o in zip(sets, old):
            expect(C, R3, "%s %s out" % (cls, nm), pops(S, st, p), [[A.func("collided_" + nm, x) for x in r] for r in o], w, nm)
            expect(C, "ghost copies equal the populations", "%s %s" % (cls, nm), pops(S, st, p, True), pops(S, st, p), w, "ghosted " + nm)
        for (k, nm), o in zip(idx, fo):
            expect(C, R3, "%s %s out" % (cls, nm), [V(st, k)], [[A.func("collided_" + nm, x) for x in o]], w, nm)
    C.floor(R1, 100)
    C.floor(R2, 100)
    C.floor(R3, 30)


def sum_(it):
    s = 0.0
    for x in it:
        s = A.add(s, x)
    return s


def bval(S, st, j, k):
    return LA.tv_vals(S.I, S.st, LA.blk_get(S.I, S.st, S.p["sysvec"], j))[1][k]


RUN = {"R01": r01, "R02": r02, "R03": r03}
