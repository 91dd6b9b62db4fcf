"""K01: checkpoints restore what was saved; R04: the state a simulation starts or restarts from."""
import re

import common
from common import absint, A
from absint import Ptr, Cond
import models
import models_la as LA
import models_io
import solver as SV
from solver import Sol, where, show, same, pops, expect, put_all, vals, mod

text, sput, tostr = models_io.text, models.sput, models.tostr


# ---- paths, directories, mesh files -------------------------------------------------------
def t(I, st, p):
    return text(tostr(I, st, p))


def m_path_copy(I, st, a, F):
    sput(st, a[0], tostr(I, st, a[1]) if len(a) > 1 and isinstance(a[1], Ptr) else "")
    return st, a[0]


def m_path_div(I, st, a, F):
    l, r = (tostr(I, st, a[1]), tostr(I, st, a[2]))
    s = text(l) + "/" + text(r)
    sput(st, a[0], models_io.val(s))
    return st, None


def m_path_diveq(I, st, a, F):
    sput(st, a[0], models_io.val(text(tostr(I, st, a[0])) + "/" + text(tostr(I, st, a[1]))))
    return st, a[0]


def m_filename(I, st, a, F):
    s = tostr(I, st, a[1])
    sput(st, a[0], s.split("/")[-1] if isinstance(s, str) else s)
    return st, None


def m_ext(I, st, a, F):
    s = tostr(I, st, a[1])
    n = s.split("/")[-1]
    sput(st, a[0], n[n.rindex("."):] if "." in n else "")
    return st, None


def m_replace(I, st, a, F):
    s = tostr(I, st, a[0])
    sput(st, a[0], s.replace(tostr(I, st, a[1]), tostr(I, st, a[2])))
    return st, None


def m_starts(I, st, a, F):
    p = a[1]
    s = tostr(I, st, p)
    if not isinstance(s, str):
        s = tostr(I, st, I.load(st, p, "p"))
    return st, int(tostr(I, st, a[0]).startswith(s))


def m_stoi(I, st, a, F):
    mm = re.match(r"\s*[+-]?\d+", tostr(I, st, a[0]))
    if not mm:
        return models.throws(I, st, a, F)
    return st, int(mm.group(0))


def it_pos(st, p):
    return st.x.get(("dirit", p.r, p.o), 0)


def m_it_set(v):
    def f(I, st, a, F):
        st.x[("dirit", a[0].r, a[0].o)] = v if v >= 0 else len(I.files)
        return st, None
    return f


def m_it_neq(I, st, a, F):
    return st, int(it_pos(st, a[0]) != it_pos(st, a[1]))


def m_it_deref(I, st, a, F):
    r = Ptr(I.new_region(st, "entry", 64), 0)
    sput(st, r, I.files[it_pos(st, a[0])])
    return st, r


def m_it_inc(I, st, a, F):
    st.x[("dirit", a[0].r, a[0].o)] = it_pos(st, a[0]) + 1
    return st, a[0]


def vec_ptrs(I, st, v):
    b, e = I.load(st, v, "p"), I.load(st, Ptr(v.r, v.o + 8), "p")
    return [I.load(st, Ptr(b.r, b.o + 8 * k), "p") for k in range((e.o - b.o) // 8)]


def m_prep(kind):
    def f(I, st, a, F):
        ps = vec_ptrs(I, st, a[1])
        st.x[("st", a[0].r)] = tuple(tuple(LA.tv_vals(I, st, p)[1]) for p in ps)
        I.event(st, kind, (len(ps),))
        return st, None
    return f


def m_save(I, st, a, F):
    I.event(st, "save", (a[0], t(I, st, a[1])))
    return st, None


def m_load(I, st, a, F):
    st.x[("loaded",)] = t(I, st, a[1])
    I.event(st, "load", (a[0], t(I, st, a[1])))
    return st, None


def m_deser(I, st, a, F):
    for q, p in enumerate(vec_ptrs(I, st, a[1])):
        put_all(I, st, p, lambda x, k: A.sym("saved%d_%d" % (q, k)))
    I.event(st, "deserialize", (st.x.get(("loaded",)),))
    return st, None


def m_interp(I, st, a, F):
    src = st.x[("st", a[0].r)]
    ps = vec_ptrs(I, st, a[1])
    I.event(st, "interpolate", (len(ps), len(src)))
    for q, p in enumerate(ps):
        put_all(I, st, p, lambda x, k: A.func("refined", src[q][k]))
    return st, None


def m_extract(I, st, a, F):
    n = st.x.get(("nread", a[0].r), 0)
    st.x[("nread", a[0].r)] = n + 1
    st.x[("readfile",)] = st.x.get(("file", a[0].r))
    I.store(st, a[1], I.tokens.get(n, A.sym("token%d" % n)), "d" if "<double>" in F.d else "i64")
    return st, a[0]


def m_minmax(I, st, a, F):
    # {sum, min, max, min_index, max_index, avg}; with one process every one of these is the value itself
    if A.isnum(a[1]) and I.tokens:
        for o in (0, 8, 16, 32):
            I.store(st, Ptr(a[0].r, a[0].o + o), a[1], "d")
        return st, None
    I.event(st, "reduce", ())
    I.store(st, Ptr(a[0].r, a[0].o), A.func("globalsum", a[1]), "d")
    I.store(st, Ptr(a[0].r, a[0].o + 8), A.func("globalmin", a[1]), "d")
    I.store(st, Ptr(a[0].r, a[0].o + 16), A.func("globalmax", a[1]), "d")
    I.store(st, Ptr(a[0].r, a[0].o + 32), A.func("globalavg", a[1]), "d")
    return st, None


def m_mpi(I, st, a, F):
    """max<T>(value, comm); broadcast<T>(comm, value, root) of what the first process read"""
    n, t = re.search(r"MPI::(max|broadcast)<([\w ]+)>", F.d).groups()
    v = I.load(st, a[0] if n == "max" else a[1], {"double": "d", "float": "f", "unsigned long": "i64", "long": "i64", "unsigned long long": "i64"}.get(t, "i32"))
    if A.isnum(v) and I.tokens:
        return st, v
    return st, A.func("globalmax", v if n == "max" or I.rank0 else 0.0)


def m_levels(I, st, a, F):
    if a[0].r == I.parts["mesh"].r:
        return st, I.levels[0] + st.x.get(("refined",), 0)
    return st, I.levels[1]


def m_exec(I, st, a, F):
    st.x[("refined",)] = st.x.get(("refined",), 0) + 1
    I.event(st, "refine", (a[0],))
    return st, None


IO = models_io.IO + [
    (r"boost::filesystem::path::path\(|boost::filesystem::path::operator=\(", m_path_copy), (r"boost::filesystem::path::operator/=|path::operator/=<|boost::filesystem::path& boost::filesystem::path::append", m_path_diveq),
    (r"boost::filesystem::operator/", m_path_div), (r"boost::filesystem::path::string\b", lambda I, st, a, F: (st, a[0]) if F.ret == "p" else (sput(st, a[0], tostr(I, st, a[1])), (st, None))[1]),
    (r"boost::filesystem::path::c_str\(", models.m_str_cstr), (r"boost::filesystem::directory_entry::path\(", lambda I, st, a, F: (st, a[0])),
    (r"boost::filesystem::path::filename\(", m_filename), (r"boost::filesystem::extension|boost::filesystem::path::extension\(", m_ext),
    (r"boost::algorithm::replace_all", m_replace), (r"boost::algorithm::starts_with", m_starts), (r"std::__cxx11::sto(i|l|ul|ull)\(", m_stoi),
    (r"iterator_range_base<boost::filesystem::directory_iterator.*::begin\(", m_it_set(0)), (r"iterator_range_base<boost::filesystem::directory_iterator.*::end\(", m_it_set(-1)),
    (r"boost::iterators::operator!=<boost::filesystem::directory_iterator|operator!=<boost::filesystem::directory_iterator", m_it_neq),
    (r"iterator_facade_base<boost::filesystem::directory_iterator.*::operator\*", m_it_deref), (r"iterator_facade_base<boost::filesystem::directory_iterator.*::operator\+\+", m_it_inc),
    (r"boost::filesystem::directory_iterator::|boost::make_iterator_range<boost::filesystem|iterator_range_base<boost::filesystem::directory_iterator.*::~", models.nop),
    (r"boost::filesystem::path::~path", models.nop),
    (r"SolutionTransfer<.*::prepare_for_serialization", m_prep("serialize")), (r"SolutionTransfer<.*::prepare_for_coarsening_and_refinement", m_prep("prepare")),
    (r"SolutionTransfer<.*::deserialize", m_deser), (r"SolutionTransfer<.*::interpolate", m_interp), (r"SolutionTransfer<.*::~?SolutionTransfer", models.nop),
    (r"Triangulation(Base)?<\d, \d>::save\(", m_save), (r"Triangulation(Base)?<\d, \d>::load\(", m_load), (r"Triangulation(Base)?<\d, \d>::n_global_levels", m_levels), (r"Triangulation(Base)?<\d, \d>::execute_coarsening_and_refinement", m_exec),
    (r"_M_extract<", m_extract), (r"dealii::Utilities::MPI::min_max_avg\(", m_minmax), (r"dealii::Utilities::MPI::(max|broadcast)<[\w ]+>\(", m_mpi), (r"natrium::is_MPI_rank_0\(", lambda I, st, a, F: (st, I.rank0)),
    (r"ProblemDescription<2ul>::refineAndTransform|ProblemDescription<2ul>::transform", SV.ev("transform")), (r"natrium::MPI_sync", models.nop),
    (r"AdvectionOperator<2ul>::(isDG|getOrderOfFiniteElement)\(", lambda I, st, a, F: (st, I.parts[re.search(r"::(\w+)\(", F.d).group(1)])),
]


def base(m, comp=False, **kw):
    S = Sol(m, IO + kw.pop("models", []), comp=comp, **kw)
    I = S.I
    I.parts["mesh"] = S.p["mesh"]
    I.parts["isDG"] = 0
    I.parts["getOrderOfFiniteElement"] = A.sym("order")
    for n, f in (("n_global_levels", m_levels), ("save", m_save), ("load", m_load), ("execute", m_exec), ("prepare", lambda I, st, a, F: (st, 1))):
        absint.BUILTIN["__mesh_v%d" % I.call(S.st, "probe_slot_" + n, [])[1]] = lambda I, st, a, f=f: f(I, st, a, None)
    absint.BUILTIN["__pd_v%d" % I.call(S.st, "probe_slot_transform", [])[1]] = lambda I, st, a: (I.event(st, "transform", tuple(a[1:])), (st, None))[1]

    def virt(n, dflt):
        def f(off, ty):
            k = "__%s_v%d" % (n, off - 16)
            return absint.Fn(k if k in absint.BUILTIN else dflt)
        return f
    S.st.mem["vt:mesh"] = absint.Region("vt:mesh", "vt:mesh", 4096, virt("mesh", "__mesh_virtual"), S.st, "vtable")
    S.st.mem["vt:pd"] = absint.Region("vt:pd", "vt:pd", 4096, virt("pd", "__mesh_virtual"), S.st, "vtable")
    I.store(S.st, S.p["pd"], Ptr("vt:pd", 16), "p")
    I.files, I.levels, I.rank0, I.streams, I.tokens = [], (3, 3), 1, {}, {}
    sp = Ptr(I.new_region(S.st, "spsten", 16), 0)
    I.store(S.st, sp, I.call(S.st, "probe_stencil", [S.s])[1], "p"); I.store(S.st, Ptr(sp.r, 8), 0, "p")
    I.parts["adv.getStencil"] = sp
    sm = Ptr(I.new_region(S.st, "spmesh2", 16), 0)
    I.store(S.st, sm, S.p["mesh"], "p"); I.store(S.st, Ptr(sm.r, 8), 0, "p")
    I.parts["adv.getMesh"] = sm
    I.parts["adv.getFe"] = sm
    I.parts["adv.getOrderOfFiniteElement"] = A.sym("order")
    return S


def ck(S, st, it, g, latest, d="D"):
    I = S.I
    dr = Ptr(I.new_region(st, "dir", 64), 0)
    sput(st, dr, d)
    c = Ptr(I.new_region(st, "ck", 256), 0)
    st2, _ = I.call(st, "probe_ck", [c, it, dr, g, latest])
    return st2, c


SETS = {2: ("D2Q9", "D2Q19V", "D2Q19H", "D2Q777", "D2Q25H"), 3: ("D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27", "D3Q45", "D3Q77", "RD3Q27", "D3V27")}


@common.dims
def k01(C, dim=2):
    m = mod(dim)
    w = where(m, r"natrium::Checkpoint<2ul>::Checkpoint\(")
    # ---- file names
    R = "the files of a checkpoint are determined by its iteration and kind"
    names = {}
    for g in (0, 1):
        for latest in (0, 1):
            for it in (1, 2, 7, 1000, "sym"):
                for files in ([], ["D/checkpoint_3.stat", "D/checkpoint_3.data", "D/checkpointG_3.stat", "D/checkpointG_3.data"],
                              ["D/checkpoint_900.data", "D/checkpointG_20.stat", "D/checkpoint_100.stat", "D/checkpoint_20.stat", "D/checkpointG_1000.stat", "D/natrium.log"],
                              ["D/checkpoint_2.stat", "D/checkpointG_2.stat"], ["D/checkpoint_5.stat", "D/checkpointG_6.stat", "D/checkpoint_6.stat", "D/checkpointG_5.stat", "D/checkpoint_4.stat"]):
                    S = base(m)
                    S.I.files = files
                    n = A.sym("it") if it == "sym" else it
                    st, c = ck(S, S.st, n, g, latest)
                    C.use(S.I)
                    key = "%s it=%s latest=%d files=%s" % ("g" if g else "f", it, latest, "+".join(f[12:-5] for f in files if f.endswith(".stat")))
                    if not C.ob(R, key + " returns", st is not None, w, "no normal return"):
                        continue
                    if it == "sym" and latest:
                        continue
                    pre = "checkpointG_" if g else "checkpoint_"
                    exp = text(n)
                    if it == 1 and latest:
                        own = [int(re.match(r"D/%s(\d+)\.stat$" % pre, f).group(1)) for f in files if re.match(r"D/%s(\d+)\.stat$" % pre, f)]
                        exp = str(max(own + [1]))
                    for f, e in (("probe_cksf", ".stat"), ("probe_ckdf", ".data")):
                        got = text(tostr(S.I, st, S.I.call(st, f, [c])[1]))
                        want = "D/%s%s%s" % (pre, exp, e)
                        C.ob(R, key + " " + e, got == want, w, "%s instead of %s" % (got, want))
    # ---- writing
    ww = where(m, r"natrium::Checkpoint<2ul>::write\(")
    order = None
    for g in (0, 1):
        for rank0 in (1, 0):
            S = base(m, comp=True)
            I = S.I
            I.rank0 = rank0
            st, c = ck(S, S.st, A.sym("it"), g, 0)
            stat = Ptr(I.new_region(st, "status", 64), 0)
            st, _ = I.call(st, "probe_status", [stat, A.sym("it"), A.sym("time"), A.sym("scaling"), A.sym("fe")])
            D = I.call(st, "probe_g" if g else "probe_f", [S.s])[1]
            want = [tuple(v) for v in pops(S, st, D)]
            st2, _ = I.call(st, "probe_ckwrite", [c, S.s, D, stat])
            C.use(I)
            key = "write %s rank0=%d" % ("g" if g else "f", rank0)
            if not C.ob("write and load return", key, st2 is not None, ww, ""):
                continue
            sf = text(tostr(I, st2, I.call(st2, "probe_cksf", [c])[1]))
            df = text(tostr(I, st2, I.call(st2, "probe_ckdf", [c])[1]))
            fs = [k for k in st2.x if k[0] == "file" and st2.x[k] == sf]
            C.ob("one process writes the status", key, len(fs) == rank0, ww, "%d status files opened" % len(fs))
            if rank0 and len(fs) == 1:
                toks = models_io.content(st2, Ptr(fs[0][1], 0)).split()
                toks = [x.strip("{}").replace("1*", "") for x in toks]
                order = order or toks
                C.ob("the status holds iteration, time, scaling and order", key, sorted(toks) == sorted(["it", "time", "scaling", "fe"]) and toks == order, ww, "status file: %s" % toks)
                prec = models_io.precision(I, st2, Ptr(fs[0][1], 0))
                C.ob("floating point numbers are written with full precision", key, prec >= 17, ww, "precision is %s digits" % prec)
            saves = [(e.kind,) + tuple(e.args) for e in st2.events if e.kind in ("serialize", "save")]
            C.ob("mesh and populations go to the data file", key, saves == [("serialize", m.ns), ("save", S.p["mesh"], df)], ww, "%s, expected %s" % (saves, df))
            got = [v for k, v in st2.x.items() if k[0] == "st"]
            C.ob("every population is saved, in the order of the directions", key, len(got) == 1 and list(got[0]) == want or len(got) == 1 and all(same(x, y) for r, s in zip(got[0], want) for x, y in zip(r, s)) and len(got[0]) == len(want), ww,
                 "")
    # ---- loading
    wl = where(m, r"natrium::Checkpoint<2ul>::load\(")
    for g in (0, 1):
        for rank0 in (1, 0):
            for lo, ln in ((3, 3), (3, 4), (3, 5), (4, 3)):
                if g and ln != lo:
                    continue
                S = base(m, comp=True)
                I = S.I
                I.rank0, I.levels = rank0, (lo, ln)
                st, c = ck(S, S.st, A.sym("it"), g, 0)
                if g:
                    st, _ = I.call(st, "probe_nref", [0])
                stat = Ptr(I.new_region(st, "status", 64), 0)
                D = I.call(st, "probe_g" if g else "probe_f", [S.s])[1]
                st2, _ = I.call(st, "probe_ckload", [c, S.s, D, stat])
                C.use(I)
                key = "load %s rank0=%d levels %d->%d" % ("g" if g else "f", rank0, lo, ln)
                if ln < lo:
                    C.ob("a restart on a coarser mesh is refused", key, st2 is None, wl, "accepted")
                    continue
                if not C.ob("write and load return", key, st2 is not None, wl, ""):
                    continue
                sf = text(tostr(I, st2, I.call(st2, "probe_cksf", [c])[1]))
                df = text(tostr(I, st2, I.call(st2, "probe_ckdf", [c])[1]))
                if rank0:
                    C.ob("a checkpoint is read from the files it was written to", key, st2.x.get(("readfile",)) == sf, wl, "reads %s" % st2.x.get(("readfile",)))
                ld = [e.args for e in st2.events if e.kind in ("deserialize",)]
                C.ob("a checkpoint is read from the files it was written to", key + " data", len(ld) == 1 and ld[0][0] == df, wl, "reads %s" % (ld,))
                for f, nm in (("it", "it"), ("time", "time"), ("scaling", "scaling"), ("fe", "fe")):
                    v = I.call(st2, "probe_status_" + f, [stat])[1]
                    tok = "token%d" % order.index(nm) if order and nm in order else "?"
                    want = "globalmax(1*%s)" % tok if rank0 else "globalmax(0"
                    C.ob("the restored status is the saved status, on every process", key + " " + nm, want in show(v), wl, "%s is restored as %s, saved as %s" % (nm, show(v), tok))
                ref = ln - lo if not g else 0
                exp = []
                for q in range(m.ns):
                    row = []
                    for k in range(I.nodes):
                        v = A.sym("saved%d_%d" % (q, k))
                        for _ in range(ref):
                            v = A.func("refined", v)
                        row.append(v)
                    exp.append(row)
                expect(C, "every population is restored to its own direction", key, pops(S, st2, D), exp, wl, "population ")
                expect(C, "every population is restored to its own direction", key + " ghosted", pops(S, st2, D, True), exp, wl, "ghosted population ")
                if not g:
                    nre = sum(1 for e in st2.events if e.kind == "refine")
                    C.ob("the mesh is refined to the configured level", key, nre == ref, wl, "%d refinements" % nre)
    # ---- the order of the finite elements
    for g in (0, 1):
        for saved, now in ((2, 2), (3, 3), (2, 3), (3, 2), (1, 4)):
            S = base(m, comp=True)
            I = S.I
            I.parts["getOrderOfFiniteElement"] = I.parts["adv.getOrderOfFiniteElement"] = now
            I.tokens = {order.index("fe") if order and "fe" in order else 3: saved}
            st, c = ck(S, S.st, A.sym("it"), g, 0)
            if g:
                st, _ = I.call(st, "probe_nref", [0])
            D = I.call(st, "probe_g" if g else "probe_f", [S.s])[1]
            st2, _ = I.call(st, "probe_ckload", [c, S.s, D, Ptr(I.new_region(st, "status", 64), 0)])
            C.use(I)
            C.ob("a restart needs the order of the finite elements of the checkpoint", "%s saved %d now %d" % ("g" if g else "f", saved, now), (st2 is not None) == (saved == now), wl,
                 "refused" if st2 is None else "accepted")
    # ---- every velocity set, and the scaling of its velocities
    RS = "a checkpoint of every velocity set can be resumed"
    RC = "populations saved with another scaling are converted or refused"
    for q in SETS[dim]:
        for g in (0, 1):
            for old, new in ((1.0, 1.0), (2.0, 2.0), (1.0, 4.0), (4.0, 1.0)):
                if old != new and q != "D%dQ%d" % (dim, m.ns):
                    continue
                S = base(m, comp=True)
                I = S.I
                I.tokens = {order.index("scaling") if order and "scaling" in order else 2: old}
                st, _ = I.call(S.st, "probe_set_" + q, [S.s, new])
                I.store(st, I.parts["adv.getStencil"], I.call(st, "probe_stencil", [S.s])[1], "p")
                st, c = ck(S, st, A.sym("it"), g, 0)
                if g:
                    st, _ = I.call(st, "probe_nref", [0])
                D = I.call(st, "probe_g" if g else "probe_f", [S.s])[1]
                st2, _ = I.call(st, "probe_ckload", [c, S.s, D, Ptr(I.new_region(st, "status", 64), 0)])
                C.use(I)
                key = "%s %s scaling %g" % ("g" if g else "f", q, old)
                if old == new:
                    C.ob(RS, key, st2 is not None, wl, "refused")
                else:
                    raw = st2 is not None and all(same(x, A.sym("saved%d_%d" % (j, k))) for j, r in enumerate(pops(S, st2, D)) for k, x in enumerate(r))
                    C.ob(RC, key + " now %g" % new, not raw, wl, "accepted as populations of the new velocities: every restored velocity is multiplied by %g" % (new / old))
    C.floor(RS, 2 * len(SETS[dim]))
    C.floor(RC, 4)
    C.floor("every population is restored to its own direction", 10)
    C.floor(R, 60)



# ---- R04 ------------------------------------------------------------------------------------
def feq_virtual(I, st, a):
    """getEquilibriumDistributions(feq, u, rho): one opaque function per direction"""
    _, u = models.elems(I, st, a[2])
    d = I.call(st, "probe_vecd", [a[1]])[1]
    for q in range(I.m.ns):
        I.store(st, Ptr(d.r, d.o + 8 * q), A.func("feq%d" % q, a[3], *u), "d")
    return st, None


def coll_virtual(I, st, a):
    """collideAll(f, rho, u, dofs, initialising)"""
    I.event(st, "collideAll", (a[5],))
    ub = I.load(st, a[3], "p")
    us = [vals_p(I, st, Ptr(ub.r, ub.o + k * I.m_vecsize)) for k in range(I.m.dim)]
    I.collided_u.append(us)
    put_all(I, st, a[2], lambda x, k: A.func("collided_rho", x))
    for q in range(I.m.ns):
        put_all(I, st, I.call(st, "probe_at", [a[1], q])[1], lambda x, k: A.func("collided_f", x))
    return st, None


def vals_p(I, st, p):
    return LA.tv_vals(I, st, p)[1]


def m_norm(I, st, a, F):
    n = st.x.get(("nres",), 0)
    st.x[("nres",)] = n + 1
    return st, I.residuals[n] if n < len(I.residuals) else 0.0


def tri(m, cls, cfg, comp, parts=None, models_=()):
    S = base(m, comp=comp, cfg=cfg, parts=parts, models=list(models_))
    I, st = S.I, S.st
    I.collided_u, I.residuals = [], []
    I.m_vecsize = I.call(st, "probe_vec", [S.s, 2])[1].o - I.call(st, "probe_vec", [S.s, 1])[1].o
    absint.BUILTIN["__cm_v%d" % I.call(st, "probe_slot_feq", [])[1]] = feq_virtual
    absint.BUILTIN["__cm_v%d" % I.call(st, "probe_slot_collideAll", [])[1]] = coll_virtual

    def f(off, ty):
        k = "__cm_v%d" % (off - 16)
        return absint.Fn(k if k in absint.BUILTIN else "__cm_virtual")
    st.mem["vt:cm"] = absint.Region("vt:cm", "vt:cm", 4096, f, st, "vtable")
    return S


def fields(S, st, comp):
    return [vals(S, st, S.I.call(st, "probe_vec", [S.s, k])[1]) for k in [0, 1, 2] + ([5] if S.m.dim == 3 else []) + ([3] if comp else [])]


def moments(S, f, g, k):
    """density, velocity, temperature by definition (directions and speed of sound of the stencil)"""
    E, cs2 = S.E, S.cs2
    r = SV.sum_(x[k] for x in f)
    u = [A.div(SV.sum_(A.mul(E[q][a], f[q][k]) for q in range(len(f))), r) for a in range(S.m.dim)]
    return r, u


@common.dims
def r04(C, dim=2):
    m = mod(dim)
    ADV = [SV.enum(m, n) for n in ("SEDG", "SEMI_LAGRANGIAN")]
    EQ, IT, CIT = SV.enum(m, "EQUILIBRIUM"), SV.enum(m, "ITERATIVE"), SV.enum(m, "COMPRESSIBLE_ITERATIVE")
    R = "the distributions a simulation starts from are the equilibrium of the initial density and velocity of their own node"
    w = where(m, r"natrium::CFDSolver<2ul>::initializeDistributions\(")
    for sch, nm in ((EQ, "EQUILIBRIUM"), (CIT, "COMPRESSIBLE_ITERATIVE")):
        S = tri(m, "CFDSolver", {"getInitializationScheme": sch}, False)
        old = fields(S, S.st, 0)
        st, _ = S.call("probe_init")
        C.use(S.I)
        if not C.ob("initialisation returns", nm, st is not None, w, ""):
            continue
        got = pops(S, st, S.I.call(st, "probe_f", [S.s])[1])
        exp = [[A.func("feq%d" % q, *[o[k] for o in old]) for k in range(S.I.nodes)] for q in range(m.ns)]
        expect(C, R, nm, got, exp, w, "population ")
        expect(C, "initialisation keeps velocity and (without iterating) density", nm, fields(S, st, 0), old, w, "field ")
        C.ob("initialisation does not advance time", nm, same(S.call("probe_time", st=st)[1], S.t), w, "")
    # iterative procedure
    for N in (0, 1, 3):
        for res in ([], [1.0], [5.0, 5.0], [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], [1.0, 0.4]):
            S = tri(m, "CFDSolver", {"getInitializationScheme": IT, "getIterativeInitializationNumberOfIterations": N, "getIterativeInitializationResidual": 0.5}, False,
                    models_=[(r"natrium::CFDSolver<2ul>::stream\(", lambda I, st, a, F: (I.event(st, "stream", ()), (st, None))[1]), (r"MPI::Vector::norm_sqr\(", m_norm)])
            S.I.residuals = res
            old = fields(S, S.st, 0)
            st, _ = S.call("probe_init")
            C.use(S.I)
            key = "ITERATIVE max %d residuals %s" % (N, res)
            if not C.ob("initialisation returns", key, st is not None, w, ""):
                continue
            ev = [e.kind if e.kind == "stream" else "collide" if bool(e.args[0]) else "collide without init flag" for e in st.events if e.kind in ("stream", "collideAll")]
            n = 0
            while n <= N:
                n += 1
                if (res[n - 1] if n <= len(res) else 0.0) <= 0.5:
                    break
            C.ob("the iterative procedure streams and collides (keeping the velocity) until the residual is reached or the iterations are used up", key, ev == ["stream", "collide"] * n, w,
                 "%s, expected %d repetitions" % (ev, n))
            f = fields(S, st, 0)
            expect(C, "the iterative procedure keeps the initial velocity", key, f[1:], old[1:], w, "velocity component ")
            exp = list(old[0])
            for _ in range(n):
                exp = [A.func("collided_rho", x) for x in exp]
            expect(C, "the iterative procedure takes over the density of the last collision", key, [f[0]], [exp], w, "density ")
            C.ob("initialisation does not advance time", key, same(S.call("probe_time", st=st)[1], S.t), w, "")
    # ---- density and velocity of restored distributions
    R2 = "density and velocity after a restart are the moments of the restored distributions"
    wd = where(m, r"natrium::CFDSolver<2ul>::calculateDensitiesAndVelocities\(")
    S = tri(m, "CFDSolver", {}, False)
    sten(S)
    f = pops(S, S.st, S.I.call(S.st, "probe_f", [S.s])[1])
    st, _ = S.call("probe_dens")
    C.use(S.I)
    if C.ob("initialisation returns", "calculateDensitiesAndVelocities", st is not None, wd, ""):
        got = fields(S, st, 0)
        for k in range(S.I.nodes):
            r, u = moments(S, f, None, k)
            for nm, x, y in [("density", got[0][k], r)] + [("velocity " + "xyz"[a], got[1 + a][k], u[a]) for a in range(dim)]:
                C.ob(R2, "%s node %d" % (nm, k), not isinstance(x, (Cond, absint.IteVal)) and A.vanishes(A.sub(x, y)), wd, "%s instead of %s" % (show(x)[:200], show(y)[:200]))
    C.floor(R2, 6)
    # ---- compressible: moments of the initial distributions
    R3 = "density, velocity and temperature of the initial distributions are the prescribed ones (compressible)"
    wc = where(m, r"natrium::CompressibleCFDSolver<2ul>::initializeDistributions\(")
    for parts, nq in (("probe_cparts25", 25 if dim == 2 else 45), ("probe_cparts", m.ns)):
        S = tri(m, "CompressibleCFDSolver", {"getInitializationScheme": EQ, "getHeatCapacityRatioGamma": "gamma"}, True, parts)
        S.nq = nq
        sten(S)
        old = fields(S, S.st, 1)
        st, _ = S.call("probe_cinit")
        C.use(S.I)
        key = "%d directions" % nq
        if not C.ob("initialisation returns", "compressible " + key, st is not None, wc, ""):
            continue
        f, g = [[vals(S, st, S.I.call(st, "probe_at", [S.I.call(st, p, [S.s])[1], q])[1]) for q in range(nq)] for p in ("probe_f", "probe_g")]
        expect(C, "initialisation keeps velocity and (without iterating) density", "compressible " + key, fields(S, st, 1), old, wc, "field ")
        C.ob("initialisation does not advance time", "compressible " + key, same(S.call("probe_time", st=st)[1], S.t), wc, "")
        for k in range(S.I.nodes):
            r, *u, T = [x[k] for x in old]
            rs = SV.sum_(x[k] for x in f)
            tests = [("density", rs, r)]
            for a in range(dim):
                tests.append(("momentum " + "xyz"[a], SV.sum_(A.mul(S.E[q][a], f[q][k]) for q in range(nq)), A.mul(r, u[a])))
            gm = SV.sum_(x[k] for x in g)
            tests.append(("energy of the internal degrees of freedom", gm, A.mul(A.mul(rs, T), A.sub(A.div(2.0, A.sub(A.sym("gamma"), 1.0)), float(dim)))))
            if nq > m.ns:
                for a in range(dim):
                    for b in range(a, dim):
                        p = SV.sum_(A.mul(A.mul(S.E[q][a], S.E[q][b]), f[q][k]) for q in range(nq))
                        y = A.mul(r, A.add(A.mul(u[a], u[b]), A.mul(T, S.cs2) if a == b else 0.0))
                        tests.append(("pressure tensor " + "xyz"[a] + "xyz"[b], p, y))
            for nm, x, y in tests:
                C.ob(R3, "%s %s node %d" % (key, nm, k), A.vanishes(A.sub(x, y), ranges=RANGES), wc, "the %s differs from the prescribed one" % nm)
    C.floor(R3, 20)
    initial(C, m)
    # ---- compressible: restart
    R4 = "the temperature after a restart is that of the restored distributions"
    w4 = where(m, r"natrium::CompressibleCFDSolver<2ul>::CompressibleCFDSolver\(")
    for sl in (0, 1):
        S = tri(m, "CompressibleCFDSolver", {"getHeatCapacityRatioGamma": "gamma", "getRestartAtIteration": 7, "isOutputCompressibleTurbulenceStatistics": 0}, True,
                models_=[(r"natrium::CFDSolver<2ul>::CFDSolver\(", models.nop), (r"natrium::Checkpoint<2ul>::exists", lambda I, st, a, F: (st, 1)), (r"natrium::Checkpoint<2ul>::load\(", m_ckload)])
        I, st = S.I, S.st
        I.cfg["getAdvectionScheme"] = ADV[sl]
        sten(S)
        f = pops(S, st, I.call(st, "probe_f", [S.s])[1])
        a = [I.call(st, p, [S.s])[1] for p in ("probe_cfgp", "probe_pdp")]
        st2, _ = I.call(st, "probe_cctor", [S.s] + a)
        C.use(I)
        key = "restart %s" % ("semi-Lagrangian" if sl else "SEDG")
        if not C.ob("initialisation returns", key, st2 is not None, w4, ""):
            continue
        expect(C, "a restart keeps the restored distributions", key, pops(S, st2, I.call(st2, "probe_f", [S.s])[1]), f, w4, "population ")
        g = pops(S, st2, I.call(st2, "probe_g", [S.s])[1])
        gg = pops(S, st2, I.call(st2, "probe_g", [S.s])[1], True)
        expect(C, "the ghosted internal energies are up to date", key, gg, g, w4, "ghosted population ")
        got = fields(S, st2, 1)
        loaded = any("saved_g" in show(x) for r in g for x in r)
        C.ob("the internal energies are restored from the checkpoint", key, loaded, w4, "the distributions of the internal energies are not read from the checkpoint")
        for k in range(I.nodes):
            r, u = moments(S, f, None, k)
            cv = A.div(1.0, A.sub(A.sym("gamma"), 1.0))
            e = SV.sum_(A.mul(A.div(SV.sum_(A.mul(A.sub(S.E[q][a], u[a]), A.sub(S.E[q][a], u[a])) for a in range(dim)), S.cs2), f[q][k]) for q in range(m.ns))
            T = A.div(A.add(e, SV.sum_(x[k] for x in g)), A.mul(A.mul(2.0, r), cv))
            for nm, x, y in [("density", got[0][k], r), ("temperature", got[-1][k], T)] + [("velocity " + "xyz"[a], got[1 + a][k], u[a]) for a in range(dim)]:
                C.ob(R4, "%s %s node %d" % (key, nm, k), A.vanishes(A.sub(x, y), ranges=RANGES), w4, "the %s differs" % nm)
            if not loaded:
                # reconstructed from f: at least the energy of the internal degrees of freedom is that of the temperature
                T2 = A.div(e, A.mul(float(dim), r))
                y = A.mul(A.mul(r, T2), A.sub(A.mul(2.0, cv), float(dim)))
                C.ob("reconstructed internal energies belong to the temperature of the restored distributions", "%s node %d" % (key, k), A.vanishes(A.sub(SV.sum_(x[k] for x in g), y), ranges=RANGES),
                     where(m, r"applyCheckpointToG"), "the energy of the internal degrees of freedom is not rho*T*(2*Cv-D)")


CELLS = [(1, (0, 1)), (1, (1, 2)), (0, (2, 3)), (1, (3, 9)), (1, (4, 0))]      # (owned by this process, degrees of freedom); dofs 2 and 9 belong to other processes
OWN = (0, 1, 3, 4)


def c_pos(st, p):
    return st.x.get(("cell", p.r, p.o), 0)


def c_set(v):
    def f(I, st, a, F):
        st.x[("cell", a[0].r, a[0].o)] = v if v >= 0 else len(CELLS)
        return st, None
    return f


def c_copy(I, st, a, F):
    st.x[("cell", a[0].r, a[0].o)] = c_pos(st, a[1])
    return st, a[0]


def c_neq(I, st, a, F):
    eq = c_pos(st, a[0]) == c_pos(st, a[1])
    return st, int(eq if "operator==" in F.d else not eq)


def c_inc(I, st, a, F):
    st.x[("cell", a[0].r, a[0].o)] = c_pos(st, a[0]) + 1
    return st, a[0]


def c_dofs(I, st, a, F):
    d = I.load(st, a[1], "p")
    for k, x in enumerate(CELLS[c_pos(st, a[0])][1]):
        I.store(st, Ptr(d.r, d.o + 4 * k), x, "i32")
    return st, None


def point(I, st, p):
    """name of the point an argument holds: the coordinates of node k are 10 k, 10 k + 1, ..."""
    x = [I.load(st, Ptr(p.r, p.o + 8 * d), "d") for d in range(I.m.dim)]
    return "point%d" % (x[0] // 10) if all(A.isnum(y) and y == x[0] + d for d, y in enumerate(x)) else "point?"


CELLM = [
    (r"DoFHandler<\d, \d>::begin_active\(", c_set(0)), (r"DoFHandler<\d, \d>::end\(", c_set(-1)),
    (r"(Tria|DoF|CellAccessor).*::operator(!=|==)", c_neq), (r"Tria\w*Iterator<.*::operator\+\+", c_inc), (r"Tria\w*Iterator<.*::operator(->|\*)", lambda I, st, a, F: (st, a[0])),
    (r"Tria\w*Iterator<.*::(Tria\w*Iterator\(|operator=)", c_copy), (r"CellAccessor<.*::is_locally_owned\(", lambda I, st, a, F: (st, CELLS[c_pos(st, a[0])][0])), (r"get_dof_indices\(", c_dofs),
    (r"IndexSet::is_element\(", lambda I, st, a, F: (st, int(a[1] in OWN))),
]


def initial(C, m):
    R = "every node starts with the prescribed initial density, velocity and temperature of its own position"
    for what, comp in (("rho", 0), ("u", 0), ("T", 1)):
        cls = "CompressibleCFDSolver" if comp else "CFDSolver"
        w = where(m, r"natrium::%s<2ul>::applyInitial%s\(" % (cls, {"rho": "Densities", "u": "Velocities", "T": "Temperatures"}[what]))
        S = tri(m, cls, {}, comp, models_=CELLM)
        I, st = S.I, S.st
        fn = {}
        for n in ("rho", "u", "T"):
            fp = Ptr(I.new_region(st, "fun_" + n, 64), 0)
            I.store(st, fp, Ptr("vt:fun", 16), "p")
            sp = Ptr(I.new_region(st, "spfun_" + n, 16), 0)
            I.store(st, sp, fp, "p"); I.store(st, Ptr(sp.r, 8), 0, "p")
            absint.BUILTIN["__pd_v%d" % I.call(st, "probe_slot_%sfun" % n, [])[1]] = lambda I, st, a, sp=sp: (st, sp)
        slot = I.call(st, "probe_slot_value", [])[1]
        st.mem["vt:fun"] = absint.Region("vt:fun", "vt:fun", 4096, lambda off, ty: absint.Fn("__fun_value" if off - 16 == slot else "__mesh_virtual"), st, "vtable")
        absint.BUILTIN["__fun_value"] = lambda I, st, a: (st, A.func("%s(%s,%s)" % (a[0].r.split("#")[0], point(I, st, a[1]), a[2])))
        I.nodes = 5
        st, _ = I.call(st, "probe_points0", [S.s])
        for k in (3, 0, 4, 1, 2):
            st, _ = I.call(st, "probe_points", [S.s, k, 10.0 * k])
        fe = Ptr(I.new_region(st, "feobj", 4096), 0)
        sfe = Ptr(I.new_region(st, "spfe", 16), 0)
        I.store(st, sfe, fe, "p"); I.store(st, Ptr(sfe.r, 8), 0, "p")
        I.parts["adv.getFe"] = sfe
        st, _ = I.call(st, "probe_feobj", [fe, 2])
        if what == "u":
            dst = I.call(st, "probe_uvec", [S.s])[1]
            out = [I.call(st, "probe_vec", [S.s, k])[1] for k in (1, 2, 5)[:m.dim]]
        else:
            dst = I.call(st, "probe_vec", [S.s, 0 if what == "rho" else 3])[1]
            out = [dst]
        for k, p in enumerate(out):
            LA.name_region(I, st, p, "before%d" % k)
        st2, _ = I.call(st, "probe_ini" + what, [S.s, dst])
        C.use(I)
        if not C.ob("initialisation returns", "initial " + what, st2 is not None, w, ""):
            continue
        for c, p in enumerate(out):
            v = vals(S, st2, p)
            for k in OWN:
                exp = "fun_%s(point%d,%d)" % (what, k, c)
                C.ob(R, "%s component %d node %d" % (what, c, k), exp in show(v[k]), w, "%s instead of %s" % (show(v[k]), exp))
            C.ob("values of nodes of other processes are not written", "%s component %d" % (what, c), "before" in show(v[2]), w, show(v[2]))
    C.floor(R, 12)


def m_ckload(I, st, a, F):
    for q in range(I.m.ns):
        put_all(I, st, I.call(st, "probe_at", [a[1], q])[1], lambda x, k: A.sym("saved_g%d_%d" % (q, k)))
    return st, None


RANGES = {"gamma": (1.1, 1.9)}


def sten(S):
    I = S.I
    n = S.nq if hasattr(S, "nq") else S.m.ns
    S.E = [[I.call(S.st, "probe_dir", [S.s, q, a])[1] for a in range(S.m.dim)] for q in range(n)]
    S.cs2 = I.call(S.st, "probe_cs2", [S.s])[1]


RUN = {"K01": k01, "R04": r04}
