"""W01: the tables of statistics and errors a run writes."""
import functools
import re

import common
from common import absint, A, Broken
from absint import Ptr
import box as BX
import boundary as BO
import fields as FD
import mesh as MS
import models
import models_io
import models_la as LA
import models_mesh as MM
import lattice as LT
from solver import where, show

SHARED = {}
XYZ = "xyz"
STOP = FD.STOP + r"|integrate_difference|^std::basic_o?fstream|is_MPI_rank_0"


def mod():
    # the smart pointers that own the files are followed, the files themselves are not
    base = models.BASE_RE.replace("basic_(o|i|io)?(string|f)?stream<", "^(?!.*(shared_|make_shared|sp_|std::swap|enable_if<)).*basic_(o|i|io)?(string|f)?stream<")
    return common.module("stats.cpp", stop=base, roots="^(probe_|lay_)", extra_stop=STOP, extra=["-fno-access-control"])


sumof = lambda v: functools.reduce(A.add, list(v), 0.0)


def m_linf(I, st, a, F):
    rid, v = LA.tv_vals(I, st, a[0])
    I.coll.append(("norm", [v[k] for k in range(len(v)) if I.mesh.dof_owner[k] == 0]))
    return st, A.sym("other%d" % len(I.coll))


def m_exact(I, st, a, F):
    m = I.mesh
    x = [I.load(st, Ptr(a[1].r, a[1].o + 8 * d), "d") for d in range(m.dim)]
    k = next((k for k, s in enumerate(m.support) if all(abs(p - q) < 1e-9 for p, q in zip(s, x))), None)
    if k is None:
        raise Broken("exact solution away from the nodes")
    I.times.append(a[3])
    return st, A.sym("exact_%s_%d" % ("u" + XYZ[a[2]] if a[0] else "rho", k))


def m_difference(I, st, a, F):
    """cellwise error of a field in the L2 norm"""
    m = I.mesh
    mapping, dof, v, fn, out, quad, norm = a[:7]
    if isinstance(norm, Ptr):
        norm = I.load(st, norm, "i32")
    if norm != I.l2:
        raise MM.Fault("errors are integrated in norm %s, not in L2" % norm)
    rid, vals = LA.tv_vals(I, st, v)
    x = Ptr(I.new_region(st, "point", 64), 0)
    res = []
    orid, n = models.vec_get(I, st, out)
    if n != m.nc:
        raise MM.Fault("integrate_difference: %s errors for %d cells" % (n, m.nc))
    for c in range(m.nc):
        e = 0.0
        if m.owner(c) == 0:
            h = functools.reduce(lambda p, q: p * q, (hi - lo for lo, hi in m.box(c)))
            for u, w in zip(I.pts, I.ws):
                y = m.u2r(c, u)
                for d in range(m.dim):
                    I.store(st, Ptr(x.r, 8 * d), y[d], "d")
                st, ex = I.call(st, "probe_value%d" % m.dim, [fn, x])
                f = sumof(A.scale(vals[g], m.shape(j, u)) for j, g in enumerate(m.cell_dofs[c]))
                e = A.add(e, A.scale(A.mul(A.sub(f, ex), A.sub(f, ex)), w * h * m.jac(c, u)))
        I.store(st, Ptr(orid, 8 * c), A.func("sqrt", e) if isinstance(e, A.Poly) else 0.0, "d")
    return st, None


def m_open(I, st, a, F):
    r = models_io.m_open(I, st, a, F)
    if len(a) > 2:
        I.modes.append(a[2])
    return r


MODELS = [(r"^vhook_exact", m_exact), (r"integrate_difference<", m_difference), (r"linfty_norm\(", m_linf), (models_io.OF + r"basic_(o|i)?fstream(<.*>)?\(", m_open), (r"natrium::is_MPI_rank_0\(", lambda I, st, a, F: (st, I.rank0)), (r"natrium::MPI_sync", models.nop),
          (r"get_mpi_communicator", models.nop), (r"n_active_cells\(", lambda I, st, a, F: (st, I.mesh.nc))] + models_io.IO


class Stats(FD.Fields):
    def __init__(self, m, lines, dg, procs, box=None, rank0=1):
        super().__init__(m, lines, 1, dg, procs, box=box, extra=MODELS)
        I = self.I
        I.models = [(re.compile("^(?!boost::|std::(swap|move|enable_if|addressof|forward)).*(" + r.pattern + ")") if "basic_(o|i|io)?(string|f)?stream<" in r.pattern else r, g) for r, g in I.models]
        I.rank0, I.modes, I.times = rank0, [], []
        I.pts, I.ws = self.pts, self.ws
        I.l2 = SHARED["l2"]
        self.owned = [k for k in range(self.mesh.nd) if self.mesh.dof_owner[k] == 0]

    def text(self, p):
        p = p if isinstance(p, Ptr) else None
        return "" if p is None else self.st.x.get(("ss", p.r), "")

    def points_array(self):
        D, n = self.D, self.mesh.nd
        p = self.R("points", 8 * D * n)
        for k in range(n):
            for d in range(D):
                self.I.store(self.st, Ptr(p.r, 8 * (D * k + d)), self.mesh.support[k][d], "d")
        return p

    def cstr(self, s):
        p = self.R("cstr", len(s) + 1)
        for i, c in enumerate(s + "\0"):
            self.I.store(self.st, Ptr(p.r, i), ord(c), "i8")
        return p


def lines(D, procs):
    return (FD.L2 if D == 2 else FD.L3S) if procs > 1 else (FD.L2S if D == 2 else FD.L3S)


def normis(X, r, vals, squares):
    """is r the largest |value| over the owned nodes of all processes?  squares: the values are given squared"""
    ks = X.collective(r)
    if len(ks) != 1 or X.I.coll[ks[0] - 1][0] != "norm":
        return False
    got = X.I.coll[ks[0] - 1][1]
    s = A.sym("other%d" % ks[0])
    if len(got) != len(vals):
        return False
    eq = lambda p, q: all(A.vanishes(A.sub(x, y), X.box) for x, y in zip(p, q))
    box = dict(X.box, other=(0.1, 2))
    if not squares:
        return FD.same(r, s) and (eq(got, vals) or eq(got, [A.scale(v, -1) for v in vals]))
    return FD.same(A.mul(r, r), s) and eq(got, vals) or A.vanishes(A.sub(A.mul(r, r), s), box) and eq(got, vals) or FD.same(r, s) and eq([A.mul(g, g) for g in got], vals)


def residuals(C, m, it):
    D, dg, procs = it
    key = "%dD %s%s" % (D, "discontinuous" if dg else "continuous", ", several processes" if procs > 1 else "")
    w = where(m, r"natrium::SolverStats<%dul>::calculateResiduals\(" % D)
    for start, i in ((0, 0), (0, 90), (0, 100), (0, 110), (0, 990), (50, 60), (50, 140), (50, 150), (50, 160), (200, 210), (200, 300)):
        X = Stats(m, lines(D, procs), dg, procs)
        X.box = {"": (0.5, 1.5)}
        I = X.I
        U = ["u" + c for c in XYZ[:D]]
        f, o = X.fill(U + ["rho"]), X.fill(["old" + u for u in U] + ["oldrho"])
        s, _ = FD.solver(X, X.df(1), f, 0, X.at(f, D), it=i)
        X.call("tmp", s, X.call("vecs", o, 0), X.at(o, D), start)
        t = X.call("stats", s, X.cstr(""))
        X.call("stats_residuals", t, i)
        k2 = "%s, iteration %d of a run from %d" % (key, i, start)
        v, r = X.call("residual", s, 0), X.call("residual", s, 1)
        if i - start >= 100:
            d = lambda n, k: A.sub(A.sym("old%s_%d" % (n, k)), A.sym("%s_%d" % (n, k)))
            ok = normis(X, v, [sumof(A.mul(d(n, k), d(n, k)) for n in U) for k in X.owned], True)
            C.ob("the residual is the largest change of a node since the last evaluation", k2 + ", velocity", ok, w, "is %s of %s" % (show(v), [str(x[1])[:120] for x in I.coll][:2]))
            C.ob("the residual is the largest change of a node since the last evaluation", k2 + ", density", normis(X, r, [d("rho", k) for k in X.owned], False), w, "is %s of %s" % (show(r), [str(x[1])[:120] for x in I.coll][-1:]))
        else:
            C.ob("no residual is formed before there are old values", k2, v == 1.0 and r == 1.0, w, "%s, %s" % (show(v), show(r)))
        bad = [(n, k) for j, n in enumerate(U + ["rho"]) for k in X.owned if not FD.same(LA.tv_vals(I, X.st, X.call("tmp_at", s, j))[1][k], A.sym("%s_%d" % (n, k)))]
        C.ob("the current fields are kept for the next residual", k2, not bad, w, "not kept: %s" % bad[:3])
        bad = [(n, k) for j, n in enumerate(U + ["rho"]) for k in X.owned if not FD.same(LA.tv_vals(I, X.st, X.at(f, j))[1][k], A.sym("%s_%d" % (n, k)))]
        C.ob("statistics leave the fields alone", k2, not bad, w, "changed: %s" % bad[:3])
        C.use(I)


def ordered(X, D, names):
    """ranges that order the speeds of the nodes"""
    N = X.mesh.nd
    box = {}
    for k in range(N):
        for n in names:
            u = 0.1 * 1.3 ** k
            box["%s_%d" % (n, k)] = (u, u * 1.02)
    return box


def table(C, m, it):
    """SolverStats::update and the row it prints"""
    D, dg, procs, rank0 = it
    key = "%dD %s%s" % (D, "discontinuous" if dg else "continuous", ", several processes" if procs > 1 else "")
    X = Stats(m, lines(D, procs), dg, procs, rank0=rank0)
    I = X.I
    U = ["u" + c for c in XYZ[:D]]
    Q = 9 if D == 2 else 15
    X.box = dict(ordered(X, D, U), rho=(0.9, 1.1))
    absint.BOX = BX.Box(X.box)
    f, h = X.fill(U + ["rho"]), X.df(Q, "f")
    X.raw("probe_df_update", h)
    number = 0 if procs > 1 else 20
    s, _ = FD.solver(X, h, f, 0, X.at(f, D), it=number)
    X.call("tmp", s, X.call("vecs", f, 0), X.at(f, D), 0)
    t = X.call("stats", s, X.cstr("results"))
    first = X.text(X.call("stats_file", t))
    w = where(m, r"natrium::SolverStats<%dul>::update\(" % D)
    X.call("stats_print", t)
    get = lambda k: X.call("stats_get", t, k)
    V = lambda n, c, x, d=None: X.val(n, c, x, d)
    exp = {}
    exp["mass"] = X.integral(lambda v: v("rho"))
    exp["kinE"] = A.scale(X.integral(lambda v: A.mul(v("rho"), sumof(A.mul(v(n), v(n)) for n in U))), 0.5)

    def ens(v):
        if D == 2:
            o = A.sub(v("uy", 0), v("ux", 1))
            return A.mul(o, o)
        return sumof(A.mul(v(n, d), v(n, d)) for n in U for d in range(3))
    exp["enstrophy"] = X.integral(ens)
    exp["enstr^2"] = X.integral(lambda v: A.mul(ens(v), ens(v)))
    names = ["t", "max |u_numeric|", "mass", "kinE", "enstrophy", "entropy", "maxP", "minP", "mean(ux)", "enstr^2"]
    for n in ("mass", "kinE", "enstrophy", "enstr^2"):
        got = get(names.index(n))
        ks = X.collective(got)
        fac = 0.5 if n == "kinE" else 1.0
        ok = len(ks) == 1 and FD.same(got, A.add(exp[n], A.scale(A.sym("other%d" % ks[0]), fac)))
        C.ob("a row holds the quantities of the current fields", "%s, %s" % (key, n), ok, w, "is %s; expected the sum over the processes of %s" % (show(got), show(exp[n])))
    got, top = get(1), max(X.owned)
    ks = X.collective(got)
    if len(ks) == 1:
        ok = A.vanishes(A.sub(I.coll[ks[0] - 1][1], sumof(A.mul(A.sym("%s_%d" % (u, top)), A.sym("%s_%d" % (u, top))) for u in U)), X.box)
    else:  # the largest component
        comp = [[A.sym("%s_%d" % (u, k)) for k in X.owned] for u in U]
        which = lambda v: [j for j, c in enumerate(comp) if len(c) == len(v) and all(FD.same(p, q) for p, q in zip(c, v))]
        ok = len(ks) == D and all(I.coll[k - 1][0] == "norm" for k in ks) and sorted(sum((which(I.coll[k - 1][1]) for k in ks), [])) == list(range(D))
        for seed in range(12):
            n = A.NumEval(seed, {"other": (0.1, 9)})
            ok = ok and abs(n.ev(got) - max(n.ev(A.sym("other%d" % k)) for k in ks)) < 1e-12
    C.ob("a row holds the quantities of the current fields", key + ", max |u|", ok, w, "is %s" % show(got))
    C.ob("a row holds the quantities of the current fields", key + ", time", FD.same(get(0), A.sym("time")), w, "is %s" % show(get(0)))
    cs2 = SHARED["L"]["D2Q9" if D == 2 else "D3Q15"].cs2
    vals = [A.sym("rho_%d" % k) for k in range(X.mesh.nd)]
    for n, k, o in (("maxP", 6, "max"), ("minP", 7, "min")):
        C.ob("a row holds the quantities of the current fields", "%s, %s" % (key, n), A.vanishes(A.sub(get(k), A.scale(A.sub(A.func(o, *vals), 1.0), 1 / 3.0)), {"": (0.9, 1.1)}), w, "is %s" % show(get(k)))
    got = get(8)
    ok = all(I.coll[k - 1][0] == "sum" for k in X.collective(got)) and set(x.split("_")[0] for x in FD.symbols(got) if not x.startswith("other")) == {"ux"}
    C.ob("a row holds the quantities of the current fields", key + ", mean(ux)", ok, w, "is %s" % show(got))
    got = get(5)
    C.ob("a row holds the quantities of the current fields", key + ", entropy", {"f%d_%d" % (q, k) for q in range(Q) for c in X.own for k in X.mesh.cell_dofs[c]} <= FD.symbols(got), w, "is %s" % show(got))
    # header and row
    out = X.text(X.call("stats_file", t)) if rank0 else ""
    if not rank0:
        C.ob("only one process writes the table", key, not I.modes and not isinstance(X.call("stats_file", t), Ptr), where(m, r"natrium::SolverStats<%dul>::SolverStats\(" % D), "another process opens the file: %s %s" % (I.modes, X.call("stats_file", t)))
    else:
        rows = out.split("\n")
        head, row = rows[0], rows[1] if len(rows) > 1 else ""
        cols = [x.strip() for x in re.split(r"\s{2,}|(?<=\))\s", head.replace("#", " ").strip()) if x.strip()]
        want = {n: models_io.text(get(k)) for k, n in enumerate(names)}
        want.update({"i": str(number), "residuum(rho)": models_io.text(X.call("residual", s, 1)), "residuum(u)": models_io.text(X.call("residual", s, 0))})
        cols = header(head, list(want))
        C.ob("the header names every column", key, sorted(cols) == sorted(want), where(m, r"natrium::SolverStats<%dul>::printHeaderLine\(" % D), "columns %s" % cols)
        C.ob("a row lists the values in the order of the header", key, squash(row) == squash(" ".join(want[c] for c in cols)), where(m, r"natrium::SolverStats<%dul>::printNewLine\(" % D), "row %s for the header %s" % (row[:200], cols))
    later(C, X, s, number, lambda: X.call("stats_print", t), lambda: get(0), lambda: X.text(X.call("stats_file", t)) if rank0 else None, key, w)
    C.use(I)
    absint.BOX = None


def later(C, X, s, number, again, time, text, key, w):
    """the next row belongs to the next iteration"""
    old, n = text(), len(X.I.times) if hasattr(X.I, "times") else 0
    again()
    C.ob("a second row of the same iteration needs no new evaluation", key, (not hasattr(X.I, "times") or len(X.I.times) == n) and FD.same(time(), A.sym("time")), w, "time %s" % show(time()))
    X.raw("probe_clock%d" % X.D, s, number + 1, A.sym("later"))
    again()
    C.ob("a row of a later iteration is evaluated anew", key, FD.same(time(), A.sym("later")), w, "the row of the next iteration still has the time %s" % show(time()))
    if old is not None:
        rows = [r for r in text().split("\n") if r]
        C.ob("rows carry the number of their iteration", key, len(rows) >= 3 and rows[-1].split()[:1] == [str(number + 1)] and rows[-2].split()[:1] == [str(number)], w, "last rows %s" % [r[:40] for r in rows[-2:]])


squash = lambda s: re.sub(r"\s+", "", s)


def header(s, names):
    """the column names in the order of a header line"""
    s = " " + re.sub(r"#", " ", s) + " "
    at = []
    for n in names:
        i = s.find(" %s " % n)
        if i >= 0:
            at.append((i, n))
    return [n for _, n in sorted(at)]


def errors(C, m, it):
    D, tag, dg, procs, start, rank0 = it
    cls = "ErrorStats" if tag == "i" else "CompressibleErrorStats"
    key = "%s, %dD %s%s%s%s" % (cls, D, "discontinuous" if dg else "continuous", ", several processes" if procs > 1 else "", ", restarted" if start else "", "" if rank0 else ", another rank")
    X = Stats(m, lines(D, procs), dg, procs, rank0=rank0)
    I = X.I
    U = ["u" + c for c in XYZ[:D]]
    by = {}
    for k in range(X.mesh.nd):
        by.setdefault(tuple(round(x, 9) for x in X.mesh.support[k]), k)
    rep = [by[tuple(round(x, 9) for x in X.mesh.support[k])] for k in range(X.mesh.nd)]
    X.box = dict(ordered(X, D, ["exact_" + u for u in U]), other=(0.1, 2))
    X.box.update({n: (3, 4) for n in U})
    X.box["rho"] = (0.9, 1.1)
    X.box["exact_rho"] = (1.2, 1.3)
    absint.BOX = BX.Box(X.box)
    f = X.fill(U + ["rho"])
    number = start if start else 0 if procs > 1 else 20
    s = X.R("solver", X.raw("lay_bsolver%s%d" % (tag, D)))
    vecs = X.call("vecs", f, 0)
    X.call("solver", s, vecs, X.at(f, D), X.df(1), X.sp, X.stencil, X.R("cfg", 4096), number, A.sym("time"))
    X.call("tmp", s, vecs, X.at(f, D), start)
    X.raw("probe_bsolver%s%d" % (tag, D), s, X.msp, X.points_array(), X.mesh.nd, vecs, X.at(f, D))
    t = X.raw("probe_errors%s%d" % (tag, D), s, X.cstr("errors"))
    X.raw("probe_errors_print%s%d" % (tag, D), t)
    get = lambda k: X.raw("probe_errors_get%s%d" % (tag, D), t, k)
    w = where(m, r"natrium::%s<%dul>::update\(" % (cls, D))
    ex = lambda n, k: A.sym("exact_%s_%d" % (n, rep[k]))
    d = lambda n, k: A.sub(A.sym("%s_%d" % (n, k)), ex(n, k))
    C.ob("errors are taken at the current time", key, bool(I.times) and all(FD.same(x, A.sym("time")) for x in I.times) and FD.same(get(0), A.sym("time")), w, "exact solution at %s" % sorted({show(x) for x in I.times})[:3])
    top = max(X.owned, key=lambda k: rep[k])
    ks = X.collective(get(1))
    ok = len(ks) == 1 and A.vanishes(A.sub(I.coll[ks[0] - 1][1], sumof(A.mul(ex(u, top), ex(u, top)) for u in U)), X.box)
    C.ob("the error table holds the maximal exact velocity", key, ok, w, "is %s" % show(get(1)))
    ok = normis(X, get(2), [sumof(A.mul(d(n, k), d(n, k)) for n in U) for k in X.owned], True)
    C.ob("maximal errors are the largest deviation from the exact solution at a node", key + ", velocity", ok, w, "is %s" % show(get(2)))
    ok = normis(X, get(3), [d("rho", k) for k in X.owned], False)
    C.ob("maximal errors are the largest deviation from the exact solution at a node", key + ", density", ok, w, "is %s" % show(get(3)))

    def field(n, c, x):
        e = sumof(A.scale(A.sym("%s_%d" % (n, g)), X.mesh.shape(j, x)) for j, g in enumerate(X.mesh.cell_dofs[c]))
        j = next(j for j in range(X.mesh.nloc) if all(abs(p - q) < 1e-9 for p, q in zip(X.mesh.unit_support(j), x)))
        return A.sub(e, ex(n, X.mesh.cell_dofs[c][j]))
    for k, what, ns in ((4, "velocity", U), (5, "density", ["rho"])):
        got = get(k)
        ks = X.collective(got)
        e = 0.0
        for c, x, wt in X.points():
            for n in ns:
                e = A.add(e, A.scale(A.mul(field(n, c, x), field(n, c, x)), wt))
        ok = len(ks) == 1 and I.coll[ks[0] - 1][0] == "sum" and A.vanishes(A.sub(A.mul(got, got), A.add(e, A.sym("other%d" % ks[0]))), X.box)
        C.ob("L2 errors integrate the squared deviation from the exact solution over all processes", "%s, %s" % (key, what), ok, w, "is %s" % show(got))
    bad = [(n, k) for j, n in enumerate(U + ["rho"]) for k in X.owned if not FD.same(LA.tv_vals(I, X.st, X.at(f, j))[1][k], A.sym("%s_%d" % (n, k)))]
    C.ob("statistics leave the fields alone", key, not bad, w, "changed: %s" % bad[:3])
    out = X.text(X.raw("probe_errors_file%s%d" % (tag, D), t))
    wp = where(m, r"natrium::%s<%dul>::printNewLine\(" % (cls, D))
    if not rank0:
        C.ob("only one process writes the table", key, not out, wp, "another process writes %s" % out[:100])
        wc = where(m, r"natrium::%s<%dul>::%s\(" % (cls, D, cls))
        C.ob("only one process creates the table", key, not I.modes, wc, "another process opens the file with mode %s, which cuts off what the first has written" % I.modes)
    else:
        rows = [x for x in out.split("\n") if x]
        names = ["t", "max |u_analytic|", "max |error_u|", "max |error_rho|", "||error_u||_2", "||error_rho||_2"]
        want = {n: models_io.text(get(k)) for k, n in enumerate(names)}
        want["i"] = str(number)
        head = rows[0] if not start else SHARED_HEAD
        C.ob("a continued table gets no second header", key, len(rows) == (1 if start else 2), wp, "%d lines" % len(rows))
        cols = header(head, list(want)) if not start else ["i"] + names
        C.ob("the header names every column", key, sorted(cols) == sorted(want), wp, "columns %s" % cols)
        C.ob("a row lists the values in the order of the header", key, squash(rows[-1]) == squash(" ".join(want[c] for c in cols)), wp, "row %s for the header %s" % (rows[-1][:200], cols))
        C.ob("a continued table is appended to, a new one replaces the old", key, I.modes[:1] == [SHARED["app"] if start else SHARED["out"]], wp, "opened with mode %s" % I.modes)
    file = lambda: X.text(X.raw("probe_errors_file%s%d" % (tag, D), t))
    later(C, X, s, number, lambda: X.raw("probe_errors_print%s%d" % (tag, D), t), lambda: get(0), (lambda: ("-\n" if start else "") + file()) if rank0 else lambda: None, key, w)
    C.use(I)
    absint.BOX = None


SHARED_HEAD = ""


def one(C, it):
    m = SHARED["m"]
    try:
        globals()[it[0]](C, m, it[1])
    except MM.Fault as e:
        C.ob("nothing is refused", str(it), False, "", str(e))


FLOORS_W01 = (
    ("no residual is formed before there are old values", 36),
    ("the current fields are kept for the next residual", 79),
    ("statistics leave the fields alone", 108),
    ("the residual is the largest change of a node since the last evaluation", 86),
    ("a row holds the quantities of the current fields", 144),
    ("the header names every column", 28),
    ("a row lists the values in the order of the header", 28),
    ("only one process writes the table", 14),
    ("errors are taken at the current time", 28),
    ("the error table holds the maximal exact velocity", 28),
    ("maximal errors are the largest deviation from the exact solution at a node", 57),
    ("L2 errors integrate the squared deviation from the exact solution over all processes", 57),
    ("a continued table gets no second header", 21),
    ("a continued table is appended to, a new one replaces the old", 21),
    ("only one process creates the table", 7),
    ("a row of a later iteration is evaluated anew", 43),
    ("a second row of the same iteration needs no new evaluation", 43),
    ("rows carry the number of their iteration", 28),
    ("a row of the turbulence statistics lists iteration, time and all statistics", 6),
    ("turbulence statistics are written at multiples of the table interval, by one process", 42),
    ("the legend numbers the columns of the table", 3),
    ("a row holds mean and deviation of every plane", 290),
    ("the running mean weights all samples alike", 84),
    ("the output gets the running mean of each component", 21),
)


def continued(C, m, it):
    """how the constructors of the statistics open their tables"""
    D, cls, start, rank0 = it
    key = "%s, %dD, from iteration %d%s" % (cls, D, start, "" if rank0 else ", another rank")
    X = Stats(m, lines(D, 1), 1, 1, rank0=rank0)
    I = X.I
    I.cfg["isSwitchOutputOff"] = 0
    U = ["u" + c for c in XYZ[:D]]
    f, h = X.fill(U + ["rho"]), X.df(9 if D == 2 else 15, "f")
    s, _ = FD.solver(X, h, f, 0, X.at(f, D), it=start)
    X.call("tmp", s, X.call("vecs", f, 0), X.at(f, D), start)
    if cls == "SolverStats":
        file = X.call("stats_file", X.call("stats", s, X.cstr("results")))
    else:
        tag = "gts" if cls[0] == "G" else "cts"
        file = X.raw("probe_%s_file%d" % (tag, D), X.call(tag, s))
    out = X.text(file)
    w = where(m, r"natrium::%s<%dul>::%s\(" % (cls, D, cls))
    if not rank0:
        C.ob("only one process creates the table", key, not I.modes and not out, w, "another process opens the file with mode %s" % I.modes)
    else:
        want = [SHARED["app"] if start else SHARED["out"]]
        C.ob("a continued table is appended to, a new one replaces the old", key, I.modes[:1] == want, w, "opened with mode %s" % I.modes)
        C.ob("a continued table gets no second header", key, bool(out.strip()) == (start == 0), w, "%d characters of header" % len(out))
    C.use(I)


def m_name(I, st, a, F):
    models.sput(st, a[0], "legend" if "legendfile" in F.d else "table")
    return st, None


def rows(C, m, it):
    """rows and legend of the turbulence statistics"""
    D, cls, rank0, off = it
    key = "%s, %dD%s%s" % (cls, D, "" if rank0 else ", another rank", ", output off" if off else "")
    tag = "gts" if cls[0] == "G" else "cts"
    X = Stats(m, lines(D, 1), 1, 1, rank0=rank0)
    I = X.I
    I.models = [(re.compile(r"TurbulenceStats<.*>::(outfile|legendfile)\("), m_name)] + I.models
    I.cfg.update({"isSwitchOutputOff": off, "getOutputTableInterval": 10})
    U = ["u" + c for c in XYZ[:D]]
    f, h = X.fill(U + ["rho", "T"]), X.df(9 if D == 2 else 15, "f")
    s, _ = FD.solver(X, h, f, 0, X.at(f, D), T=X.at(f, D + 1) if tag == "cts" else None, it=0)
    X.call("tmp", s, X.call("vecs", f, 0), X.at(f, D), 0)
    g = X.call(tag, s)
    w = where(m, r"natrium::%s<%dul>::(apply|writeToFile)\(" % (cls, D))
    wh = where(m, r"natrium::%s<%dul>::printHeaderLine\(" % (cls, D))
    file = lambda: [r for r in X.text(X.raw("probe_%s_file%d" % (tag, D), g)).split("\n") if r]
    have = 0 if off or not rank0 else 1
    for i, wanted in ((20, 1), (21, 0), (25, 0), (29, 0), (30, 1)):
        X.raw("probe_clock%d" % D, s, i, A.sym("time%d" % i))
        X.raw("probe_%s_apply%d" % (tag, D), g)
        new = file()[have:] if have or not (off or not rank0) else file()
        wanted = wanted and rank0 and not off
        C.ob("turbulence statistics are written at multiples of the table interval, by one process", "%s, iteration %d" % (key, i), len(new) == wanted, w, "%d rows" % len(new))
        if len(new) != 1 or not wanted:
            continue
        have += 1
        cols = [("iteration", str(i)), ("time", models_io.text(A.sym("time%d" % i)))]
        if tag == "gts":
            n = X.call("gts_n", g)
            nm = [models.sget(I, X.st, X.call("gts_name", g, k)) for k in range(n)]
            cols += [("<%s>" % x, X.call("gts_avg", g, k)) for k, x in enumerate(nm)]
            cols += [("<%s%s>" % (nm[k], nm[l]), X.call("gts_cor", g, k, l)) for k in range(n) for l in range(k + 1)]
            cols += [("<%s^%d>" % (x, e), X.call("gts_m%d" % e, g, k)) for e in (3, 4) for k, x in enumerate(nm)]
            cols += [("<%s>" % x, X.call("gts_e", g, k)) for k, x in enumerate(("energy", "enstrophy", "energy^2", "enstrophy^2"))]
        else:
            cols += [(x, X.call("cts_e", g, k)) for k, x in enumerate(("<dilatation>", "<solenoidal>", "maxMach", "totalEnergy"))]
        txt = [c if isinstance(c, str) else models_io.text(c) for _, c in cols]
        C.ob("a row of the turbulence statistics lists iteration, time and all statistics", "%s, iteration %d" % (key, i), squash(new[0]) == squash(" ".join(txt)), w, "row %s" % new[0][:200])
        if i == 20:
            leg = [v for (k, *r), v in list(X.st.x.items()) if k == "ss" and X.st.x.get(("file",) + tuple(r)) == "legend"]
            got = [re.match(r"(\d+)\s+(.*)$", x).groups() for x in "".join(leg).split("\n") if x.strip()]
            want = [(str(k + 1), squash(n)) for k, (n, _) in enumerate(cols)]
            got = [(k, squash(n)) for k, n in got]
            bad = [(a, b) for a, b in zip(got, want) if a != b]
            C.ob("the legend numbers the columns of the table", key, len(leg) == 1 and got == want, wh, "%d legends, %d entries for %d columns; legend says %s" % (len(leg), len(got), len(want), bad[:2]))
    C.use(I)


def m_vdist(I, st, a, F):
    return st, min(I.mesh.min_edge(c) for c in range(I.mesh.nc))


def m_dataout(I, st, a, F):
    n = next((x for x in (models.sget(I, st, v) for v in a[2:3]) if isinstance(x, str)), None)
    rid, v = LA.tv_vals(I, st, a[1])
    I.dataout.append((n, list(v)))
    return st, None


def planes(C, m, it):
    """the table of statistics in planes and the running mean"""
    D, dg, procs, start, rank0, named = it
    key = "TurbulenceStats, %dD %s%s, from iteration %d%s%s" % (D, "discontinuous" if dg else "continuous", ", several processes" if procs > 1 else "", start, "" if rank0 else ", another rank", "" if named else ", no file")
    U = ["u" + c for c in XYZ[:D]]
    for d in range(D):
        X = Stats(m, lines(D, procs), dg, procs, rank0=rank0)
        I = X.I
        I.models = [(re.compile(r), f) for r, f in ((r"CFDSolverUtilities::getMinimumVertexDistance<", m_vdist), (r"DataOut(_DoFData)?<.*>::add_data_vector(<.*>)?\(", m_dataout))] + I.models
        I.dataout = []
        I.cfg["getSedgOrderOfFiniteElement"] = 1
        X.box = {"": (0.5, 1.5), "other": (0.1, 2)}
        gap = min(X.mesh.min_edge(c) for c in range(X.mesh.nc))
        xs = list(X.mesh.lines[d])
        at = [xs[-1] + 0.4 * gap, xs[0] - 0.4 * gap, xs[0] + 0.6 * gap if xs[1] - xs[0] > 1.2 * gap else xs[0] - 0.6 * gap, xs[1]]
        f, o, q = X.fill(U + ["rho"]), X.fill(["old" + u for u in U]), X.fill(["third" + u for u in U])
        number = start or 20
        s, vecs = FD.solver(X, X.df(1), f, 0, X.at(f, D), it=number)
        X.call("tmp", s, vecs, X.at(f, D), start)
        X.call("turb_setup", s, X.msp, X.points_array(), X.mesh.nd)
        xa = X.R("planes", 64)
        for i, x in enumerate(at):
            I.store(X.st, Ptr(xa.r, 8 * i), x, "d")
        t = X.call("turb", s, d, xa, len(at), X.cstr("planes" if named else ""))
        k2 = "%s, planes across %s" % (key, XYZ[d])
        w = where(m, r"natrium::TurbulenceStats<%dul>::(printNewLine|update)\(" % D)
        wc = where(m, r"natrium::TurbulenceStats<%dul>::TurbulenceStats\(" % D)
        wh = where(m, r"natrium::TurbulenceStats<%dul>::printHeaderLine\(" % D)
        file = lambda: X.text(X.call("turb_file", t))
        out = file()
        if not named:
            C.ob("statistics without a file name open no table", k2, not I.modes and not out, wc, "opened with mode %s" % I.modes)
        elif not rank0:
            C.ob("only one process creates the table", k2, not I.modes and not out, wc, "another process opens the file with mode %s" % I.modes)
        else:
            want = [SHARED["app"] if start else SHARED["out"]]
            C.ob("a continued table is appended to, a new one replaces the old", k2, I.modes == want, wc, "opened with mode %s" % I.modes)
            C.ob("a continued table gets no second header", k2, bool(out.strip()) == (start == 0), wc, "%d characters of header" % len(out))
        cols = [("u%d_%s" % (c, n), i) for n in ("av", "rms") for i in range(len(at)) for c in range(D)]
        if out.strip():
            got = re.findall(r"(u\d_\w+)\((\w)=([^)]*)\)", out)
            lead = out.replace("#", " ").split()[:2]
            def num(v):
                try:
                    return float(v.strip("{}<> "))
                except ValueError:
                    return None
            bad = [(a, b) for a, b in zip(got, cols) if a[0] != b[0] or a[1] != XYZ[d] or num(a[2]) is None or abs(num(a[2]) - at[b[1]]) > 1e-4]
            C.ob("the header names every column", k2, lead == ["i", "t"] and len(got) == len(cols) and not bad, wh, "%s" % (bad[:2] or out[:100]))
        if named:
            X.call("turb_print", t)
            rows = [r for r in file().split("\n") if r]
            get = lambda r, i, c: X.call("turb_get", t, r, i, c)
            for i, x in enumerate(at):
                nodes = [k for k in X.owned if abs(X.mesh.support[k][d] - x) < 0.5 * gap]
                for c in range(D if rank0 else 0):
                    n = len(nodes) + 5
                    u = lambda k: A.sym("%s_%d" % (U[c], k))
                    av, rms = get(0, i, c), get(1, i, c)
                    ks = X.collective(av)
                    ok = len(ks) == 1 and FD.same(A.scale(av, n), A.add(sumof(u(k) for k in nodes), A.sym("other%d" % ks[0])))
                    C.ob("a row holds mean and deviation of every plane", "%s, mean of %s at %g" % (k2, U[c], x), ok, w, "is %s; %d nodes in the plane" % (show(av), len(nodes)))
                    e = sumof(A.mul(A.sub(u(k), av), A.sub(u(k), av)) for k in nodes)
                    kr = [k for k in X.collective(rms) if k not in ks]
                    ok = len(kr) == 1 and A.vanishes(A.sub(A.scale(A.mul(rms, rms), n), A.add(e, A.sym("other%d" % kr[0]))), X.box)
                    C.ob("a row holds mean and deviation of every plane", "%s, deviation of %s at %g" % (k2, U[c], x), ok, w, "is %s; %d nodes in the plane" % (show(rms), len(nodes)))
            if rank0:
                txt = [str(number), models_io.text(A.sym("time"))] + [models_io.text(get(int(n[3:] == "rms"), i, int(n[1]))) for n, i in cols]
                C.ob("a row lists the values in the order of the header", k2, squash(rows[-1]) == squash(" ".join(txt)), w, "row %s" % rows[-1][:200])
                X.raw("probe_clock%d" % D, s, number + 1, A.sym("later"))
                before = len(I.coll)
                X.call("turb_print", t)
                r2 = [r for r in file().split("\n") if r]
                C.ob("rows carry the number of their iteration", k2, len(r2) == len(rows) + 1 and r2[-1].split()[:1] == [str(number + 1)], w, "last row %s" % r2[-1][:60])
                old = [(U[int(n[1])], n[3:], at[i]) for n, i in cols if min(X.collective(get(int(n[3:] == "rms"), i, int(n[1]))), default=0) <= before]
                txt = [str(number + 1), models_io.text(A.sym("later"))] + [models_io.text(get(int(n[3:] == "rms"), i, int(n[1]))) for n, i in cols]
                C.ob("a row of a later iteration is evaluated anew", k2, not old and squash(r2[-1]) == squash(" ".join(txt)), w, "not anew: %s; row %s" % (old[:3], r2[-1][:100]))
            else:
                C.ob("only one process writes the table", k2, not file(), w, "another process writes %s" % file()[:100])
        # running mean
        wr = where(m, r"natrium::TurbulenceStats<%dul>::addToReynoldsStatistics\(" % D)
        seen = []
        for n, v in (("", f), ("old", o), ("third", q), ("", f)):
            X.call("turb_add", t, X.call("vecs", v, 0))
            seen.append(n)
            bad = []
            for c in range(D):
                vals = LA.tv_vals(I, X.st, X.call("turb_mean", t, c))[1]
                bad += [(U[c], k, show(vals[k])[:80]) for k in X.owned if not A.vanishes(A.sub(A.scale(vals[k], len(seen)), sumof(A.sym("%s%s_%d" % (e, U[c], k)) for e in seen)), X.box)]
            C.ob("the running mean weights all samples alike", "%s, %d samples" % (k2, len(seen)), not bad, wr, "%s" % bad[:2])
        X.call("turb_out", t, X.R("dataout", 65536))
        means = [LA.tv_vals(I, X.st, X.call("turb_mean", t, c))[1] for c in range(D)]
        ok = [n for n, _ in I.dataout] == ["%s_average" % u for u in U] and all(FD.same(v[k], g[k]) for (_, v), g in zip(I.dataout, means) for k in X.owned)
        C.ob("the output gets the running mean of each component", k2, ok, where(m, r"natrium::TurbulenceStats<%dul>::addReynoldsStatisticsToOutput\(" % D), "fields %s" % [n for n, _ in I.dataout])
        bad = [(n, k) for j, n in enumerate(U + ["rho"]) for k in X.owned if not FD.same(LA.tv_vals(I, X.st, X.at(f, j))[1][k], A.sym("%s_%d" % (n, k)))]
        C.ob("statistics leave the fields alone", k2, not bad, w, "changed: %s" % bad[:3])
        C.use(I)


def w01(C):
    C.floors += FLOORS_W01
    m = SHARED["m"] = mod()
    SHARED["L"] = {n: LT.table(C, common.module("lattice.cpp"), n) for n in ("D2Q9", "D3Q15")}
    I = common.interp(m, ())
    SHARED["l2"], SHARED["out"], SHARED["app"] = (I.call(absint.State(), "probe_const_" + n, [])[1] for n in ("l2", "out", "app"))
    items = [("residuals", (D, dg, procs)) for D in (2, 3) for dg in (0, 1) for procs in (1, 3)]
    items += [("table", (D, dg, procs, r)) for D in (2, 3) for dg in (0, 1) for procs in (1, 3) for r in (1, 0)]
    items += [("errors", (D, tag, dg, procs, start, r)) for D in (2, 3) for tag in "ic" for dg in (0, 1) for procs, start, r in ((1, 0, 1), (3, 0, 1), (3, 1, 1), (3, 10, 1), (3, 0, 0))]
    items += [("continued", (D, c, start, r)) for D in (2, 3) for c in ("SolverStats", "GlobalTurbulenceStats", "CompressibleTurbulenceStats") for start in (0, 1, 10) for r in (1, 0)]
    items += [("rows", (D, c, r, off)) for D in (2, 3) for c in ("GlobalTurbulenceStats", "CompressibleTurbulenceStats") for r, off in ((1, 0), (0, 0), (1, 1))]
    items += [("planes", (D, dg, procs, start, r, n)) for D in (2, 3) for dg, procs, start, r, n in ((0, 1, 0, 1, 1), (1, 3, 0, 1, 1), (0, 3, 1, 1, 1), (1, 1, 10, 1, 1), (0, 1, 0, 0, 1), (0, 1, 0, 1, 0))]
    common.pmap(C, one, items)


RUN = {"W01": w01}
