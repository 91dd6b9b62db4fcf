"""U02: command line options: declared with the type they are read with, each changes exactly the documented settings, illegal values and conflicts are refused."""
import math
import re

import common
from common import absint, A, Broken
import models
import models_ph
from absint import Ptr

TI, DI = "Advection/Time integrator", "Advection/Deal.II integrator/Runge Kutta scheme"
INTEGRATORS = [("rk4", "Runge-Kutta 5-stage", "None"), ("theta", "Theta method", "None"), ("exp", "Exponential", "None"), ("ee", "Other", "Forward Euler"), ("rk3", "Other", "RK 3rd order"),
               ("rk4_2", "Other", "RK Classic 4th order"), ("ie", "Other", "Backward Euler"), ("midpoint", "Other", "Implicit midpoint"), ("cn", "Other", "Crank-Nicoloson"),
               ("sdirk", "Other", "SDIRK 2 stages"), ("heun-euler", "Other", "Heun-Euler"), ("bogacki", "Other", "Bogacki-Shampine"), ("dopri", "Other", "Dopri"),
               ("fehlberg", "Other", "Fehlberg"), ("cash-karp", "Other", "Cash-Karp")]
OFF = "Output/Switch output off?"
SELECT = {
    "streaming": ("Advection/Advection scheme", {"sedg": "SEDG", "sl": "Semi-Lagrangian"}),
    "collision": ("Collision/Collision scheme", {"bgk": "BGK standard", "bgkt": "BGK standard transformed", "inc": "BGK incompressible", "pp": "BGK multiphase", "ss": "BGK steady state",
                  "mrt": "MRT standard", "kbcs": "KBC standard", "kbcc": "KBC central", "reg": "BGK regularized", "am4": "BGK multi am4", "bdf2": "BGK multi bdf2", "est": "Entropic stabilized"}),
    "regularization": ("Filtering/Regularization", {"no": "No Regularization", "pem": "Pseudo-entropy maximization", "zero": "Zero high-order moments", "em": "Entropy maximization",
                       "pemwe": "Pseudo-entropy maximization with e"}),
    "equilibrium": ("Collision/Equilibrium scheme", {"bgk": "BGK equilibrium", "quartic": "Quartic equilibrium"}),
    "support-points": ("Advection/Support points", {"gll": "Gauss-Lobatto", "glc": "Gauss-Lobatto-Chebyshev", "gc": "Gauss-Chebyshev", "equi": "Equidistant"}),
    "stencil": ("General/Stencil", {s.lower(): s for s in "D2Q9 D3Q19 D3Q15 D3Q27 D2Q19V D2Q19H D2Q777 D2Q25H D3Q45 D3Q77 D3V27 D3Q21 D3Q13 RD3Q27".split()}),
    "init": ("Initialization/Initialization scheme", {"equi": "Equilibrium", "iter": "Iterative"}),
    "mrt-basis": ("Collision/MRT basis", {"dellar-d2q9": "Dellar D2Q9", "lallemand-d2q9": "Lallemand D2Q9", "dhumieres-d3q19": "DHumieres D3Q19"}),
    "mrt-relax": ("Collision/MRT relaxation times", {"full": "Full", "dellar-only-N": "Dellar D2Q9 Only N", "dhumieres-paper": "DHumieres Paper"}),
}
VALUE = {"order-fe": ("int", "Advection/SEDG/Order of finite element", {}), "cfl": ("double", "General/CFL", {}), "scaling": ("double", "General/Stencil scaling", {}),
         "output-sol": ("int", "Output/Output solution interval", {OFF: 0}), "output-chk": ("int", "Output/Output checkpoint interval", {OFF: 0}),
         "output-tab": ("int", "Output/Output table interval", {OFF: 0}), "tmax": ("double", "Stop condition/Simulation end time", {}),
         "init-niter": ("int", "Initialization/Iterative initialization stop condition/Number of iterations", {}),
         "init-res": ("double", "Initialization/Iterative initialization stop condition/Residual", {})}
STR = "std::__cxx11::basic_string"


def tyname(d):
    """type argument in the demangled name"""
    g = re.search(r"(?:value|as|typed_value)<(int|double|std::__cxx11::basic_string)", d)
    return {"int": "int", "double": "double", STR: "string"}.get(g.group(1)) if g else None


def m_value(I, st, a, F):
    t = tyname(F.d)
    rid = I.new_region(st, "value:" + str(t), 64)
    return st, Ptr(rid, 0)


def m_addopt(I, st, a, F):
    n = models.tostr(I, st, a[1])
    kind = "flag"
    if "value_semantic" in F.d:
        kind = a[2].r.split("value:")[1].split("#")[0] if isinstance(a[2], Ptr) and "value:" in str(a[2].r) else "?"
    I.opts.append((n, kind))
    return st, a[0]


def m_count(I, st, a, F):
    n = models.tostr(I, st, a[1])
    if not isinstance(n, str):
        raise absint.AnalysisError("option name is not a known string")
    return st, int(n in I.cli)


def m_index(I, st, a, F):
    n = models.tostr(I, st, a[1])
    rid = I.new_region(st, "opt:%s:" % n, 64)
    return st, Ptr(rid, 0)


def m_as(I, st, a, F):
    n = str(a[0].r).split("opt:")[1].split(":")[0]
    t = tyname(F.d)
    I.reads.append((n, t))
    if n not in I.cli:
        return models.throws(I, st, a, F)
    v = I.cli[n]
    rid = I.new_region(st, "optval", 64)
    if t == "string":
        models.sput(st, Ptr(rid, 0), v if isinstance(v, str) else absint.Opaque("opt"))
    else:
        I.store(st, Ptr(rid, 0), v, "i32" if t == "int" else "d")
    return st, Ptr(rid, 0)


PO = r"boost::program_options::"
MODELS = [
    (r"^(?:[^(]* )?" + PO + r"value<", m_value), (PO + r"options_description_easy_init::operator\(\)\(", m_addopt), (PO + r"options_description::add_options\(", models.ret0),
    (r"std::map<.*variable_value.*::count\(", m_count), (PO + r"variables_map::count", m_count), (PO + r"variables_map::operator\[\]", m_index), (PO + r"variable_value::as<", m_as),
    (PO + r"typed_value<.*::default_value", models.ret0),
    (PO + r"(parse_command_line|command_line_parser|basic_command_line_parser<.*>::|basic_parsed_options|store|notify)", models.ret0),
    (PO, models.nop), (r"std::map<.*variable_value", models.nop), (r"dealii::Utilities::MPI::n_mpi_processes\(", lambda I, st, a, F: (st, 1)),
    (r"boost::(shared_ptr|detail::shared_count|detail::sp)", models.nop),
] + models_ph.PHM


def setup(m):
    I = common.interp(m, MODELS)
    I.opts, I.cli, I.reads = [], {}, []
    st = absint.State()
    c = Ptr(I.new_region(st, "cfg", 1 << 16), 0)
    p = Ptr(I.new_region(st, "cli", 1 << 12), 0)
    st, _ = I.call(st, "probe_cfg_ctor", [c])
    st, _ = I.call(st, "probe_cli_ctor", [p])
    st, _ = I.call(st, "probe_cli_import", [p])
    if st is None:
        raise Broken("importing the options without arguments does not return")
    return I, st, c, p


def u02(C):
    m = common.module("cli.cpp", extra_stop=models_ph.PH_RE + r"|dealii::Utilities::MPI::|boost::program_options::|std::map<.*variable_value", extra=["-fno-access-control"])
    I, st0, c, p = setup(m)
    C.use(I)
    w = next((common.src(F) for F in m.funcs.values() if "CommandLineParser::applyToSolverConfiguration(" in F.d), "CommandLineParser.cpp")
    wc = next((common.src(F) for F in m.funcs.values() if "CommandLineParser::CommandLineParser(" in F.d), "CommandLineParser.cpp")
    decl = {}
    for n, k in I.opts:
        C.ob("an option is declared once", n, n not in decl, wc, "")
        decl[n] = k
    h0 = st0.x[("ph",) + models.key(c)]
    off = tuple(OFF.split("/"))
    ent = dict(h0.ent)
    ent[off] = (ent[off][0], ent[off][1], "true")        # start with the output switched off, so that switching it on is visible
    models_ph.put(st0, c, models_ph.PH((), ent, ()))
    base = ent
    verb = I.call(absint.State(), "probe_verbosity_all", [])[1]

    def apply(cli):
        I.cli = cli
        I.reads = []
        n0 = len(I.throws)
        try:
            st, _ = I.call(st0.fork(), "probe_cli_apply", [p, c])
        except absint.AnalysisError as e:
            if "on undef" not in str(e):
                raise
            return {"uninitialised value decides": str(e)}, {"uninitialised value decides"}, st0.x[("ph",) + models.key(c)]
        if st is None or len(I.throws) > n0:
            return None
        h = st.x[("ph",) + models.key(c)]
        if type(h) is not models_ph.PH:
            raise Broken("the settings depend on an unknown condition")
        for n, t in I.reads:
            C.ob("an option is read with its declared type", n, decl.get(n) == t, w, "declared %s, read as %s" % (decl.get(n), t))
        out = {"/".join(n): e[2] for n, e in h.ent.items() if repr(e[2]) != repr(base[n][2])}
        wr = {"/".join(n) for _, n, _ in h.log}
        return out, wr, h

    def val(h, n):
        v = h.ent[tuple(n.split("/"))][2]
        if isinstance(v, str):
            if v in ("true", "false"):
                return int(v == "true")
            try:
                return float(v)
            except ValueError:
                return v
        return v

    def expect(key, cli, want, rule="an option changes exactly its documented settings"):
        r = apply(cli)
        if r is None:
            C.ob(rule, key, False, w, "refused")
            return
        out, wr, h = r
        bad = []
        for n, v in want.items():
            g = val(h, n)
            if A.isnum(v) and A.isnum(g):
                if abs(float(g) - float(v)) > 1e-12 * max(1, abs(float(v))):
                    bad.append("%s is %s instead of %s" % (n, g, v))
            elif not (g == v or (not isinstance(v, str) and not isinstance(g, str) and A.show(g) == A.show(v))):
                bad.append("%s is %s instead of %s" % (n, g, v))
        extra = (wr | set(out)) - set(want)
        if extra:
            bad.append("also changes %s" % sorted(extra))
        C.ob(rule, key, not bad, w, "; ".join(bad))

    def refuse(key, cli):
        C.ob("illegal values and conflicting options are refused", key, apply(cli) is None, w, "accepted")

    expect("(no options)", {}, {})
    for o, (ent, tab) in SELECT.items():
        C.ob("documented option is declared", o, decl.get(o) == "string", wc, "declared: %s" % decl.get(o))
        for v, lit in tab.items():
            expect("--%s %s" % (o, v), {o: v}, {ent: lit})
        for v in ("", "no-such-value", list(tab)[0] + "x", list(tab)[0].upper() + "_"):
            refuse("--%s %r" % (o, v), {o: v})
    for o, (t, ent, more) in VALUE.items():
        C.ob("documented option is declared", o, decl.get(o) == t, wc, "declared: %s" % decl.get(o))
        x = A.sym("v")
        expect("--%s" % o, {o: x}, dict(more, **{ent: x}))
    C.ob("documented option is declared", "output-dir", decl.get("output-dir") == "string", wc, "")
    expect("--output-dir", {"output-dir": "/somewhere/else"}, {"Output/Output directory": "/somewhere/else", OFF: 0})
    for o in ("standard-lbm", "output-on", "verbose"):
        C.ob("documented option is declared", o, decl.get(o) == "flag", wc, "declared: %s" % decl.get(o))
    expect("--output-on", {"output-on": 1}, {OFF: 0})
    expect("--verbose", {"verbose": 1}, {OFF: 0, "Output/Command line verbosity": verb})
    expect("--standard-lbm", {"standard-lbm": 1}, {"General/CFL": 2 * math.sqrt(2), "Advection/SEDG/Order of finite element": 2, "Advection/Advection scheme": "Semi-Lagrangian"})
    for o, v in (("standard-lbm-with", 1), ("standard-lbm-with", 3), ("standard-lbm-with", 7)):
        expect("--%s %d" % (o, v), {o: v}, {"General/CFL": math.sqrt(2) * v, "Advection/SEDG/Order of finite element": v, "Advection/Advection scheme": "Semi-Lagrangian",
                                            "Advection/Support points": "Equidistant"})
    C.ob("documented option is declared", "integrator", decl.get("integrator") == "string", wc, "")
    C.ob("documented option is declared", "integrator-id", decl.get("integrator-id") == "int", wc, "")
    for i, (n, t, d) in enumerate(INTEGRATORS):
        expect("--integrator %s" % n, {"integrator": n}, {TI: t, DI: d})
        expect("--integrator-id %d" % (i + 1), {"integrator-id": i + 1}, {TI: t, DI: d})
    for v in ("", "rk5", "RK4"):
        refuse("--integrator %r" % v, {"integrator": v})
    for v in (0, 16, 99):
        refuse("--integrator-id %d" % v, {"integrator-id": v})
    refuse("--integrator with --integrator-id", {"integrator": "rk4", "integrator-id": 1})
    for s in ("standard-lbm", "standard-lbm-with"):
        refuse("--%s --cfl" % s, {s: 2, "cfl": 0.4})
        refuse("--%s --order-fe 3" % s, {s: 2, "order-fe": 3})
        refuse("--%s --streaming sedg" % s, {s: 2, "streaming": "sedg"})
    refuse("--standard-lbm --standard-lbm-with", {"standard-lbm": 1, "standard-lbm-with": 2})
    expect("--standard-lbm --order-fe 2 --streaming sl", {"standard-lbm": 1, "order-fe": 2, "streaming": "sl"},
           {"General/CFL": 2 * math.sqrt(2), "Advection/SEDG/Order of finite element": 2, "Advection/Advection scheme": "Semi-Lagrangian"})
    # several options together: the union of their settings
    allopt = {o: list(t)[-1] for o, (e, t) in SELECT.items()}
    want = {e: list(t.values())[-1] for o, (e, t) in SELECT.items()}
    for o, (t, e, more) in VALUE.items():
        allopt[o] = A.sym("v_" + o)
        want[e] = allopt[o]
        want.update(more)
    allopt["integrator"] = "cn"
    want.update({TI: "Other", DI: "Crank-Nicoloson"})
    expect("all options together", allopt, want)
    C.use(I)
    C.floor("an option changes exactly its documented settings", 90)
    C.floor("illegal values and conflicting options are refused", 40)


RUN = {"U02": u02}
