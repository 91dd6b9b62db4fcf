"""U03: preparing the output directory refuses what cannot be used and destroys nothing that is there."""
import re

import common
import config
import models
import models_io
import models_ph
import restart
from common import absint, Broken
from models import Ptr, tostr, sput

STOP = models_ph.PH_RE + r"|dealii::Utilities::|^boost::filesystem|boost::filesystem::(detail::)?\w+::|boost::iterators|natrium::is_MPI_rank_0|^(std::)?clock\(?|std::basic_i(stream|os)|std::getline|std::(basic_istream<.*>& )?std::getline<|natrium::Logging|natrium::ConditionalOStream|dealii::ConditionalOStream"
nop = models.nop
APP, ATE, BIN, IN, OUTM, TRUNC = 1, 2, 4, 8, 16, 32


class FS:
    """the file system of one scenario: {path: 'dir' | 'file' | 'locked'}; dirs in `closed` cannot be written to"""

    def __init__(self, nodes, closed=(), answers=()):
        self.nodes, self.closed, self.answers = nodes, closed, answers


def fs(I, st):
    return st.x.setdefault(("fs",), tuple(sorted(I.fs.nodes.items())))


def nodes(I, st):
    return dict(fs(I, st))


def setn(st, d):
    st.x[("fs",)] = tuple(sorted(d.items()))


def up(p):
    return p.rsplit("/", 1)[0] if "/" in p else ""


def norm(p):
    return re.sub("/+", "/", p).rstrip("/")


def path(I, st, p):
    s = tostr(I, st, p)
    if not isinstance(s, str):
        try:
            s = tostr(I, st, I.load(st, p, "p"))
        except absint.AnalysisError:
            pass
    if not isinstance(s, str):
        raise Broken("unknown path %r" % (s,))
    return norm(s)


def fail(I, st, F, a, what):
    return models.throws(I, st, a, F)


def m_kind(kinds):
    def f(I, st, a, F):
        return st, int(nodes(I, st).get(path(I, st, a[0])) in kinds)
    return f


def m_mkdir(I, st, a, F):
    p, n = path(I, st, a[0]), nodes(I, st)
    if n.get(p) == "dir":
        return st, 0
    par = "create_directories" in F.d
    if p in n or up(p) in I.fs.closed or (n.get(up(p)) != "dir" and not par):
        return fail(I, st, F, a, p)
    while p and p not in n:
        n[p] = "dir"
        I.event(st, "mkdir", (p,))
        p = up(p)
    setn(st, n)
    return st, 1


def m_empty(I, st, a, F):
    p, n = path(I, st, a[0]), nodes(I, st)
    if p not in n:
        return fail(I, st, F, a, p)
    return st, int(not any(up(q) == p for q in n))


def m_remove(I, st, a, F):
    p, n = path(I, st, a[0]), nodes(I, st)
    I.event(st, "remove", (p, "remove_all" in F.d))
    hit = [q for q in n if q == p or ("remove_all" in F.d and q.startswith(p + "/"))]
    for q in hit:
        del n[q]
    setn(st, n)
    return st, int(bool(hit))


# ---- directory iteration
def m_dir(I, st, a, F):
    if len(a) > 1 and isinstance(a[1], Ptr) and "directory_iterator const&" in F.d:
        st.x[("it", a[0].r, a[0].o)] = st.x.get(("it", a[1].r, a[1].o), ())
        return st, a[0]
    if len(a) > 1 and isinstance(a[1], Ptr) and "path const&" in F.d:
        p, n = path(I, st, a[1]), nodes(I, st)
        if n.get(p) != "dir":
            return fail(I, st, F, a, p)
        st.x[("it", a[0].r, a[0].o)] = tuple(q for q in sorted(n) if up(q) == p)
    elif len(a) > 1 and isinstance(a[1], Ptr):
        st.x[("it", a[0].r, a[0].o)] = st.x.get(("it", a[1].r, a[1].o), ())
    else:
        st.x[("it", a[0].r, a[0].o)] = ()
    return st, a[0]


def m_begin(I, st, a, F):
    if F.ret == "p":
        return st, a[0]
    st.x[("it", a[0].r, a[0].o)] = at(st, a[1])
    return st, None


def m_end(I, st, a, F):
    st.x[("it", a[0].r, a[0].o)] = ()
    return st, None


def m_unknown(I, st, a, F):
    raise Broken("no model for %s" % F.d[:200])


def at(st, p):
    return st.x.get(("it", p.r, p.o), ())


def m_inc(I, st, a, F):
    st.x[("it", a[0].r, a[0].o)] = at(st, a[0])[1:]
    return st, a[0]


def m_deref(I, st, a, F):
    v = at(st, a[0])
    if not v:
        raise Broken("a directory iterator is read past its end")
    r = Ptr(I.new_region(st, "entry", 256), 0)
    sput(st, r, v[0])
    return st, r


def m_cmp(I, st, a, F):
    eq = at(st, a[0]) == at(st, a[1])
    return st, int(eq if "operator==" in F.d or "equal" in F.d else not eq)


# ---- files
def m_open(I, st, a, F):
    st, _ = models_io.m_open(I, st, a if len(a) > 1 else [a[0], None], F)
    st.x[("bad", a[0].r)] = st.x.get(("bad", a[0].r), 0)
    if len(a) < 2 or not isinstance(a[1], Ptr):
        st.x[("open", a[0].r)] = 0
        return st, None
    p, n = path(I, st, a[1]), nodes(I, st)
    mode = a[-1] if type(a[-1]) is int else (OUTM if "ofstream" in F.d else IN if "ifstream" in F.d else IN | OUTM)
    if "ofstream" in F.d:
        mode |= OUTM
    wr = mode & (OUTM | APP | TRUNC)
    ok = n.get(p) == "file" or (n.get(p) == "locked" and not wr)
    if p not in n and wr and not (mode & IN and not mode & (TRUNC | APP)):
        ok = n.get(up(p)) == "dir" and up(p) not in I.fs.closed
        if ok:
            n[p] = "file"
            setn(st, n)
    elif ok and p in I.fs.nodes and (mode & TRUNC or (wr and not mode & (APP | IN))):
        I.event(st, "destroy", (p,))
    I.event(st, "open", (p, mode, int(ok)))
    st.x[("open", a[0].r)] = int(ok)
    st.x[("file", a[0].r)] = p
    if not ok:
        st.x[("bad", a[0].r)] = 1
        if st.x.get(("exc", a[0].r)):
            return fail(I, st, F, a, p)
    return st, None


def sk(I, st, p):
    """region of the stream, also when called through its virtual base"""
    return p.r


def m_isopen(I, st, a, F):
    return st, st.x.get(("open", sk(I, st, a[0])), 0)


def m_good(v):
    return lambda I, st, a, F: (st, st.x.get(("bad", a[0].r), 0) if v else 1 - st.x.get(("bad", a[0].r), 0))


def m_exc(I, st, a, F):
    if len(a) > 1:
        st.x[("exc", a[0].r)] = 1
        if st.x.get(("bad", a[0].r)):
            return fail(I, st, F, a, "")
    return st, None


def m_write(I, st, a, F):
    p = a[0]
    if isinstance(p, Ptr) and ("open", p.r) in st.x:
        if not st.x[("open", p.r)]:
            st.x[("bad", p.r)] = 1
            if st.x.get(("exc", p.r)):
                return fail(I, st, F, a, "")
        elif st.x.get(("file", p.r)) in I.fs.nodes:
            I.event(st, "destroy", (st.x[("file", p.r)],))
        return st, p
    return models_io.m_put(I, st, a, F)


def m_close(I, st, a, F):
    if not st.x.get(("open", a[0].r)):
        st.x[("bad", a[0].r)] = 1
        if st.x.get(("exc", a[0].r)):
            return fail(I, st, F, a, "")
    st.x[("open", a[0].r)] = 0
    return st, None


def m_getline(I, st, a, F):
    k = st.x.get(("asked",), 0)
    st.x[("asked",)] = k + 1
    sput(st, a[1], I.fs.answers[k] if k < len(I.fs.answers) else "")
    return st, a[0]


def m_rank(I, st, a, F):
    return st, int(I.rank == 0)


def m_branch(I, st, a, F):
    sput(st, a[0], up(norm(tostr(I, st, a[1]))))
    return st, None


def m_div(I, st, a, F):
    r = tostr(I, st, a[2])
    if not isinstance(r, str):
        r = tostr(I, st, I.load(st, a[2], "p"))
    sput(st, a[0], norm(path(I, st, a[1]) + "/" + r))
    return st, None


FSRE = r"boost::filesystem::(detail::)?"
MODELS = [
    (r"boost::filesystem::operator/|filesystem::path>::type boost::filesystem::operator", m_div), (r"directory_entry::operator boost::filesystem::path const&", lambda I, st, a, F: (st, a[0])),
    (r"boost::filesystem::path::(branch_path|parent_path)\(", m_branch), (FSRE + r"is_directory\(", m_kind(("dir",))), (FSRE + r"exists\(", m_kind(("dir", "file", "locked"))),
    (FSRE + r"is_regular_file\(", m_kind(("file", "locked"))), (FSRE + r"create_director(y|ies)\(", m_mkdir), (FSRE + r"is_empty\(", m_empty), (FSRE + r"remove(_all)?\(", m_remove),
    (r"boost::iterators::operator(!=|==)<boost::filesystem::directory_iterator|operator(!=|==)<boost::filesystem::directory_iterator|directory_iterator::equal", m_cmp),
    (r"iterator_facade_base<boost::filesystem::directory_iterator.*::operator(\*|->)", m_deref), (r"iterator_facade_base<boost::filesystem::directory_iterator.*::operator\+\+", m_inc),
    (r"boost::filesystem::(range_)?begin\(", m_begin), (r"boost::filesystem::(range_)?end\(", m_end),
    (r"boost::filesystem::directory_iterator::(directory_iterator|operator=)\(", m_dir), (r"boost::filesystem::directory_iterator::", nop),
    (models_io.OF + r"is_open\(", m_isopen), (models_io.OF + r"close\(", m_close), (models_io.OF + r"basic_(o|i)?fstream(<.*>)?\(|" + models_io.OF + r"open\(", m_open), (models_io.OF + r"~", nop),
    (r"std::basic_ios<char, std::char_traits<char> ?>::(fail|bad|operator!)\(", m_good(1)), (r"std::basic_ios<char, std::char_traits<char> ?>::(good|operator bool)\(", m_good(0)),
    (r"std::basic_ios<char, std::char_traits<char> ?>::exceptions\(", m_exc),
    (r"std::operator<< ?<|std::basic_ostream<char, std::char_traits<char> ?>::operator<<|std::ostream::operator<<|std::ostream::_M_insert<", m_write),
    (r"std::getline<", m_getline), (r"^clock\(?|^std::clock", lambda I, st, a, F: (st, 0)), (r"natrium::is_MPI_rank_0\(", m_rank),
    (r"MPI::this_mpi_process\(", lambda I, st, a, F: (st, I.rank)), (r"MPI::n_mpi_processes\(", lambda I, st, a, F: (st, 4)), (r"job_supports_mpi", lambda I, st, a, F: (st, 1)),
    (r"System::get_hostname", lambda I, st, a, F: (sput(st, a[0], "host"), (st, None))[1]),
] + models_ph.PHM + restart.IO + [(r"^boost::filesystem::[\w:~=+*!-]+(\[abi:\w+\])?\(", m_unknown)]


def mod():
    return common.module("outdir.cpp", extra_stop=STOP, extra=["-Wno-enum-constexpr-conversion"])


NEWDIR = {"": "dir", "/data": "dir"}
OUT = "/data/run"


def world(**kw):
    d = dict(NEWDIR)
    d.update({k.replace("OUT", OUT): v for k, v in kw.pop("n", {}).items()})
    return FS(d, kw.get("closed", ()), kw.get("answers", ()))


def run(m, w, restart_at=0, ask=0, rank=0):
    I = common.interp(m, MODELS)
    I.fs, I.rank, I.rank0, I.files, I.tokens = w, rank, int(rank == 0), [], {}
    st = absint.State()
    c = Ptr(I.new_region(st, "cfg", 1 << 16), 0)
    st, _ = I.call(st, "probe_cfg_ctor", [c])
    h = st.x[("ph",) + models.key(c)]
    e = dict(h.ent)
    for n, v in (("Output/Output directory", OUT), ("Initialization/Restart at iteration", "%d" % restart_at), ("Output/User interaction?", "true" if ask else "false")):
        k = tuple(n.split("/"))
        if k not in e:
            raise Broken("no parameter %s" % n)
        e[k] = (e[k][0], e[k][1], v)
    models_ph.put(st, c, models_ph.PH((), e, ()))
    I.throws = []
    I.catching = True
    st2, _ = I.call(st, "probe_prepare", [c])
    return I, st2


def u03(C):
    m = mod()
    w = config.where(m, "prepareOutputDirectory")
    ACC = "a usable output directory is accepted"
    REF = "an unusable output directory is refused"
    KEEP = "preparing the directory destroys nothing"
    MADE = "output and checkpoint directory are there afterwards"
    ASK = "the user is asked exactly when old output could be overwritten"
    YES = "a run over old output needs the user's consent"

    def go(rule, key, good, wd, **kw):
        I, st = run(m, wd, **kw)
        C.use(I)
        C.ob(rule, key, (st is not None) == good, w, "accepted" if st is not None else "refused (%s)" % (I.throws and str(I.throws[-1][0])[:160]))
        end = st if st is not None else I.throws[-1][1]
        n = nodes(I, end)
        lost = [q for q in wd.nodes if n.get(q) != wd.nodes[q]] + [e[1][0] for e in evs(end) if e[0] == "destroy"]
        left = [q for q in n if q not in wd.nodes and n[q] != "dir"]
        C.ob(KEEP, key, not lost and not left, w, "lost or overwritten: %s; left behind: %s" % (lost, left))
        if st is not None:
            C.ob(MADE, key, n.get(OUT) == "dir" and n.get(OUT + "/checkpoint") == "dir", w, "%s" % sorted(n))
        return I, st, end

    def evs(st):
        return [(e.kind, e.args) for e in st.events]

    OLD = {"OUT": "dir", "OUT/a.vtu": "file", "OUT/results_table.txt": "file"}
    CK = dict(OLD, **{"OUT/checkpoint": "dir", "OUT/checkpoint/checkpoint_5.stat": "file", "OUT/checkpoint/checkpoint_5.data": "file"})
    for ra in (0, 5):
        for ask in (0, 1):
            tag = "restart=%d interaction=%d" % (ra, ask)
            kw = {"restart_at": ra, "ask": ask}
            # ---- accepted
            for name, nd, old in (("new directory", {}, 0), ("empty directory", {"OUT": "dir"}, 0), ("old output", OLD, 1), ("old output with checkpoints", CK, 1)):
                I, st, end = go(ACC, name + " " + tag, True, world(n=nd, answers=("y",)), **kw)
                n = end.x.get(("asked",), 0)
                C.ob(ASK, name + " " + tag, (n > 0) == bool(old and ask and not ra), w, "%d questions" % n)
            # ---- refused
            for name, nd, closed in (("parent does not exist", {"/data": "file"}, ()), ("directory cannot be made", {}, ("/data",)), ("a file of that name", {"OUT": "file"}, ()),
                                     ("first file cannot be written", dict(OLD, **{"OUT/a.vtu": "locked"}), ()), ("last file cannot be written", dict(OLD, **{"OUT/results_table.txt": "locked"}), ()),
                                     ("no new file can be made in an empty directory", {"OUT": "dir"}, (OUT,)), ("no new file can be made beside old output", OLD, (OUT,)),
                                     ("no new file can be made beside old checkpoints", CK, (OUT,)), ("a file in the place of the checkpoints", dict(OLD, **{"OUT/checkpoint": "file"}), ())):
                go(REF, name + " " + tag, False, world(n=nd, closed=closed, answers=("y",)), **kw)
    # ---- the answer decides
    for name, ans, good in (("y", ("y",), 1), ("n", ("n",), 0), ("unclear, then y", ("what", "", "y"), 1), ("unclear, then n", ("yes!", "n"), 0), ("only nonsense", ("k",) * 40, 0), ("end of input", (), 0)):
        for nm, nd in (("old output", OLD), ("only a directory", {"OUT": "dir", "OUT/checkpoint": "dir"})):
            go(YES, "%s: %s" % (nm, name), bool(good), world(n=nd, answers=ans), ask=1)
    # ---- the other processes
    for rank in (1, 3):
        for name, nd in (("empty directory", {"OUT": "dir"}), ("old output", CK)):
            I, st = run(m, world(n=nd), rank=rank)
            n = nodes(I, st) if st is not None else {}
            C.ob("only the first process talks to the user", "process %d, %s" % (rank, name), st is not None and not st.x.get(("asked",)), w, "")
            C.ob(KEEP, "process %d, %s" % (rank, name), st is not None and all(n.get(q) == k for q, k in I.fs.nodes.items()) and not [e for e in evs(st) if e[0] == "destroy"], w, "")
    C.floor(ACC, 16)
    C.floor(REF, 36)
    C.floor(YES, 12)
    C.floor(KEEP, 60)


RUN = {"U03": u03}
