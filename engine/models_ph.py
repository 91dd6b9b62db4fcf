"""Model of dealii::ParameterHandler: declared entries with patterns, the sub-section stack, typed get and set.
A handler is a python value in st.x: (path, entries) with entries = {full path: (pattern, default, value)}."""
import absint
import poly as A
from absint import Ptr, Opaque
from models import key, nop, tostr, sput, throws


class PH:
    """immutable value object; joins produce an IteVal only if the two sides differ"""
    __slots__ = ("path", "ent", "log")

    def __init__(self, path=(), ent=None, log=()):
        self.path, self.ent, self.log = path, ent or {}, log

    def key(self):
        return ("ph", self.path, tuple(sorted((k, repr(v)) for k, v in self.ent.items())), self.log)

    def __eq__(self, o):
        return type(o) is PH and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "PH@%s" % (self.path,)


def get(I, st, p):
    v = st.x.get(("ph",) + key(p))
    if v is None:
        v = PH()
    if type(v) is not PH:
        raise absint.AnalysisError("parameter handler depends on an unknown condition")
    return v


def put(st, p, v):
    st.x[("ph",) + key(p)] = v


def need(s, what):
    if not isinstance(s, str):
        raise absint.AnalysisError("%s is not a known string: %r" % (what, s))
    return s


def m_enter(I, st, a, F):
    h = get(I, st, a[0])
    put(st, a[0], PH(h.path + (need(tostr(I, st, a[1]), "section name"),), h.ent, h.log))
    return st, None


def m_leave(I, st, a, F):
    h = get(I, st, a[0])
    if not h.path:
        return throws(I, st, a, F)
    put(st, a[0], PH(h.path[:-1], h.ent, h.log))
    return st, None


def m_declare(I, st, a, F):
    h = get(I, st, a[0])
    n = h.path + (need(tostr(I, st, a[1]), "entry name"),)
    pat = st.x.get(("pat",) + key(a[3]))
    e = dict(h.ent)
    d = tostr(I, st, a[2])
    e[n] = (pat, d, d)
    put(st, a[0], PH(h.path, e, h.log))
    return st, None


def m_pattern(kind):
    def f(I, st, a, F):
        args = tuple(tostr(I, st, x) if isinstance(x, Ptr) else x for x in a[1:])
        st.x[("pat",) + key(a[0])] = (kind,) + args
        return st, None
    return f


def lookup(I, st, a, F):
    h = get(I, st, a[0])
    n = h.path + (need(tostr(I, st, a[1 if F.ret != "v" or "set(" in F.d else 2]), "entry name"),)
    return h, n


def m_get(conv):
    def f(I, st, a, F):
        sret = conv == "s"
        this, nm = (a[1], a[2]) if sret else (a[0], a[1])
        h = get(I, st, this)
        n = h.path + (need(tostr(I, st, nm), "entry name"),)
        st.x[("phread",) + key(this)] = st.x.get(("phread",) + key(this), ()) + ((conv, n),)
        if n not in h.ent:
            I.event(st, "throw", ("ParameterHandler: entry %s is not declared" % (n,),))
            I.throws.append((st.events[-1], st))
            return None, None
        v = h.ent[n][2]
        if sret:
            sput(st, a[0], v if isinstance(v, (str, Opaque)) else Opaque("cfg:" + "/".join(n)))
            return st, None
        if conv == "b":
            if isinstance(v, str):
                return st, int(v in ("true", "yes", "on"))
            return st, v
        if isinstance(v, str):
            try:
                x = float(v)
            except ValueError:
                return st, A.sym("cfg:" + "/".join(n))
            return st, (int(x) if conv == "i" else x)
        return st, v
    return f


def m_set(I, st, a, F):
    h = get(I, st, a[0])
    n = h.path + (need(tostr(I, st, a[1]), "entry name"),)
    v = tostr(I, st, a[2]) if isinstance(a[2], Ptr) else a[2]
    if n not in h.ent:
        I.event(st, "throw", ("ParameterHandler: entry %s is not declared" % (n,),))
        I.throws.append((st.events[-1], st))
        return None, None
    e = dict(h.ent)
    e[n] = (e[n][0], e[n][1], v)
    put(st, a[0], PH(h.path, e, h.log + (("set", n, repr(v)),)))
    return st, None


P = r"dealii::ParameterHandler::"
PT = r"dealii::Patterns::"
PHM = [
    (P + r"enter_subsection\(", m_enter), (P + r"leave_subsection\(", m_leave), (P + r"declare_entry\(", m_declare),
    (P + r"get\(", m_get("s")), (P + r"get_double\(", m_get("d")), (P + r"get_integer\(", m_get("i")), (P + r"get_bool\(", m_get("b")), (P + r"set\(", m_set),
    (PT + r"Selection::Selection\(", m_pattern("sel")), (PT + r"Double::Double\(", m_pattern("double")), (PT + r"Integer::Integer\(", m_pattern("int")),
    (PT + r"Bool::Bool\(", m_pattern("bool")), (PT + r"DirectoryName::DirectoryName\(", m_pattern("dir")), (PT + r"List::List\(", m_pattern("list")),
    (PT + r"\w+::~?\w+\(", nop), (P + r"~?ParameterHandler\(", nop),
]
PH_RE = P + "|" + PT
