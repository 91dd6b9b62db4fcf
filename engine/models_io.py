"""string streams and files that remember what was written (for output and checkpoint properties)"""
import re

import models
from models import A, Ptr, Opaque, sput, tostr
from absint import cstr


def text(v):
    """token -> readable text; symbolic parts in braces"""
    if isinstance(v, str):
        return v
    if isinstance(v, Opaque):
        n = v.n if hasattr(v, "n") else repr(v)
        n = n[1:-1] if n[:1] == "<" else n
        return n if "{" in n else "{%s}" % n
    if A.isnum(v):
        return "%d" % v if float(v) == int(v) else repr(float(v))
    try:
        return "{%s}" % A.show(v)
    except Exception:
        return "{%r}" % (v,)


def val(s):
    return s if "{" not in s else Opaque(s)


def content(st, p):
    v = st.x.get(("ss", p.r), "")
    return v if isinstance(v, str) else "{%r}" % (v,)


def put(st, p, s):
    st.x[("ss", p.r)] = content(st, p) + s


def m_ctor(I, st, a, F):
    st.x[("ss", a[0].r)] = ""
    return st, None


def m_open(I, st, a, F):
    p = a[0]
    if not hasattr(I, "streams"):
        I.streams = {}
    if p.r not in I.streams:
        # only the offset of the virtual base std::ios is read through this table pointer
        vt = I.streams[p.r] = Ptr(I.new_region(st, "vt:stream", 64), 32)
        I.store(st, Ptr(vt.r, 8), 248 if "ofstream" in F.d else 256, "i64")
    I.store(st, p, I.streams[p.r], "p")
    if isinstance(a[1], Ptr):
        st.x[("file", p.r)] = text(tostr(I, st, a[1]))
        st.x[("ss", p.r)] = ""
    return st, None


def opname(v):
    return v.r if isinstance(v, Opaque) and hasattr(v, "r") else repr(v)


def m_put(I, st, a, F):
    p = a[0]
    if isinstance(p, Ptr) and len(a) > 1:
        v = a[1]
        if isinstance(v, Ptr):
            t = tostr(I, st, v)
            t = t if isinstance(t, str) else text(t)
        elif "char)" in F.d and type(v) is int:
            t = chr(v)
        elif callable(getattr(v, "n", None)) or type(v).__name__ == "Fn":
            t = "\n" if "endl" in repr(v) else ""
        else:
            t = text(v)
        put(st, p, t)
    return st, p


def m_str(I, st, a, F):
    sput(st, a[0], val(content(st, a[1])))
    return st, None


SS = r"std::__cxx11::basic_(o|io)?stringstream<char, std::char_traits<char>, std::allocator<char> ?>::"
OF = r"std::basic_(o|i)?fstream<char, std::char_traits<char> ?>::"
IO = [
    (SS + r"basic_(o|io)?stringstream\(", m_ctor), (SS + r"str\(\) const$", m_str),
    (OF + r"basic_(o|i)?fstream(<.*>)?\(|" + OF + r"open\(", m_open),
    (r"std::operator<< ?<|std::basic_ostream<char, std::char_traits<char> ?>::operator<<|std::ostream::operator<<|std::ostream::_M_insert<", m_put),
    (r"std::endl<", lambda I, st, a, F: (put(st, a[0], "\n"), (st, a[0]))[1] if isinstance(a[0], Ptr) else (st, a[0])),
]


def precision(I, st, p):
    """digits a stream writes (the default is 6)"""
    try:
        v = I.load(st, Ptr(p.r, 256), "i64")
    except Exception:
        v = None
    v = st.x.get(("prec", p.r), v)
    return v if type(v) is int else 6
