"""libstdc++ pieces that live in the shared library (no body in the bitcode): red-black trees, list links, the
rehash policy of the unordered containers, dynamic_cast, a few libm functions, string members."""
import re

import models as MD
import poly as A
from absint import AnalysisError, Opaque, Ptr


def P8(p, o):
    return Ptr(p.r, p.o + o)


def isnull(x):
    return not isinstance(x, Ptr)


def same(u, v):
    return isinstance(u, Ptr) and isinstance(v, Ptr) and u.r == v.r and u.o == v.o


# ---- std::map, std::set: node = {colour, parent, left, right}; no balancing ------------------------
def m_rb_insert(I, st, a, F):
    """insertion without balancing; the header keeps root, leftmost and rightmost"""
    left, x, p, h = a
    ld = lambda q, o: I.load(st, P8(q, o), "p")
    sp = lambda q, o, v: I.store(st, P8(q, o), v, "p")
    if type(left) is not int:
        raise AnalysisError("insertion into a map at a symbolic place")
    sp(x, 8, p)
    sp(x, 16, 0)
    sp(x, 24, 0)
    I.store(st, x, int(same(p, h)), "i32")
    if left:
        sp(p, 16, x)
        if same(p, h):
            sp(h, 8, x)
            sp(h, 24, x)
        elif same(p, ld(h, 16)):
            sp(h, 16, x)
    else:
        sp(p, 24, x)
        if same(p, ld(h, 24)):
            sp(h, 24, x)
    return st, None


def m_rb_step(I, st, a, F):
    ld = lambda q, o: I.load(st, P8(q, o), "p")
    inc = "increment" in F.d
    dn, up = (24, 16) if inc else (16, 24)
    x = a[0]
    if not inc:
        # the header is red and its grandparent is itself; the root is black
        if I.load(st, x, "i32") == 0 and same(ld(ld(x, 8), 8), x):
            return st, ld(x, 24)
    y = ld(x, dn)
    if not isnull(y):
        while not isnull(ld(y, up)):
            y = ld(y, up)
        return st, y
    y = ld(x, 8)
    while same(x, ld(y, dn)):
        x, y = y, ld(y, 8)
    if inc:
        if not same(ld(x, 24), y):
            x = y
        return st, x
    return st, y


def m_rb_erase(I, st, a, F):
    z, h = a
    ld = lambda q, o: I.load(st, P8(q, o), "p")
    sp = lambda q, o, v: I.store(st, P8(q, o), v, "p")

    def replace(old, new):
        par = ld(old, 8)
        if same(par, h):
            sp(h, 8, new)
        elif same(ld(par, 16), old):
            sp(par, 16, new)
        else:
            sp(par, 24, new)
        if not isnull(new):
            sp(new, 8, par)
    l, r = ld(z, 16), ld(z, 24)
    if isnull(l) or isnull(r):
        replace(z, r if isnull(l) else l)
    else:
        y = r
        while not isnull(ld(y, 16)):
            y = ld(y, 16)
        if not same(y, r):
            replace(y, ld(y, 24))
            sp(y, 24, r)
            sp(r, 8, y)
        replace(z, y)
        sp(y, 16, l)
        sp(l, 8, y)
    root = ld(h, 8)
    for o, d in ((16, 16), (24, 24)):
        x = h
        if not isnull(root):
            x = root
            while not isnull(ld(x, d)):
                x = ld(x, d)
        sp(h, o, x)
    if not isnull(root):
        I.store(st, root, 1, "i32")
    return st, z


# ---- std::list: node = {next, prev} ------------------------------------------------------------------
def m_hook(I, st, a, F):
    x, pos = a
    prev = I.load(st, P8(pos, 8), "p")
    I.store(st, x, pos, "p")
    I.store(st, P8(x, 8), prev, "p")
    I.store(st, prev, x, "p")
    I.store(st, P8(pos, 8), x, "p")
    return st, None


def m_unhook(I, st, a, F):
    n, p = I.load(st, a[0], "p"), I.load(st, P8(a[0], 8), "p")
    I.store(st, p, n, "p")
    I.store(st, P8(n, 8), p, "p")
    return st, None


def m_list_other(I, st, a, F):
    raise AnalysisError("list operation " + F.d)


# ---- unordered containers: the bucket count only decides the (unspecified) iteration order ---------------
PRIMES = [2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043]


def m_next_bkt(I, st, a, F):
    n = a[1]
    if type(n) is not int:
        raise AnalysisError("symbolic bucket count")
    b = next(p for p in PRIMES if p >= n)
    I.store(st, P8(a[0], 8), b, "i64")
    return st, b


def m_need_rehash(I, st, a, F):
    p, bkt, elt, ins = a
    if not all(type(x) is int for x in a[1:]):
        raise AnalysisError("symbolic container size")
    if elt + ins > bkt:
        b = next(q for q in PRIMES if q >= max(elt + ins, 2 * bkt, 11))
        I.store(st, P8(p, 8), b, "i64")
        return st, [1, b]
    return st, [0, 0]


# ---- dynamic_cast -----------------------------------------------------------------------------------------
def m_dynamic_cast(I, st, a, F):
    """the object's own class or one of its single-inheritance bases; anything else gives a null pointer"""
    if isnull(a[0]):
        return st, 0
    v = I.load(st, a[0], "p")
    name = re.match(r"g:_ZTV(\w+)$", str(getattr(v, "r", "")))
    want = re.match(r"g:_ZTI(\w+)$", str(getattr(a[2], "r", "")))
    if not name or not want or v.o != 16:
        raise AnalysisError("dynamic_cast of an unknown object %s to %s" % (v, a[2]))
    n = name.group(1)
    for _ in range(20):
        if n == want.group(1):
            return st, a[0]
        base = I.load(st, Ptr("g:_ZTI" + n, 16), "p") if "_ZTI" + n in I.m.globals else None
        m = re.match(r"g:_ZTI(\w+)$", str(getattr(base, "r", "")))
        if not m:
            return st, 0
        n = m.group(1)
    return st, 0


def m_new(I, st, a, F):
    return st, Ptr(I.new_region(st, "heap", a[0]), 0)


# ---- libm --------------------------------------------------------------------------------------------------
def num(x):
    return isinstance(x, (int, float))


def m_hypot(I, st, a, F):
    import absint
    s = A.ZERO if hasattr(A, "ZERO") else 0.0
    s = A.add(A.mul(a[0], a[0]), A.mul(a[1], a[1]))
    if len(a) > 2:
        s = A.add(s, A.mul(a[2], a[2]))
    return st, absint.mathfn("sqrt", s)


def m_rounding(I, st, a, F):
    import math
    if not num(a[0]):
        return I.unknown(st, F, a)
    x = float(a[0])
    n = F.d.split("(")[0]
    r = math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1) if n in ("lround", "llround") else float(round(x))
    return st, int(r) if n[0] == "l" else float(r)


def m_remainder(I, st, a, F):
    import math
    if num(a[0]) and num(a[1]):
        return st, math.remainder(float(a[0]), float(a[1]))
    return I.unknown(st, F, a)


# ---- string members (known text only) -------------------------------------------------------------------------
def text(I, st, p):
    v = MD.tostr(I, st, p)
    if not isinstance(v, str):
        raise AnalysisError("a text that is not known is taken apart")
    return v


def m_str_find(I, st, a, F):
    s = text(I, st, a[0])
    ch = re.search(r"find\w*\(char,", F.d)
    w = chr(a[1]) if ch else text(I, st, a[1])
    if "char const*, unsigned long, unsigned long" in F.d:
        w = w[:a[3]]
    n = re.search(r">::(\w+)\(", F.d).group(1)
    pos = a[2] if len(a) > 2 else None
    big = (1 << 64) - 1
    if n == "find":
        r = s.find(w, pos or 0)
    elif n == "rfind":
        r = s.rfind(w) if pos is None or pos >= len(s) else s.rfind(w, 0, pos + len(w))
    else:
        neg, last = "not" in n, "last" in n
        idx = range(len(s)) if not last else range(len(s) - 1, -1, -1)
        lo = pos if pos is not None else (big if last else 0)
        r = next((i for i in idx if ((s[i] in w) != neg) and (i <= lo if last else i >= lo)), -1)
    return st, (r if r >= 0 else big)


def m_str_substr(I, st, a, F):
    s = text(I, st, a[1])
    MD.sput(st, a[0], s[a[2]:a[2] + a[3]])
    return st, None


def m_str_at(I, st, a, F):
    s = MD.tostr(I, st, a[0])
    if not isinstance(s, str):
        return I.unknown(st, F, a)
    n = re.search(r">::(\w+(?:\[\])?)\(", F.d).group(1)
    i = {"front": 0, "back": len(s) - 1}.get(n, a[1] if len(a) > 1 else 0)
    _, p = MD.m_str_cstr(I, st, [a[0]], F)
    return st, Ptr(p.r, i)


def m_str_push(I, st, a, F):
    MD.sput(st, a[0], MD.cat(MD.tostr(I, st, a[0]), chr(a[1])))
    return st, None


def m_str_clear(I, st, a, F):
    MD.sput(st, a[0], "")
    return st, None


S = MD.S
MEMBERS = r"(r?find(_first_of|_last_of|_first_not_of|_last_not_of)?|substr|operator\[\]|at|front|back|push_back|clear)\("
STD = [
    (r"^std::_Rb_tree_insert_and_rebalance\(", m_rb_insert), (r"^std::_Rb_tree_(in|de)crement\(", m_rb_step), (r"^std::_Rb_tree_rebalance_for_erase\(", m_rb_erase),
    (r"^std::__detail::_List_node_base::_M_hook\(", m_hook), (r"^std::__detail::_List_node_base::_M_unhook\(", m_unhook), (r"^std::__detail::_List_node_base::", m_list_other),
    (r"^std::__detail::_Prime_rehash_policy::_M_next_bkt\(", m_next_bkt), (r"^std::__detail::_Prime_rehash_policy::_M_need_rehash\(", m_need_rehash),
    (r"^__dynamic_cast", m_dynamic_cast), (r"^operator new(\[\])?\(unsigned long, std::nothrow_t", m_new),
    (r"^hypotf?$", m_hypot), (r"^(ll?round|nearbyint|rint)$", m_rounding), (r"^remainder$", m_remainder),
    (S + r"r?find\w*\(", m_str_find), (S + r"substr\(", m_str_substr), (S + r"(operator\[\]|at|front|back)\(", m_str_at), (S + r"push_back\(", m_str_push), (S + r"clear\(", m_str_clear),
]
STD_RE = MD.BS + r"::" + MEMBERS
