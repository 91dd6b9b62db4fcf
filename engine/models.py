"""Models (transfer functions) of library code the analyses do not descend into:
deal.II vectors, Trilinos vector references, std::string, streams, exceptions."""
import re

import poly as A
from absint import AnalysisError, set_nop_vtable, Cond, Fn, IteVal, Opaque, Ptr, UNDEF, cstr, mk_and
from poly import Poly


def key(p):
    if type(p) is not Ptr:
        raise AnalysisError("model object %r" % (p,))
    return (p.r, p.o if not isinstance(p.o, Poly) else p.o.key())


def nop(I, st, a, F):
    return st, (a[0] if F.ret == "p" and a else I.fresh(F.ret, F.d, a) if F.ret != "v" else None)


def ret0(I, st, a, F):
    return st, (a[0] if F.ret == "p" else None)


def throws(I, st, a, F):
    I.event(st, "throw", (F.d.split("(")[0],))
    I.throws.append((st.events[-1], st))
    return None, None


# ---- dealii::Vector<double> ---------------------------------------------------
def vec_get(I, st, p):
    v = st.x.get(("vec",) + key(p))
    if v is None:
        # unknown vector: symbolic contents, named after its address
        rid = I.input_region(st, "vec(%s+%s)" % key(p), 1 << 40)
        v = st.x[("vec",) + key(p)] = (rid, A.sym("size(%s+%s)" % key(p)))
    return v


def vec_new(I, st, p, n, zero=True):
    rid = I.new_region(st, "dvec", 1 << 40)
    if zero and type(n) is int:
        r = st.writable(rid)
        for i in range(n):
            r.d[8 * i] = (8, 0.0)
    elif zero:
        st.writable(rid).default = lambda off, ty: 0.0
    st.x[("vec",) + key(p)] = (rid, n)


def vec_copy(I, st, dst, src):
    rid, n = vec_get(I, st, src)
    s = st.region(rid)
    new = I.new_region(st, "dvec", s.size, s.default)
    w = st.writable(new)
    w.d = dict(s.d)
    st.x[("vec",) + key(dst)] = (new, n)


def m_vec_ctor(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    if len(a) == 1:
        vec_new(I, st, a[0], 0)
    elif isinstance(a[1], Ptr) and ("Vector<double> const&" in F.d or "Vector<double>&&" in F.d or "<double> const&" in F.d):
        vec_copy(I, st, a[0], a[1])
    elif isinstance(a[1], (int, Poly)):
        vec_new(I, st, a[0], a[1])
    else:
        raise AnalysisError("Vector ctor " + F.d)
    return st, None


def m_vec_reinit(I, st, a, F):
    if isinstance(a[1], (int, Poly)):
        vec_new(I, st, a[0], a[1])
    else:
        vec_new(I, st, a[0], vec_get(I, st, a[1])[1])
    return st, None


def m_vec_elem(I, st, a, F):
    rid, n = vec_get(I, st, a[0])
    i = a[1]
    off = i * 8 if type(i) is int else A.mul(i, 8.0)
    p = Ptr(rid, off)
    if F.ret == "d":
        return st, I.load(st, p, "d")
    return st, p


def m_vec_size(I, st, a, F):
    return st, vec_get(I, st, a[0])[1]


def m_vec_begin(I, st, a, F):
    return st, Ptr(vec_get(I, st, a[0])[0], 0)


def m_vec_assign(I, st, a, F):
    if isinstance(a[1], Ptr):
        vec_copy(I, st, a[0], a[1])
    else:
        rid, n = vec_get(I, st, a[0])
        r = st.writable(rid)
        if type(n) is int:
            for i in range(n):
                r.d[8 * i] = (8, a[1])
        else:
            raise AnalysisError("Vector = scalar of unknown size")
    return st, a[0]


def elems(I, st, p):
    rid, n = vec_get(I, st, p)
    if type(n) is not int:
        raise AnalysisError("vector of unknown size")
    return rid, [I.load(st, Ptr(rid, 8 * i), "d") for i in range(n)]


def m_vec_scale(op):
    def f(I, st, a, F):
        rid, v = elems(I, st, a[0])
        for i, x in enumerate(v):
            I.store(st, Ptr(rid, 8 * i), A.mul(x, a[1]) if op == "*" else A.div(x, a[1]), "d")
        return st, a[0]
    return f


def m_vec_addv(sg):
    def f(I, st, a, F):
        rid, v = elems(I, st, a[0])
        _, w = elems(I, st, a[1])
        for i, x in enumerate(v):
            I.store(st, Ptr(rid, 8 * i), A.add(x, w[i], sg), "d")
        return st, a[0]
    return f


def m_vec_add(I, st, a, F):       # add(a, V) / equ(a, V) / sadd(s, a, V)
    n = re.search(r"::(add|equ|sadd)\(", F.d).group(1)
    rid, v = elems(I, st, a[0])
    if n == "sadd":
        s, k, w = (a[1], a[2], a[3]) if len(a) == 4 else (a[1], 1.0, a[2])
    else:
        s, k, w = (1.0 if n == "add" else 0.0), a[1], a[2]
    _, w = elems(I, st, w)
    for i, x in enumerate(v):
        I.store(st, Ptr(rid, 8 * i), A.add(A.mul(s, x), A.mul(k, w[i])), "d")
    return st, None


def m_vec_dot(I, st, a, F):
    _, v = elems(I, st, a[0])
    _, w = elems(I, st, a[1])
    s = 0.0
    for x, y in zip(v, w):
        s = A.add(s, A.mul(x, y))
    return st, s


def m_vec_norm_sqr(I, st, a, F):
    _, v = elems(I, st, a[0])
    s = 0.0
    for x in v:
        s = A.add(s, A.mul(x, x))
    if "l2_norm" in F.d:
        from absint import mathfn
        s = mathfn("sqrt", s)
    return st, s


DV = r"^(?:[^(]* )?dealii::Vector<double>::"
VECTOR = [
    (DV + r"Vector\(", m_vec_ctor), (DV + r"~Vector\(", nop), (DV + r"reinit\(", m_vec_reinit),
    (DV + r"operator\(\)\(", m_vec_elem), (DV + r"operator\[\]\(", m_vec_elem), (DV + r"size\(", m_vec_size),
    (DV + r"begin\(", m_vec_begin), (r"dealii::Vector<double>& dealii::Vector<double>::operator=<", m_vec_assign), (DV + r"operator=\(", m_vec_assign),
    (DV + r"operator\*=\(", m_vec_scale("*")), (DV + r"operator/=\(", m_vec_scale("/")),
    (DV + r"operator\+=\(dealii", m_vec_addv(1.0)), (DV + r"operator-=\(dealii", m_vec_addv(-1.0)),
    (DV + r"(add|equ|sadd)\(", m_vec_add), (DV + r"operator\*<?", m_vec_dot), (r"double dealii::Vector<double>::operator\*<", m_vec_dot),
    (DV + r"(norm_sqr|l2_norm)\(", m_vec_norm_sqr),
]


# ---- dealii::FullMatrix<double> / Table<2,double> ------------------------------
def mat_get(I, st, p):
    v = st.x.get(("mat",) + key(p))
    if v is None:
        rid = I.input_region(st, "mat(%s+%s)" % key(p), 1 << 40)
        v = st.x[("mat",) + key(p)] = (rid, A.sym("rows(%s+%s)" % key(p)), A.sym("cols(%s+%s)" % key(p)))
    return v


def mat_new(I, st, p, n, m):
    rid = I.new_region(st, "dmat", 1 << 40)
    r = st.writable(rid)
    if type(n) is int and type(m) is int:
        for i in range(n * m):
            r.d[8 * i] = (8, 0.0)
    else:
        r.default = lambda off, ty: 0.0
    st.x[("mat",) + key(p)] = (rid, n, m)
    return rid


def mat_copy(I, st, dst, src):
    rid, n, m = mat_get(I, st, src)
    s = st.region(rid)
    new = I.new_region(st, "dmat", s.size, s.default)
    st.writable(new).d = dict(s.d)
    st.x[("mat",) + key(dst)] = (new, n, m)


def tidx(I, st, p):
    return I.load(st, p, "i64"), I.load(st, Ptr(p.r, p.o + 8), "i64")


def m_mat_ctor(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    if len(a) == 1:
        mat_new(I, st, a[0], 0, 0)
    elif isinstance(a[1], Ptr):
        if "TableIndices" in F.d:
            mat_new(I, st, a[0], *tidx(I, st, a[1]))
        else:
            mat_copy(I, st, a[0], a[1])
    elif len(a) == 2:
        mat_new(I, st, a[0], a[1], a[1])
    else:
        mat_new(I, st, a[0], a[1], a[2])
    return st, None


def m_mat_reinit(I, st, a, F):
    if isinstance(a[1], Ptr):
        if "TableIndices" in F.d:
            n, m = tidx(I, st, a[1])
        else:
            _, n, m = mat_get(I, st, a[1])
    else:
        n, m = a[1], a[2]
    mat_new(I, st, a[0], n, m)
    return st, None


def m_mat_elem(I, st, a, F):
    rid, n, m = mat_get(I, st, a[0])
    if isinstance(a[1], Ptr):
        i, j = tidx(I, st, a[1])
        rest = a[2:]
    else:
        i, j = a[1], a[2]
        rest = a[3:]
    off = A.add(A.mul(i, A.mul(m, 8)), A.mul(j, 8))
    off = int(off) if A.isnum(off) else off
    q = Ptr(rid, off)
    if "::set(" in F.d:
        I.store(st, q, rest[0], "d")
        return st, None
    if "::add(" in F.d:
        I.store(st, q, A.add(I.load(st, q, "d"), rest[0]), "d")
        return st, None
    if F.ret == "d":
        return st, I.load(st, q, "d")
    return st, q


def mrows(I, st, p):
    rid, n, m = mat_get(I, st, p)
    if type(n) is not int or type(m) is not int:
        raise AnalysisError("matrix of unknown size")
    return [[I.load(st, Ptr(rid, 8 * (i * m + j)), "d") for j in range(m)] for i in range(n)]


def mput(I, st, p, M):
    n, m = len(M), len(M[0]) if M else 0
    rid = mat_new(I, st, p, n, m)
    r = st.writable(rid)
    for i in range(n):
        for j in range(m):
            r.d[8 * (i * m + j)] = (8, M[i][j])


def m_mat_dim(I, st, a, F):
    _, n, m = mat_get(I, st, a[0])
    return st, (n if re.search(r"::(m|n_rows)\(", F.d) else m)


def m_mat_assign(I, st, a, F):
    if isinstance(a[1], Ptr):
        mat_copy(I, st, a[0], a[1])
    else:
        M = mrows(I, st, a[0])
        mput(I, st, a[0], [[a[1]] * len(r) for r in M])
    return st, a[0]


def matinv(M):
    """Gauss-Jordan over the polynomial domain"""
    n = len(M)
    W = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        best = None
        for r in range(c, n):
            x = W[r][c]
            if A.isnum(x):
                q = (abs(x) > 1e-12, 2, abs(x))
            else:
                q = (True, 1 if len(x.t) == 1 else 0, 0)
            if q[0] and (best is None or q > best[0]):
                best = (q, r)
        if best is None:
            raise AnalysisError("singular matrix")
        r = best[1]
        W[c], W[r] = W[r], W[c]
        iv = A.inv(W[c][c])
        W[c] = [A.mul(x, iv) for x in W[c]]
        for r in range(n):
            if r != c and not (A.isnum(W[r][c]) and W[r][c] == 0):
                f = W[r][c]
                W[r] = [A.sub(x, A.mul(f, y)) for x, y in zip(W[r], W[c])]
                W[r] = [0.0 if A.isnum(x) and abs(x) < 1e-13 else x for x in W[r]]
    return [r[n:] for r in W]


MATINV = {}


def inverse(M):
    """inverse of a constant matrix; the inverse of a symbolic one is an uninterpreted term per entry"""
    if all(A.isnum(x) for r in M for x in r):
        # equilibrated: the thresholds of the elimination are absolute
        R = [1 / (max(map(abs, r)) or 1.0) for r in M]
        K = [1 / (max(abs(r[j]) * d for r, d in zip(M, R)) or 1.0) for j in range(len(M))]
        W = matinv([[x * d * k for x, k in zip(r, K)] for r, d in zip(M, R)])
        return [[x * k * d for x, d in zip(r, R)] for r, k in zip(W, K)]
    k = [[A.skey(x) for x in r] for r in M]
    h = "M%08x" % (hash(repr(k)) & 0xffffffff)
    MATINV[h] = k
    n = len(M)
    return [[A.func("matinv", h, i, j) for j in range(n)] for i in range(n)]


def m_mat_gj(I, st, a, F):
    mput(I, st, a[0], inverse(mrows(I, st, a[0])))
    return st, None


def m_mat_invert(I, st, a, F):
    mput(I, st, a[0], inverse(mrows(I, st, a[1])))
    return st, None


def dotp(x, y):
    s = 0.0
    for u, v in zip(x, y):
        s = A.add(s, A.mul(u, v))
    return s


def m_mat_mmult(I, st, a, F):
    X, Y = mrows(I, st, a[0]), mrows(I, st, a[2])
    n = re.search(r"::(mmult|Tmmult|mTmult)<?", F.d).group(1)
    if n == "Tmmult":
        X = [list(c) for c in zip(*X)]
    if n != "mTmult":
        Y = [list(c) for c in zip(*Y)]
    R = [[dotp(x, y) for y in Y] for x in X]
    if len(a) > 3 and a[3] == 1:
        Z = mrows(I, st, a[1])
        R = [[A.add(u, v) for u, v in zip(r, z)] for r, z in zip(R, Z)]
    mput(I, st, a[1], R)
    return st, None


def m_mat_vmult(I, st, a, F):
    X = mrows(I, st, a[0])
    if "::Tvmult" in F.d:
        X = [list(c) for c in zip(*X)]
    _, w = elems(I, st, a[2])
    out = [dotp(x, w) for x in X]
    rid, n = vec_get(I, st, a[1])
    for i, v in enumerate(out):
        if len(a) > 3 and a[3] == 1:
            v = A.add(v, I.load(st, Ptr(rid, 8 * i), "d"))
        I.store(st, Ptr(rid, 8 * i), v, "d")
    return st, None


def m_mat_scale(I, st, a, F):
    M = mrows(I, st, a[0])
    f = a[1] if "operator*=" in F.d else A.inv(a[1])
    mput(I, st, a[0], [[A.mul(x, f) for x in r] for r in M])
    return st, a[0]


def m_mat_copyfrom(I, st, a, F):
    mat_copy(I, st, a[0], a[1])
    return st, a[0]


def m_mat_size(I, st, a, F):
    _, n, m = mat_get(I, st, a[0])
    if "n_elements" in F.d:
        x = A.mul(n, m)
        return st, int(x) if A.isnum(x) else x
    if "empty" in F.d:
        return st, int(n == 0) if type(n) is int else 0
    rid = I.new_region(st, "tidx", 16)
    I.store(st, Ptr(rid, 0), n, "i64")
    I.store(st, Ptr(rid, 8), m, "i64")
    return st, Ptr(rid, 0)


def m_mat_madd(I, st, a, F):
    """M += a A [+ b B]"""
    if F.d.count("FullMatrix<double> const&") not in (1, 2):
        raise AnalysisError(F.d)
    M = mrows(I, st, a[0])
    for k in range(1, len(a) - 1, 2):
        B = mrows(I, st, a[k + 1])
        if len(B) != len(M):
            raise AnalysisError("matrices of different size")
        M = [[A.add(x, A.mul(a[k], y)) for x, y in zip(r, q)] for r, q in zip(M, B)]
    mput(I, st, a[0], M)
    return st, None


DM = r"^(?:[^(]* )?dealii::(?:FullMatrix<double>|Table<2, double>|TableBase<2, double>)::"
MATRIX = [
    (DM + r"(FullMatrix|Table|TableBase)[<(]", m_mat_ctor), (DM + r"~", nop), (DM + r"reinit\(", m_mat_reinit), (DM + r"(operator\(\)|set|add)\((unsigned|dealii::TableIndices)", m_mat_elem),
    (DM + r"operator\(\)\(", m_mat_elem), (DM + r"add<double>\(double", m_mat_madd),
    (DM + r"(m|n|n_rows|n_cols)\(\)", m_mat_dim), (DM + r"operator=[(<]", m_mat_assign), (DM + r"gauss_jordan\(", m_mat_gj), (DM + r"invert<?", m_mat_invert),
    (DM + r"(mmult|Tmmult|mTmult)[<(]", m_mat_mmult), (DM + r"(vmult|Tvmult)[<(]", m_mat_vmult), (DM + r"operator(\*|/)=\(", m_mat_scale),
    (DM + r"copy_from[<(]", m_mat_copyfrom), (DM + r"(size|n_elements|empty)\(\)", m_mat_size),
    (r"dealii::Subscriptor::~?Subscriptor", nop),
]
MATRIX_RE = r"dealii::FullMatrix<double>::|dealii::Table<2, double>::|dealii::TableBase<2, double>::"


# ---- strings ---------------------------------------------------------------------
def sget(I, st, p):
    return st.x.get(("str",) + key(p))


def sput(st, p, v):
    st.x[("str",) + key(p)] = v


def tostr(I, st, p):
    """string object or char* -> python str or Opaque"""
    if type(p) is not Ptr:
        return Opaque("str?")
    v = sget(I, st, p)
    if v is not None:
        return v
    try:
        return cstr(I, st, p)
    except AnalysisError:
        return Opaque("str(%s+%s)" % key(p))


def m_str_ctor(I, st, a, F):
    if len(a) == 1 or "basic_string()" in F.d:
        sput(st, a[0], "")
    elif "char const*, unsigned long" in F.d:
        v = tostr(I, st, a[1])
        sput(st, a[0], v[:a[2]] if isinstance(v, str) and type(a[2]) is int else Opaque("substr"))
    elif isinstance(a[1], Ptr):
        sput(st, a[0], tostr(I, st, a[1]))
    else:
        sput(st, a[0], Opaque("str"))
    return st, None


def m_str_assign(I, st, a, F):
    sput(st, a[0], tostr(I, st, a[1]) if isinstance(a[1], Ptr) else Opaque("str"))
    return st, a[0]


def plain(v):
    """a string as text, symbolic parts in braces"""
    if isinstance(v, str):
        return v
    n = repr(v)
    n = n[1:-1] if n[:1] == "<" else n
    return n if "{" in n else "{%s}" % n


def cat(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x + y
    return Opaque(plain(x) + plain(y))


def m_str_append(I, st, a, F):
    v = tostr(I, st, a[1]) if isinstance(a[1], Ptr) else (chr(a[1]) if type(a[1]) is int else Opaque("?"))
    sput(st, a[0], cat(tostr(I, st, a[0]), v))
    return st, a[0]


def m_str_plus(I, st, a, F):
    # sret form: operator+(a, b)
    x = tostr(I, st, a[1]) if isinstance(a[1], Ptr) else (chr(a[1]) if type(a[1]) is int else Opaque("?"))
    y = tostr(I, st, a[2]) if isinstance(a[2], Ptr) else (chr(a[2]) if type(a[2]) is int else Opaque("?"))
    sput(st, a[0], cat(x, y))
    return st, None


def streq(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return int(x == y)
    if repr(x) > repr(y):
        x, y = y, x
    return Cond("t", ("streq", repr(x), repr(y)))


def m_str_eq(I, st, a, F):
    c = streq(tostr(I, st, a[0]), tostr(I, st, a[1]))
    if "operator!=" in F.d:
        from absint import cond_not
        c = cond_not(c)
    return st, c


def m_str_compare(I, st, a, F):
    x, y = tostr(I, st, a[0]), tostr(I, st, a[1])
    if isinstance(x, str) and isinstance(y, str):
        return st, 0 if x == y else (1 if x > y else (1 << 32) - 1)
    return st, I.ite(streq(x, y), 0, 1)


def m_str_cstr(I, st, a, F):
    v = tostr(I, st, a[0])
    rid = I.new_region(st, "cstr", 1 << 20)
    if isinstance(v, str):
        r = st.writable(rid)
        for i, ch in enumerate(v.encode("latin1", "replace") + b"\0"):
            r.d[i] = (1, ch)
    sput(st, Ptr(rid, 0), v)
    return st, Ptr(rid, 0)


def m_str_size(I, st, a, F):
    v = tostr(I, st, a[0])
    if isinstance(v, str):
        if "empty" in F.d:
            return st, int(not v)
        return st, len(v)
    if "empty" in F.d:
        return st, streq(v, "")
    return st, A.sym("len(%r)" % (v,))


S = r"^(?:[^(]* )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
BS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
STRING = [
    (S + r"basic_string[<(]", m_str_ctor), (S + r"~basic_string\(", nop), (S + r"operator=\(", m_str_assign), (S + r"assign\(", m_str_assign),
    (S + r"operator\+=\(", m_str_append), (S + r"append\(", m_str_append), (S + r"compare\(", m_str_compare), (S + r"c_str\(", m_str_cstr),
    (S + r"data\(", m_str_cstr), (S + r"(size|length|empty)\(", m_str_size), (r"^" + BS + r" std::operator\+<", m_str_plus),
    (r"^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\(", m_str_eq),
    (r"^std::allocator<char>::", nop), (r"^std::__new_allocator<char>::", nop),
]
STR_RE = BS + r"::(~?basic_string|operator|assign|append|compare|c_str|data|size|length|empty)|std::operator(\+|==|!=)<char"


def m_tostring(I, st, a, F):
    v = a[1]
    sput(st, a[0], str(v) if type(v) is int else Opaque("{%s}" % (A.show(v),)))
    return st, None


def m_stream_str(I, st, a, F):
    sput(st, a[0], Opaque("stream"))
    return st, None


STREAM = [
    (r"^std::__cxx11::to_string\(", m_tostring),
    (r"basic_o?stringstream<.*>::str\(\) const$", m_stream_str),
    (r"std::(__cxx11::)?basic_(o|i|io)?(string|f)?stream<|std::basic_ostream|std::operator<< ?[<(]|std::basic_ios|std::ostream::|operator<<.*\(std::ostream&|std::endl<|std::ios_base::|std::locale::", ret0),
    (r"dealii::ConditionalOStream", ret0), (r"^natrium::LOG\(|natrium::Logging::|^natrium::LOGGER", lambda I, st, a, F: (st, Ptr(I.new_region(st, "log", 64), 0) if F.ret == "p" else None)),
    (r"dealii::LogStream", ret0),
]
STREAM_RE = r"basic_(o|i|io)?(string|f)?stream<|std::basic_ostream|std::operator<< ?[<(]|std::endl<|ConditionalOStream|natrium::LOG\(|natrium::Logging::|LogStream|std::basic_ios|std::__cxx11::to_string\("

EXC = [
    (r"^(natrium::)(\w+::)*(\w*Exception|HelpMessageStop)::", nop), (r"^std::(runtime_error|logic_error|exception|out_of_range|invalid_argument|bad_alloc|bad_array_new_length|length_error)::", nop),
    (r"^natrium::natrium_errorexit\(", throws),
    (r"^dealii::Exception|^dealii::Exc|StandardExceptions", nop),
    (r"__throw_", throws), (r"^boost::throw_exception|^boost::.*bad_", throws), (r"dealii::deal_II_exceptions::internals::", nop),
]
EXC_RE = r"natrium::(\w+::)*(\w*Exception|HelpMessageStop)::|natrium_errorexit|__throw_|boost::throw_exception"

TIMER = [(r"dealii::TimerOutput", nop), (r"natrium::Timing::", lambda I, st, a, F: (st, Ptr(I.new_region(st, "timer", 64), 0)))]
TIMER_RE = r"dealii::TimerOutput|natrium::Timing::"

import models_std  # noqa: E402  (uses the string models above)
BASE = VECTOR + MATRIX + models_std.STD + STRING + STREAM + EXC + TIMER
BASE_RE = "|".join(["dealii::Vector<double>::", MATRIX_RE, models_std.STD_RE, STR_RE, STREAM_RE, EXC_RE, TIMER_RE])
