"""Models of Trilinos/deal.II distributed vectors, index sets, the solver configuration and MPI."""
import re

import poly as A
from absint import AnalysisError, Cond, Fn, IteVal, Opaque, Ptr, UNDEF, set_nop_vtable
from models import cstr, key, nop, ret0, throws
from poly import Poly

BIG = 1 << 40


def nodes(I):
    """number of representative local nodes"""
    return getattr(I, "nodes", 2)


# ---- dealii::TrilinosWrappers::MPI::Vector -----------------------------------------
def tv_get(I, st, p):
    if type(p) is IteVal:
        raise AnalysisError("distributed vector selected by an unknown condition")
    v = st.x.get(("tv",) + key(p))
    if v is None:
        n = getattr(I, "tvname", {}).get(key(p))
        rid = I.input_region(st, n or "tv(%s+%s)" % key(p), BIG)
        v = st.x[("tv",) + key(p)] = (rid, nodes(I), 0)
    return v


def tv_new(I, st, p, n=None, ghost=0):
    rid = I.new_region(st, "tv", BIG)
    n = nodes(I) if n is None else n
    r = st.writable(rid)
    for i in range(n):
        r.d[8 * i] = (8, 0.0)
    st.x[("tv",) + key(p)] = (rid, n, ghost)
    return rid


def tv_vals(I, st, p):
    rid, n, _ = tv_get(I, st, p)
    return rid, [I.load(st, Ptr(rid, 8 * i), "d") for i in range(n)]


def tv_copy(I, st, d, s):
    rid, n, gh = tv_get(I, st, s)
    r = st.region(rid)
    old = st.x.get(("tv",) + key(d))
    new = I.new_region(st, "tv", BIG, r.default)
    st.writable(new).d = dict(r.d)
    st.x[("tv",) + key(d)] = (new, n, old[2] if old and old[1] else gh)


def name_region(I, st, p, name):
    rid, n, gh = tv_get(I, st, p)
    new = I.input_region(st, name, BIG, lambda off, ty: A.sym("%s[%s]" % (name, off // 8 if not isinstance(off, Poly) else A.show(off))))
    st.x[("tv",) + key(p)] = (new, nodes(I), gh)
    return new


def m_tv_ctor(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    if len(a) == 1:
        tv_new(I, st, a[0], 0)
    elif "MPI::Vector const&)" in F.d or "MPI::Vector&&)" in F.d:
        tv_copy(I, st, a[0], a[1])
    else:
        tv_new(I, st, a[0])
    return st, None


def m_tv_reinit(I, st, a, F):
    I.event(st, "tv.reinit", (a[0],))
    ghost = 1 if "IndexSet const&, dealii::IndexSet const&" in F.d else 0
    if "reinit(dealii::TrilinosWrappers::MPI::Vector const&" in F.d:
        _, n, g = tv_get(I, st, a[1])
        tv_new(I, st, a[0], n, g)
    else:
        tv_new(I, st, a[0], None, ghost)
    return st, None


def off8(i):
    return i * 8 if type(i) is int else A.mul(i, 8.0)


def m_tv_elem(I, st, a, F):
    rid, n, _ = tv_get(I, st, a[0])
    if F.ret == "d":
        return st, I.load(st, Ptr(rid, off8(a[1])), "d")
    if isinstance(F.ret, str) and F.ret == "v":      # sret form
        I.store(st, a[0], a[1], "p")
        raise AnalysisError("sret vector reference")
    return st, [a[0], a[1]]


def ref_of(I, st, p):
    v = I.load(st, p, "p")
    i = I.load(st, Ptr(p.r, p.o + 8), "i64")
    if i is UNDEF:
        i = I.load(st, Ptr(p.r, p.o + 8), "i32")
    rid, n, _ = tv_get(I, st, v)
    return Ptr(rid, off8(i))


def m_ref_read(I, st, a, F):
    return st, I.load(st, ref_of(I, st, a[0]), "d")


def m_ref_write(I, st, a, F):
    q = ref_of(I, st, a[0])
    op = re.search(r"operator(\+=|-=|\*=|/=|=)", F.d).group(1)
    x = a[1]
    if type(x) is Ptr:
        x = I.load(st, x if "(double const&)" in F.d else ref_of(I, st, x), "d")
    if op != "=":
        o = I.load(st, q, "d")
        x = {"+=": A.add, "-=": A.sub, "*=": A.mul, "/=": A.div}[op](o, x)
    I.store(st, q, x, "d")
    return st, a[0]


def m_tv_assign(I, st, a, F):
    if isinstance(a[1], Ptr):
        tv_copy(I, st, a[0], a[1])
    else:
        rid, n, _ = tv_get(I, st, a[0])
        for i in range(n):
            I.store(st, Ptr(rid, 8 * i), a[1], "d")
    return st, a[0]


def m_tv_add(I, st, a, F):
    n = re.search(r"::(add|equ|sadd)\(", F.d).group(1)
    rid, v = tv_vals(I, st, a[0])
    if n == "add" and len(a) == 3 and isinstance(a[1], Ptr):      # add(V, allow_different_maps)
        a = [a[0], 1.0, a[1]]
    if len(a) == 2:
        w = [a[1]] * len(v)
        out = [A.add(x, y) for x, y in zip(v, w)]
    else:
        if n == "sadd":
            s, k, w = (a[1], a[2], a[3]) if len(a) == 4 else (a[1], 1.0, a[2])
            terms = [(k, w)]
        elif len(a) == 5:
            s, terms = 1.0, [(a[1], a[2]), (a[3], a[4])]
        else:
            s, terms = (1.0 if n == "add" else 0.0), [(a[1], a[2])]
        out = [A.mul(s, x) for x in v]
        for k, w in terms:
            if not isinstance(w, Ptr):
                raise AnalysisError("vector add form " + F.d)
            _, w = tv_vals(I, st, w)
            if not v and w:
                out = [0.0] * len(w)
            out = [A.add(x, A.mul(k, y)) for x, y in zip(out, w)]
    for i, x in enumerate(out):
        I.store(st, Ptr(rid, 8 * i), x, "d")
    return st, None


def m_tv_op(I, st, a, F):
    op = re.search(r"operator(\+=|-=|\*=|/=)", F.d).group(1)
    rid, v = tv_vals(I, st, a[0])
    if op in ("*=", "/="):
        out = [A.mul(x, a[1]) if op == "*=" else A.div(x, a[1]) for x in v]
    else:
        _, w = tv_vals(I, st, a[1])
        out = [A.add(x, y) if op == "+=" else A.sub(x, y) for x, y in zip(v, w)]
    for i, x in enumerate(out):
        I.store(st, Ptr(rid, 8 * i), x, "d")
    return st, a[0]


def m_tv_scalevec(I, st, a, F):
    rid, v = tv_vals(I, st, a[0])
    _, w = tv_vals(I, st, a[1])
    for i, (x, y) in enumerate(zip(v, w)):
        I.store(st, Ptr(rid, 8 * i), A.mul(x, y), "d")
    return st, None


def m_tv_size(I, st, a, F):
    n = tv_get(I, st, a[0])[1]
    if "size()" in F.d and "local_size" not in F.d and n:
        return st, getattr(I, "global_size", n)
    return st, n


def m_tv_norm(I, st, a, F):
    n = re.search(r"::(\w+)\(", F.d[F.d.index("Vector::"):]).group(1)
    _, v = tv_vals(I, st, a[0])
    I.event(st, "collective", (n,))
    if n in ("norm_sqr", "l2_norm"):
        s = 0.0
        for x in v:
            s = A.add(s, A.mul(x, x))
        if n == "l2_norm":
            from absint import mathfn
            s = mathfn("sqrt", s)
        return st, s
    return st, A.func(n, *v)


def m_tv_dot(I, st, a, F):
    _, v = tv_vals(I, st, a[0])
    _, w = tv_vals(I, st, a[1])
    s = 0.0
    for x, y in zip(v, w):
        s = A.add(s, A.mul(x, y))
    return st, s


def m_tv_compress(I, st, a, F):
    I.event(st, "compress", (a[0],))
    return st, None


def m_tv_trilinos(I, st, a, F):
    return st, a[0]


def m_extract_view(I, st, a, F):
    rid, n, _ = tv_get(I, st, a[0])
    I.store(st, a[1], Ptr(rid, 0), "p")
    if isinstance(a[2], Ptr):
        I.store(st, a[2], n, "i32")
    return st, 0


def m_tv_ghost(I, st, a, F):
    return st, tv_get(I, st, a[0])[2]


def m_tv_owned(I, st, a, F):
    # locally_owned_elements() const: sret IndexSet
    if F.ret == "v":
        st.x[("is",) + key(a[0])] = "owned"
        return st, None
    rid = I.new_region(st, "is", 64)
    return st, Ptr(rid, 0)


def m_tv_swap(I, st, a, F):
    x, y = tv_get(I, st, a[0]), tv_get(I, st, a[1])
    st.x[("tv",) + key(a[0])], st.x[("tv",) + key(a[1])] = y, x
    return st, None


def m_tv_extract(I, st, a, F):
    """extract_subvector_to: (indices, values) as vectors or (first, last, out) as iterators"""
    sig = F.d[F.d.index("extract_subvector_to"):]
    if len(a) == 3:
        a = [a[0], I.load(st, a[1], "p"), I.load(st, Ptr(a[1].r, a[1].o + 8), "p"), I.load(st, a[2], "p")]
    w = 4 if "unsigned int" in sig else 8
    rid, n, _ = tv_get(I, st, a[0])
    for k in range((a[2].o - a[1].o) // w):
        i = I.load(st, Ptr(a[1].r, a[1].o + w * k), "i%d" % (8 * w))
        I.store(st, Ptr(a[3].r, a[3].o + 8 * k), I.load(st, Ptr(rid, off8(i)), "d"), "d")
    return st, None


TVQ = r"^(?:[^(]* )?dealii::TrilinosWrappers::MPI::Vector::"
TV = [
    (TVQ + r"extract_subvector_to<?", m_tv_extract),
    (TVQ + r"Vector\(", m_tv_ctor), (TVQ + r"~Vector\(", nop), (TVQ + r"reinit\(", m_tv_reinit), (TVQ + r"clear\(", nop), (TVQ + r"operator(\(\)|\[\])\(", m_tv_elem),
    (TVQ + r"operator=\(", m_tv_assign), (TVQ + r"(add|equ|sadd)\(", m_tv_add), (TVQ + r"operator(\+|-|\*|/)=\(", m_tv_op), (TVQ + r"operator\*\(", m_tv_dot),
    (TVQ + r"scale\(", m_tv_scalevec), (TVQ + r"(size|local_size|locally_owned_size)\(", m_tv_size), (TVQ + r"(l2_norm|norm_sqr|linfty_norm|l1_norm|max|min|mean_value)\(", m_tv_norm),
    (TVQ + r"compress\(", m_tv_compress), (TVQ + r"(update_ghost_values|zero_out_ghost_values|zero_out_ghosts)\(", nop), (TVQ + r"trilinos_vector\(", m_tv_trilinos), (TVQ + r"has_ghost_elements\(", m_tv_ghost),
    (TVQ + r"locally_owned_elements\(", m_tv_owned), (TVQ + r"swap\(", m_tv_swap),
    (r"^Epetra_MultiVector::ExtractView\(", m_extract_view),
    (r"dealii::TrilinosWrappers::internal::VectorReference::operator double\(\)", m_ref_read),
    (r"dealii::TrilinosWrappers::internal::VectorReference::operator(\+|-|\*|/)?=\(", m_ref_write),
]


# ---- block vectors ----------------------------------------------------------------
def blk_get(I, st, p, i):
    k = ("blk",) + key(p) + (i,)
    r = st.x.get(k)
    if r is None:
        r = I.new_region(st, "block%s" % (i if type(i) is int else "?"), 256)
        st.x[k] = r
    return Ptr(r, 0)


def nblk(I, st, p):
    return st.x.get(("nblk",) + key(p))


def m_blk_block(I, st, a, F):
    i = a[1]
    if type(i) is not int:
        raise AnalysisError("block index %s is not constant" % A.show(i))
    n = nblk(I, st, a[0])
    if n is not None and type(n) is int and not (0 <= i < n):
        I.event(st, "block index out of range", (i, n))
    return st, blk_get(I, st, a[0], i)


def m_blk_ctor(I, st, a, F):
    set_nop_vtable(I, st, a[0])
    if len(a) == 1:
        st.x[("nblk",) + key(a[0])] = 0
    elif isinstance(a[1], Ptr) and ("BlockVector const&" in F.d or "BlockVector&&" in F.d):
        return m_blk_assign(I, st, a, F)
    elif type(a[1]) is int and len(a) == 2:
        return m_blk_reinit(I, st, a, F)
    return st, None


def m_blk_reinit(I, st, a, F):
    if type(a[1]) is int:
        st.x[("nblk",) + key(a[0])] = a[1]
        for i in range(a[1]):
            tv_new(I, st, blk_get(I, st, a[0], i), 0)
    elif isinstance(a[1], Ptr) and ("BlockVector const&" in F.d or "BlockVector&&" in F.d):
        n = nblk(I, st, a[1])
        if type(n) is not int:
            raise AnalysisError("reinit from block vector of unknown size")
        st.x[("nblk",) + key(a[0])] = n
        for i in range(n):
            _, m, g = tv_get(I, st, blk_get(I, st, a[1], i))
            tv_new(I, st, blk_get(I, st, a[0], i), m, g)
    else:
        raise AnalysisError("block reinit " + F.d)
    return st, None


def m_blk_assign(I, st, a, F):
    if isinstance(a[1], Ptr):
        n = nblk(I, st, a[1])
        if type(n) is not int:
            raise AnalysisError("assignment from block vector of unknown size")
        st.x[("nblk",) + key(a[0])] = n
        for i in range(n):
            tv_copy(I, st, blk_get(I, st, a[0], i), blk_get(I, st, a[1], i))
    else:
        for i in range(nblk(I, st, a[0])):
            m_tv_assign(I, st, [blk_get(I, st, a[0], i), a[1]], F)
    return st, a[0]


def each(I, st, p):
    n = nblk(I, st, p)
    if type(n) is not int:
        raise AnalysisError("block vector of unknown size")
    return [blk_get(I, st, p, i) for i in range(n)]


def m_blk_map(f):
    def g(I, st, a, F):
        bl = [each(I, st, x) if isinstance(x, Ptr) else x for x in a]
        n = len(bl[0])
        for i in range(n):
            f(I, st, [x[i] if isinstance(x, list) else x for x in bl], F)
        return st, (a[0] if F.ret == "p" else None)
    return g


def m_blk_n(I, st, a, F):
    n = nblk(I, st, a[0])
    return st, n if n is not None else A.sym("nblocks")


def m_blk_size(I, st, a, F):
    t = 0
    for b in each(I, st, a[0]):
        t += tv_get(I, st, b)[1]
    return st, t


BV = r"^(?:[^(]* )?dealii::(?:TrilinosWrappers::MPI::BlockVector|BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>)::"
BLOCK = [
    (BV + r"(BlockVector|BlockVectorBase)\(", m_blk_ctor), (BV + r"~", nop), (BV + r"reinit\(", m_blk_reinit), (BV + r"block\(", m_blk_block), (BV + r"operator=\(", m_blk_assign),
    (BV + r"(add|sadd|equ)\(", m_blk_map(m_tv_add)), (BV + r"operator(\+|-|\*|/)=\(", m_blk_map(m_tv_op)), (BV + r"n_blocks\(", m_blk_n), (BV + r"size\(", m_blk_size),
    (BV + r"collect_sizes\(", nop), (BV + r"compress\(", m_tv_compress), (BV + r"(update_ghost_values)\(", nop),
]


# ---- index sets -------------------------------------------------------------------
def m_is_begin(I, st, a, F):
    pos = 0 if "begin(" in F.d else nodes(I)
    if F.ret == "v":
        I.store(st, a[0], a[1], "p")
        I.store(st, Ptr(a[0].r, a[0].o + 8), pos, "i64")
        return st, None
    return st, [a[0], pos]


def itpos(I, st, p):
    return I.load(st, Ptr(p.r, p.o + 8), "i64")


def m_it_deref(I, st, a, F):
    return st, itpos(I, st, a[0])


def m_it_inc(I, st, a, F):
    p = a[0]
    if F.ret == "v":                # postfix: sret copy
        I.memcpy(st, a[0], a[1], 16)
        p = a[1]
    old = itpos(I, st, p)
    I.store(st, Ptr(p.r, p.o + 8), old + 1, "i64")
    return st, (p if F.ret in ("v", "p") else [I.load(st, p, "p"), old])


def m_it_cmp(I, st, a, F):
    x, y = itpos(I, st, a[0]), itpos(I, st, a[1])
    op = re.search(r"operator(==|!=|<)", F.d).group(1)
    return st, int({"==": x == y, "!=": x != y, "<": x < y}[op])


def m_it_ctor(I, st, a, F):
    if isinstance(a[1], Ptr) and len(a) == 2:
        I.memcpy(st, a[0], a[1], 16)
    return st, None


def m_it_assign(I, st, a, F):
    I.memcpy(st, a[0], a[1], 16)
    return st, a[0]


def m_is_elem(I, st, a, F):
    if type(a[1]) is int:
        return st, int(0 <= a[1] < nodes(I))
    return st, Cond("t", ("is_element", A.skey(a[1]) and A.show(a[1])))


def m_is_n(I, st, a, F):
    return st, nodes(I)


IS = r"^(?:[^(]* )?dealii::IndexSet::"
INDEX = [
    (IS + r"ElementIterator::ElementIterator\(", m_it_ctor), (IS + r"ElementIterator::operator\*\(", m_it_deref), (IS + r"ElementIterator::operator\+\+\(", m_it_inc),
    (IS + r"ElementIterator::operator(==|!=|<)\(", m_it_cmp), (IS + r"ElementIterator::operator=\(", m_it_assign), (IS + r"ElementIterator::", nop),
    (IS + r"(begin|end)\(", m_is_begin), (IS + r"is_element\(", m_is_elem), (IS + r"(n_elements|size)\(", m_is_n), (IS + r"~?IndexSet\(", nop), (IS, nop),
]


# ---- configuration ----------------------------------------------------------------
def m_cfg(I, st, a, F):
    n = re.search(r"SolverConfiguration::(\w+)\(", F.d).group(1)
    c = getattr(I, "cfg", {})
    I.cfg_read = getattr(I, "cfg_read", set())
    I.cfg_read.add(n)
    if n in c:
        return st, c[n]
    if n.startswith("set") or F.ret == "v":
        return st, None
    if F.ret == "i1":
        return st, Cond("t", ("cfg." + n,))
    return st, A.sym("cfg." + n)


CONFIG = [(r"natrium::SolverConfiguration::\w+\(", m_cfg)]


# ---- MPI ---------------------------------------------------------------------------
def m_guard(I, st, a, F):
    if F.ret == "v" and a:
        rid = I.new_region(st, "guard", 64)
        I.store(st, a[0], Ptr(rid, 0), "p")
        I.store(st, Ptr(a[0].r, a[0].o + 8), 0, "i64")
        return st, None
    return st, (a[0] if F.ret == "p" and a else None)


def m_mpi_val(I, st, a, F):
    n = re.search(r"MPI::(\w+)", F.d).group(1)
    if n in ("n_mpi_processes", "this_mpi_process"):
        d = getattr(I, "mpi", {})
        if n in d:
            return st, d[n]
        return st, A.sym(n)
    I.event(st, "collective", (n,))
    return st, A.func("mpi_" + n, *[x for x in a if isinstance(x, (int, float, Poly))][:1])


MPI = [(r"natrium::MPIGuard::", m_guard), (r"dealii::Utilities::MPI::", m_mpi_val), (r"^is_MPI_rank_0|natrium::is_MPI_rank_0\(|natrium::.*is_MPI_rank_0", lambda I, st, a, F: (st, Cond("t", ("rank0",))))]


# ---- probe hooks ------------------------------------------------------------------
def m_name(I, st, a, F):
    nm = cstr(I, st, a[1])
    name_region(I, st, a[0], nm if a[2] == (1 << 32) - 1 else "%s%d" % (nm, a[2]))
    I.named = getattr(I, "named", {})
    I.named[(nm, a[2])] = a[0]
    return st, None


def m_out(I, st, a, F):
    I.out = getattr(I, "out", {})
    st.x[("out", cstr(I, st, a[0]), a[1])] = a[2]
    return st, None


PROBE = [(r"^nat_name", m_name), (r"^nat_out", m_out)]

def m_obj(I, st, a, F):
    if a and type(a[0]) is Ptr and F.ret == "v" and "~" not in F.d.split("(")[0]:
        set_nop_vtable(I, st, a[0])
    return nop(I, st, a, F)


FUNCTION = [(r"^dealii::(Function|TensorFunction|Functions::\w+)<.*>::(Function|TensorFunction|\w+Function)\(", m_obj)]
LA = FUNCTION + PROBE + TV + BLOCK + INDEX + CONFIG + MPI
LA_RE = (r"^dealii::TrilinosWrappers::|^dealii::BlockVectorBase<|^dealii::IndexSet|^Epetra_|^natrium::SolverConfiguration::|^natrium::MPIGuard::|^dealii::Utilities::MPI|"
         r"^dealii::Function<|^dealii::Functions::|^dealii::Subscriptor|^natrium::is_MPI_rank_0")


def named_vals(I, st, name, i):
    """current contents of a named vector"""
    p = I.named[(name, i)]
    return tv_vals(I, st, p)[1]
