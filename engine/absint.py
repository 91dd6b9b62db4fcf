"""Abstract interpreter for LLVM IR (as written by irdump).

Domain: constants, Laurent polynomials over symbolic inputs (poly.py), pointers
(region, offset) into allocation-site memory.  Branches on unknown conditions are
analysed on both sides and JOINED at the immediate post-dominator; joined values
are gated terms ite(c,a,b).  Loops with a constant trip count are unrolled by
constant propagation; loops whose exit condition stays unknown are analysed for
one representative iteration (recorded in `approx`).  Exceptions end the branch
(and are recorded as events with their guards).  No code of the program is run.
"""
import json
import math
import re

import poly as A
from poly import Poly

UNDEF = type("Undef", (), {"__repr__": lambda s: "undef"})()
BOTTOM = type("Bottom", (), {"__repr__": lambda s: "bottom"})()


class AnalysisError(Exception):
    pass


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r = r
        self.o = o

    def key(self):
        return ("ptr", self.r, self.o if not isinstance(self.o, Poly) else self.o.key())

    def __eq__(self, x):
        return type(x) is Ptr and x.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "&%s+%s" % (self.r, self.o)


class Fn:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def key(self):
        return ("fn", self.n)

    def __eq__(self, x):
        return type(x) is Fn and x.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "@" + self.n


class Cond:
    """canonical symbolic condition: ('lt'|'le'|'eq'|'ne', poly vs 0) | ('id', atom name, polarity)"""
    __slots__ = ("k", "v", "neg_")

    def __init__(self, k, v):
        self.k = k
        self.v = v

    def key(self):
        return ("cond", self.k, A.skey(self.v) if not isinstance(self.v, tuple) else tuple(A.skey(x) if not isinstance(x, str) else x for x in self.v))

    def polys(self):
        if isinstance(self.v, tuple):
            return [x for x in self.v if not isinstance(x, str)]
        return [self.v]

    def __eq__(self, x):
        return isinstance(x, Cond) and x.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k in ("and", "or"):
            return "(%r %s %r)" % (self.v[0], self.k, self.v[1])
        if self.k in ("t", "f"):
            return ("" if self.k == "t" else "!") + str(self.v[0]) + "(" + ",".join(A.show(x) if isinstance(x, Poly) else repr(x) for x in self.v[1:]) + ")"
        return "(%s %s 0)" % (A.show(self.v), {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}[self.k])


def cond_not(c):
    if not isinstance(c, Cond):
        return 1 - c
    if c.k == "lt":
        return Cond("le", A.neg(c.v))
    if c.k == "le":
        return Cond("lt", A.neg(c.v))
    if c.k == "eq":
        return Cond("ne", c.v)
    if c.k == "ne":
        return Cond("eq", c.v)
    if c.k == "t":
        return Cond("f", c.v)
    if c.k == "f":
        return Cond("t", c.v)
    if c.k == "and":
        return mk_or(cond_not(c.v[0]), cond_not(c.v[1]))
    if c.k == "or":
        return mk_and(cond_not(c.v[0]), cond_not(c.v[1]))
    raise AnalysisError("cond_not")


def as_bool(x):
    """an i1 operand that is a polynomial (a flag from memory or an argument) as a condition"""
    if isinstance(x, Poly):
        return norm_cmp("ne", x)
    if isinstance(x, Opaque):
        return Cond("t", (repr(x),))
    if not isinstance(x, (Cond, int, float)):
        raise AnalysisError("logic on %r" % (x,))
    return x


def mk_and(a, b):
    a, b = as_bool(a), as_bool(b)
    if not isinstance(a, Cond):
        return b if a else 0
    if not isinstance(b, Cond):
        return a if b else 0
    if a == b:
        return a
    return Cond("and", (a, b))


def mk_or(a, b):
    a, b = as_bool(a), as_bool(b)
    if not isinstance(a, Cond):
        return 1 if a else b
    if not isinstance(b, Cond):
        return 1 if b else a
    if a == b:
        return a
    return Cond("or", (a, b))


BOX = None      # active interval box (engine/box.py)


def norm_cmp(k, d):
    """k in lt/le/eq/ne applied to d (vs 0)"""
    if A.isnum(d):
        return int({"lt": d < 0, "le": d <= 0, "eq": d == 0, "ne": d != 0}[k])
    if BOX is not None:
        r = BOX.decide(k, d)
        if r is not None:
            return r
    c, q = A.canon_lead(d)
    if k in ("eq", "ne"):
        return Cond(k, q)
    return Cond(k, q if c > 0 else A.neg(q))


class IteVal:
    """gated join of non-numeric values"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return ("ite", A.skey(self.c), A.skey(self.a), A.skey(self.b))

    def __eq__(self, x):
        return isinstance(x, IteVal) and x.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "ite(%r,%r,%r)" % (self.c, self.a, self.b)


class Opaque:
    """value of no interest (uninterpreted), named"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def key(self):
        return ("opq", self.n)

    def __eq__(self, x):
        return isinstance(x, Opaque) and x.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "<%s>" % (self.n,)


class Region:
    __slots__ = ("id", "name", "size", "d", "default", "owner", "kind", "meta", "cell")

    def __init__(self, rid, name, size, default=None, owner=None, kind="heap"):
        self.id, self.name, self.size = rid, name, size
        self.d = {}
        self.default = default
        self.owner = owner
        self.kind = kind
        self.meta = None

    def clone(self, owner):
        r = Region(self.id, self.name, self.size, self.default, owner, self.kind)
        r.d = dict(self.d)
        r.meta = self.meta
        return r


class State:
    def __init__(self):
        self.mem = {}
        self.events = []
        self.assume = {}
        self.guards = ()
        self.x = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.events = list(self.events)
        s.assume = dict(self.assume)
        s.guards = self.guards
        s.x = dict(self.x)
        self._disown()
        return s

    def _disown(self):
        # copy on write: afterwards neither state owns the shared regions
        for r in self.mem.values():
            r.owner = None

    def region(self, rid):
        r = self.mem.get(rid)
        if r is None:
            raise AnalysisError("unknown region %s" % rid)
        return r

    def writable(self, rid):
        r = self.mem.get(rid)
        if r is None:
            raise AnalysisError("unknown region %s" % rid)
        if r.owner is not self:
            r = r.clone(self)
            self.mem[rid] = r
        return r


TS = {"d": 8, "f": 4, "p": 8, "i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "x": 16, "i24": 3, "i48": 6, "i56": 7, "i40": 5}


def tsize(t):
    if isinstance(t, str):
        if t in TS:
            return TS[t]
        if t[0] == "i":
            return (int(t[1:]) + 7) // 8
        raise AnalysisError("size of %s" % t)
    return t[0]


class K:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Func:
    __slots__ = ("name", "d", "file", "line", "args", "ret", "blocks", "n", "pd", "raw", "base", "reach")


class NOBODY:
    raw = None


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.files = j["files"]
        self.globals = j["globals"]
        self.funcs = {}
        self.bydem = {}
        for n, f in j["functions"].items():
            F = Func()
            F.name, F.d = n, f["d"]
            F.file = self.files[f["file"]] if "file" in f else None
            F.line = f.get("line")
            F.args, F.ret = f["args"], f["ret"]
            F.raw = f.get("b")
            F.n = f.get("n", 0)
            F.blocks = None
            F.pd = None
            F.reach = None
            self.funcs[n] = F
            self.bydem.setdefault(f["d"], F)

    def find(self, regex):
        r = re.compile(regex)
        return [f for f in self.funcs.values() if r.search(f.d)]

    def const(self, c):
        k = c[0]
        if k == "i":
            return c[2]
        if k == "f":
            return float(c[1])
        if k == "n":
            return 0
        if k == "u":
            return UNDEF
        if k == "g":
            if c[1] in self.funcs and c[2] == 0:
                return Fn(c[1])
            return Ptr("g:" + c[1], c[2])
        if k == "c":
            return self.const(c[1])
        if k == "z":
            return zero_of(c[1])
        if k == "s":
            return [self.const(x) for x in c[1]]
        return UNDEF

    def prep(self, F):
        bl = []
        for b in F.raw:
            L = []
            for ins in b:
                op, res, ty, ops, ex, fi, ln = ins
                if op == "phi":
                    ops = [(o if type(o) is int else K(self.const(o)), p) for o, p in ops]
                else:
                    ops = [o if type(o) is int else K(self.const(o)) for o in ops]
                if op == "getelementptr" and ex is not None:
                    ex = (ex[0], [(x[0] if type(x[0]) is int else K(self.const(x[0])), x[1]) for x in ex[1:]])
                    if ex[0] is None:
                        ex = None
                L.append((op, res, ty, ops, ex, (fi, ln)))
            bl.append(L)
        F.blocks = bl
        return bl

    def succs(self, b):
        op, res, ty, ops, ex, loc = b[-1]
        if op == "br":
            return list(ex)
        if op == "switch":
            return [ex[0]] + [x[1] for x in ex[1:]]
        if op == "invoke":
            return [ex[0]]
        return []

    def postdom(self, F):
        """immediate post-dominators w.r.t. the virtual exit (-1); exceptional exits are ignored"""
        if F.pd is not None:
            return F.pd
        bl = F.blocks
        n = len(bl)
        succ = [self.succs(b) for b in bl]
        term = [b[-1][0] for b in bl]
        # nodes that reach a normal return
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        live = set(i for i in range(n) if term[i] == "ret")
        st = list(live)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    st.append(p)
        # iterative post-dominator computation (sets as bitmasks)
        full = (1 << (n + 1)) - 1
        EXIT = n
        pdm = [full] * (n + 1)
        pdm[EXIT] = 1 << EXIT
        ch = True
        order = list(range(n))[::-1]
        while ch:
            ch = False
            for i in order:
                if i not in live:
                    continue
                ss = [s for s in succ[i] if s in live]
                if term[i] == "ret":
                    ss = [EXIT]
                m = full
                for s in ss:
                    m &= pdm[s]
                m |= 1 << i
                if m != pdm[i]:
                    pdm[i] = m
                    ch = True
        pd = {}
        for i in live:
            c = pdm[i] & ~(1 << i)
            # immediate: the candidate post-dominated by all the others
            best = None
            k = c
            cands = []
            j = 0
            while k:
                if k & 1:
                    cands.append(j)
                k >>= 1
                j += 1
            for a in cands:
                if (pdm[a] & c) == c or a == EXIT and len(cands) == 1:
                    best = a
                    break
            pd[i] = -1 if best in (EXIT, None) else best
        F.pd = pd
        # reachability between blocks
        F.reach = None
        return pd

    def reaches(self, F, a, b):
        if F.reach is None:
            F.reach = {}
        r = F.reach.get(a)
        if r is None:
            seen = set()
            st = [a]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(self.succs(F.blocks[x]))
            r = F.reach[a] = seen
        return b in r


def zero_of(t):
    if isinstance(t, str):
        return 0.0 if t in ("d", "f", "x") else 0
    return [zero_of(x[1]) for x in t[1]]


class Event:
    __slots__ = ("kind", "args", "guards", "loc", "fn")

    def __init__(self, kind, args, guards, loc, fn):
        self.kind, self.args, self.guards, self.loc, self.fn = kind, args, guards, loc, fn

    def __repr__(self):
        return "%s%r if %r @%s" % (self.kind, self.args, list(self.guards), self.loc)


class Interp:
    catching = False     # execute handlers (only for analyses whose branches are all concrete)

    def __init__(self, module, models=(), step_limit=60000000):
        self.m = module
        self.models = [(re.compile(r), f) for r, f in models]
        self.modcache = {}
        self.nreg = 0
        self.steps = 0
        self.step_limit = step_limit
        self.approx = []
        self.unknown_calls = {}
        self.visited = set()
        self.depth = 0
        self.stack = []
        self.on_branch = None
        self.trace_calls = None
        self.max_unknown_iter = 1
        self.strict = False

    # ---- memory -----------------------------------------------------------
    def new_region(self, st, name, size, default=None, kind="heap"):
        self.nreg += 1
        rid = "%s#%d" % (name, self.nreg)
        r = Region(rid, name, size, default, st, kind)
        st.mem[rid] = r
        return rid

    def input_region(self, st, name, size, namer=None):
        """memory with unknown contents: loads create named symbols"""
        namer = namer or (lambda off, ty: A.sym("%s[%d]" % (name, off // 8)))
        return self.new_region(st, name, size, namer, "input")

    def ensure_global(self, st, rid):
        if rid in st.mem:
            return
        name = rid[2:]
        g = self.m.globals.get(name)
        size = g["size"] if g else 0
        r = Region(rid, rid, size, None, st, "global")
        st.mem[rid] = r
        if g and "init" in g:
            self.put_const(r, 0, g["init"], g["ty"])
        elif name == "__libc_single_threaded":
            r.d[0] = (1, 1)

    def put_const(self, r, off, c, ty):
        k = c[0]
        if k == "z":
            self.put_zero(r, off, ty)
        elif k == "s":
            for i, x in enumerate(c[1]):
                if i < len(ty[1]):
                    e = ty[1][i]
                    eo, et = e[0], e[1]
                else:
                    step = ty[1][1][0] - ty[1][0][0]
                    eo, et = i * step, ty[1][0][1]
                self.put_const(r, off + eo, x, c[2][1][i][1] if c[2] is not None and i < len(c[2][1]) else et)
        else:
            v = self.m.const(c)
            r.d[off] = (tsize(ty), v)

    def put_zero(self, r, off, ty):
        if isinstance(ty, str):
            r.d[off] = (tsize(ty), 0.0 if ty in ("d", "f", "x") else 0)
            return
        n = ty[0]
        self.fill(r, off, 0, n)

    def fill(self, r, off, byte, n):
        self.clear(r, off, n)
        v8 = 0
        for _ in range(8):
            v8 = (v8 << 8) | byte
        o = off
        end = off + n
        while o < end:
            if o % 8 == 0 and o + 8 <= end:
                r.d[o] = (8, v8); o += 8
            elif o % 4 == 0 and o + 4 <= end:
                r.d[o] = (4, v8 & 0xffffffff); o += 4
            else:
                r.d[o] = (1, byte); o += 1

    def clear(self, r, off, n):
        d = r.d
        if n <= 64 or n < len(d) * 4:
            for o in range(off - 15, off + n):
                s = d.get(o)
                if s is not None and o + s[0] > off:
                    if o < off or o + s[0] > off + n:
                        self.split(r, o)
            for o in range(off, off + n):
                if o in d:
                    del d[o]
        else:
            for o in [o for o in d if isinstance(o, int) and off <= o < off + n]:
                del d[o]

    def split(self, r, o):
        sz, v = r.d.pop(o)
        if type(v) is float and v == 0.0:
            v = 0
        if type(v) is int:
            for i in range(sz):
                r.d[o + i] = (1, (v >> (8 * i)) & 255)
        else:
            for i in range(sz):
                r.d[o + i] = (1, UNDEF)

    def load(self, st, p, ty):
        if type(p) is IteVal:
            return self.ite(p.c, self.load(st, p.a, ty), self.load(st, p.b, ty))
        if type(p) is Fn:
            return Opaque("code")
        if type(p) is not Ptr:
            raise AnalysisError("load through %r" % (p,))
        if p.r[:2] == "g:":
            self.ensure_global(st, p.r)
        r = st.region(p.r)
        if not isinstance(ty, str):
            return [self.load(st, Ptr(p.r, A.add(p.o, o) if isinstance(p.o, Poly) else p.o + o), t) for o, t in ty[1]]
        o = p.o
        if isinstance(o, Poly):
            s = r.d.get(("s", o.key()))
            if s is not None:
                return s[1]
            if r.default is not None:
                return r.default(o, ty)
            return A.func("load", A.sym(r.name), o)
        n = TS.get(ty) or tsize(ty)
        s = r.d.get(o)
        if s is not None and s[0] == n:
            v = s[1]
            tv = type(v)
            if tv is int:
                if ty == "d":
                    return self.bits2d(v)
                if ty == "p" and v != 0 and False:
                    pass
            elif tv is float and ty[0] == "i":
                return self.d2bits(v)
            return v
        return self.load_slow(st, r, o, n, ty)

    def bits2d(self, v):
        if v == 0:
            return 0.0
        import struct
        return struct.unpack("<d", struct.pack("<Q", v & (2 ** 64 - 1)))[0]

    def d2bits(self, v):
        import struct
        return struct.unpack("<Q", struct.pack("<d", v))[0]

    def load_slow(self, st, r, o, n, ty):
        # assemble from smaller integer slots or extract from a larger one
        bs = []
        for i in range(n):
            b = None
            for back in range(0, 16):
                s = r.d.get(o + i - back)
                if s is not None:
                    if s[0] > back:
                        v = s[1]
                        if type(v) is float:
                            v = self.d2bits(v) if s[0] == 8 else None
                        if type(v) is int:
                            b = (v >> (8 * back)) & 255
                        else:
                            b = UNDEF
                    break
            bs.append(b)
        if all(type(b) is int for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            if ty == "d":
                return self.bits2d(v)
            return v
        if r.default is not None and all(b is None for b in bs):
            v = r.default(o, ty)
            w = st.writable(r.id)
            w.d[o] = (n, v)
            return v
        return UNDEF

    def store(self, st, p, v, ty):
        if type(p) is IteVal:
            oa = self.load(st, p.a, ty)
            ob = self.load(st, p.b, ty)
            self.store(st, p.a, self.ite(p.c, v, oa), ty)
            self.store(st, p.b, self.ite(p.c, ob, v), ty)
            return
        if type(p) is not Ptr:
            raise AnalysisError("store through %r" % (p,))
        if BOX is not None and type(v) is Poly:
            v = BOX.simplify(v)
        if p.r[:2] == "g:":
            self.ensure_global(st, p.r)
        if not isinstance(ty, str):
            if v is UNDEF:
                return
            for (o, t), x in zip(ty[1], v):
                self.store(st, Ptr(p.r, p.o + o), x, t)
            return
        r = st.writable(p.r)
        o = p.o
        if isinstance(o, Poly):
            r.d[("s", o.key())] = (8, v, o)
            return
        n = TS.get(ty) or tsize(ty)
        s = r.d.get(o)
        if s is not None and s[0] == n:
            r.d[o] = (n, v)
            return
        self.clear(r, o, n)
        r.d[o] = (n, v)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        if isinstance(n, Poly):
            raise AnalysisError("memcpy of symbolic size %s" % A.show(n))
        if type(src) is IteVal or type(dst) is IteVal:
            raise AnalysisError("memcpy through joined pointer")
        if type(src) is not Ptr or type(dst) is not Ptr:
            raise AnalysisError("memcpy %r <- %r (%r)" % (dst, src, n))
        if src.r[:2] == "g:":
            self.ensure_global(st, src.r)
        if dst.r[:2] == "g:":
            self.ensure_global(st, dst.r)
        rs = st.region(src.r)
        so, do = src.o, dst.o
        if rs.default is not None and not isinstance(so, Poly):
            for k in range(0, n - 7, 8):
                if (so + k) not in rs.d:
                    self.load_slow(st, rs, so + k, 8, "d")
            rs = st.region(src.r)
        if isinstance(so, Poly) or isinstance(do, Poly):
            for k in range(0, n, 8):
                self.store(st, Ptr(dst.r, A.add(do, k)), self.load(st, Ptr(src.r, A.add(so, k)), "d"), "d")
            return
        items = []
        d = rs.d
        if n < len(d) * 2:
            for o in range(so, so + n):
                s = d.get(o)
                if s is not None:
                    items.append((o, s))
        else:
            items = [(o, s) for o, s in d.items() if isinstance(o, int) and so <= o < so + n]
        # slot overlapping the start
        for back in range(1, 16):
            s = d.get(so - back)
            if s is not None:
                if s[0] > back:
                    v = s[1]
                    if type(v) is int:
                        for i in range(back, min(s[0], back + n)):
                            items.append((so - back + i, (1, (v >> (8 * i)) & 255)))
                break
        wd = st.writable(dst.r)
        self.clear(wd, do, n)
        for o, s in items:
            if o + s[0] > so + n:
                v = s[1]
                if type(v) is int:
                    for i in range(so + n - o):
                        wd.d[do + o - so + i] = (1, (v >> (8 * i)) & 255)
                continue
            wd.d[do + o - so] = s

    # ---- joins ------------------------------------------------------------
    def ite(self, c, a, b):
        if not isinstance(c, Cond):
            return a if c else b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ta, tb = type(a), type(b)
        num = (Poly, float, int)
        if ta in num and tb in num:
            if ta is not Poly and tb is not Poly:
                if a == b:
                    return a
            elif ta is Poly and tb is Poly and a.key() == b.key():
                return a
            nc = cond_not(c)
            if repr_key(nc) < repr_key(c):
                c, a, b = nc, b, a
            key = ("fn", "ite", c.key(), A.skey(a), A.skey(b))
            at = A.AT.index.get(key)
            if at is None:
                at = A.AT.get(key, "ite(%r,%s,%s)" % (c, A.show(a), A.show(b)), "fn", ("ite", c, a, b))
            return A.atom_poly(at)
        if ta is list and tb is list:
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Cond) or isinstance(b, Cond):
            return mk_or(mk_and(c, a), mk_and(cond_not(c), b))
        if a == b:
            return a
        return IteVal(c, a, b)

    def join(self, base, c, s1, s2):
        """join two states that started from base under c / not c"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = State()
        s1._disown(); s2._disown()
        for rid in s1.mem:
            r1 = s1.mem[rid]
            r2 = s2.mem.get(rid)
            if r2 is None or r1 is r2:
                s.mem[rid] = r1
                continue
            if r1.d == r2.d if len(r1.d) < 0 else False:
                s.mem[rid] = r1
                continue
            r = r1.clone(None)
            for o, sl in r2.d.items():
                t = r.d.get(o)
                if t is None:
                    v2 = sl[1]
                    if r1.default is not None and isinstance(o, int):
                        v1 = r1.default(o, "d" if isinstance(v2, (Poly, float)) else "p")
                    else:
                        v1 = UNDEF
                    r.d[o] = (sl[0], self.ite(c, v1, v2)) + tuple(sl[2:])
                elif t is not sl and t[1] is not sl[1]:
                    if t[0] == sl[0]:
                        r.d[o] = (t[0], self.ite(c, t[1], sl[1])) + tuple(t[2:])
            for o, t in r1.d.items():
                if o not in r2.d:
                    if r1.default is not None and isinstance(o, int):
                        v2 = r1.default(o, "d" if isinstance(t[1], (Poly, float)) else "p")
                        r.d[o] = (t[0], self.ite(c, t[1], v2))
            s.mem[rid] = r
        for rid in s2.mem:
            if rid not in s.mem:
                s.mem[rid] = s2.mem[rid]
        nb = len(base)
        s.events = s1.events + s2.events[nb:]
        s.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        g = []
        for x, y in zip(s1.guards, s2.guards):
            if x is y or x == y:
                g.append(x)
            else:
                break
        s.guards = tuple(g)
        for k in set(s1.x) | set(s2.x):
            if k in s1.x and k in s2.x and s1.x[k] is not s2.x[k]:
                s.x[k] = self.ite(c, s1.x[k], s2.x[k])
            else:
                s.x[k] = s1.x.get(k, s2.x.get(k))
        return s

    # ---- execution ----------------------------------------------------------
    def call(self, st, name, args):
        """returns (state, value) or (None, None) when no normal return is possible"""
        F = self.m.funcs.get(name)
        if F is None:
            raise AnalysisError("no function " + name)
        mod = self.modcache.get(name, 0)
        if mod == 0:
            mod = None
            for r, f in self.models:
                if r.search(F.d):
                    mod = f
                    break
            self.modcache[name] = mod
        if mod is not None:
            return mod(self, st, args, F)
        if F.raw is None:
            return self.unknown(st, F, args)
        self.visited.add(name)
        if F.blocks is None:
            self.m.prep(F)
        env = [None] * F.n
        for i, a in enumerate(args[:len(F.args)]):
            env[i] = a
        if len(self.stack) > 120:
            raise AnalysisError("recursion too deep: " + F.d)
        # byval arguments are copied by the callee
        for i, a in enumerate(F.args):
            if len(a) > 1 and a[1] == "byval" and type(env[i]) is Ptr:
                rid = self.new_region(st, "byval", a[2])
                self.memcpy(st, Ptr(rid, 0), env[i], a[2])
                env[i] = Ptr(rid, 0)
        self.stack.append(F)
        if self.trace_calls is not None:
            self.trace_calls(self, st, F, args)
        try:
            r = self.run(F, env, st, 0, -1, None, {})
        except AnalysisError as e:
            if not getattr(e, "w", None):
                e.w = "%s [at %s]" % (self.where(), self.locstr(self.curloc))
                e.args = ("%s; in %s" % (e.args[0], e.w),)
            raise
        finally:
            self.stack.pop()
        if r is None:
            return None, None
        return r[2], r[1]

    def unknown(self, st, F, args):
        self.unknown_calls[F.d] = self.unknown_calls.get(F.d, 0) + 1
        if self.strict:
            raise AnalysisError("unmodelled call: %s (from %s)" % (F.d, self.where()))
        return st, self.fresh(F.ret, F.d, args)

    def fresh(self, ret, d, args):
        self.nreg += 1
        short = d.split("(")[0]
        if ret == "v":
            return None
        if ret == "d" or ret == "f":
            return A.sym("%s@%d" % (short, self.nreg))
        if ret == "i1":
            return Cond("t", ("%s@%d" % (short, self.nreg),))
        if isinstance(ret, str) and ret[0] == "i":
            return A.sym("%s@%d" % (short, self.nreg))
        return Opaque("%s@%d" % (short, self.nreg))

    def where(self):
        return " <- ".join("%s (%s:%s)" % (f.d[:90], (f.file or "?").split("/")[-1], f.line) for f in self.stack[::-1][:6])

    def event(self, st, kind, args, loc=None):
        f = self.stack[-1] if self.stack else None
        st.events.append(Event(kind, args, st.guards, loc or self.curloc, f.d if f else None))

    curloc = None

    def locstr(self, loc):
        if loc is None or loc[0] < 0:
            return "?"
        return "%s:%d" % (self.m.files[loc[0]], loc[1])

    def run(self, F, env, st, b, prev, stop, active):
        """execute from block b until `stop` (returns ('stop', prev, st)), return (('ret', v, st)) or bottom (None)"""
        blocks = F.blocks
        skip = False
        while True:
            if b == stop and not skip:
                return ("stop", prev, st)
            blk = blocks[b]
            # phis are evaluated in parallel
            i = 0
            if skip:
                # the phis of a join point were assigned by the join
                skip = False
                while blk[i][0] == "phi":
                    i += 1
            elif blk[0][0] == "phi":
                vals = []
                while blk[i][0] == "phi":
                    ins = blk[i]
                    for o, p in ins[3]:
                        if p == prev:
                            vals.append((ins[1], env[o] if type(o) is int else o.v))
                            break
                    i += 1
                for r, v in vals:
                    env[r] = v
            n = len(blk)
            self.steps += n
            if self.steps > self.step_limit:
                raise AnalysisError("step limit in %s; %s" % (F.d, self.where()))
            nxt = None
            while i < n:
                op, res, ty, ops, ex, loc = blk[i]
                i += 1
                if op == "load":
                    o = ops[0]
                    env[res] = self.load(st, env[o] if type(o) is int else o.v, ty)
                elif op == "store":
                    o, q = ops
                    self.store(st, env[q] if type(q) is int else q.v, env[o] if type(o) is int else o.v, ty)
                elif op == "getelementptr":
                    o = ops[0]
                    env[res] = self.gep(env[o] if type(o) is int else o.v, ex, env)
                elif op == "fadd":
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    env[res] = x + y if type(x) is float and type(y) is float else self.fbin("fadd", x, y)
                elif op == "fmul":
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    env[res] = x * y if type(x) is float and type(y) is float else self.fbin("fmul", x, y)
                elif op in INTOPS:
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    env[res] = self.ibin(op, x, y, ty)
                elif op == "icmp":
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    env[res] = self.icmp(ex, x, y, ty)
                elif op == "br":
                    if not ops:
                        nxt = ex[0]
                        break
                    o = ops[0]
                    c = env[o] if type(o) is int else o.v
                    if type(c) is int:
                        nxt = ex[0] if c else ex[1]
                        break
                    r = self.branch(F, env, st, b, c, ex, stop, active, loc)
                    if r is None or r[0] == "ret":
                        return r
                    if r[0] == "goto":
                        nxt = r[1]
                        break
                    # joined at the post-dominator
                    _, P, phis, st = r
                    if P == stop:
                        # phi values at stop must be visible to the caller: encode via env
                        return ("stopj", phis, st)
                    for rr, v in phis:
                        env[rr] = v
                    b = P
                    prev = None
                    nxt = "joined"
                    break
                elif op in ("call", "invoke"):
                    self.curloc = loc
                    args = [env[o] if type(o) is int else o.v for o in ops]
                    nthrown = len(self.throws)
                    st2, v = self.docall(st, args[0], args[1:], ty, loc)
                    if st2 is None:
                        if self.catching and op == "invoke" and len(self.throws) > nthrown:
                            # the exception reaches this call's landing pad
                            st = self.throws[-1][1]
                            nxt = ex[1]
                            break
                        return None
                    st = st2
                    if res >= 0:
                        env[res] = v
                    if op == "invoke":
                        nxt = ex[0]
                        break
                elif op in FBIN:
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    env[res] = self.fbin(op, x, y)
                elif op == "fneg":
                    o = ops[0]
                    x = env[o] if type(o) is int else o.v
                    env[res] = -x if type(x) is float else (UNDEF if x is UNDEF else A.neg(x))
                elif op == "fcmp":
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    env[res] = self.fcmp(ex, x, y)
                elif op in CASTS:
                    o = ops[0]
                    x = env[o] if type(o) is int else o.v
                    env[res] = self.cast(op, x, ty, ex)
                elif op == "alloca":
                    o = ops[0]
                    cnt = env[o] if type(o) is int else o.v
                    if type(cnt) is not int:
                        raise AnalysisError("alloca of symbolic size")
                    env[res] = Ptr(self.new_region(st, "alloca", ex * cnt, None, "stack"), 0)
                elif op == "select":
                    c, x, y = [env[o] if type(o) is int else o.v for o in ops]
                    c = self.known(st, c)
                    env[res] = self.ite(c, x, y) if isinstance(c, Cond) else (x if c else y)
                elif op == "ret":
                    v = None
                    if ops:
                        o = ops[0]
                        v = env[o] if type(o) is int else o.v
                    return ("ret", v, st)
                elif op == "unreachable":
                    return None
                elif op == "extractvalue":
                    o = ops[0]
                    x = env[o] if type(o) is int else o.v
                    for k in ex:
                        x = x[k] if isinstance(x, list) else (Opaque("%r.%d" % (x, k)) if x is not UNDEF else UNDEF)
                    env[res] = x
                elif op == "insertvalue":
                    o, q = ops
                    x = env[o] if type(o) is int else o.v
                    y = env[q] if type(q) is int else q.v
                    if x is UNDEF:
                        x = [UNDEF] * len(ty[1])
                    env[res] = self.insval(x, y, ex, ty)
                elif op == "switch":
                    o = ops[0]
                    c = env[o] if type(o) is int else o.v
                    if type(c) is int:
                        nxt = ex[0]
                        for k, t in ex[1:]:
                            if k == c:
                                nxt = t
                                break
                        break
                    r = self.switch(F, env, st, b, c, ex, stop, active, loc)
                    if r is None or r[0] == "ret":
                        return r
                    if r[0] == "goto":
                        nxt = r[1]
                        break
                    _, P, phis, st = r
                    if P == stop:
                        return ("stopj", phis, st)
                    for rr, v in phis:
                        env[rr] = v
                    b = P
                    prev = None
                    nxt = "joined"
                    break
                elif op == "freeze":
                    o = ops[0]
                    env[res] = env[o] if type(o) is int else o.v
                elif op == "atomicrmw":
                    p, v = [env[o] if type(o) is int else o.v for o in ops]
                    old = self.load(st, p, ty)
                    new = {"add": lambda: self.ibin("add", old, v, ty), "sub": lambda: self.ibin("sub", old, v, ty), "xchg": lambda: v}[ex]()
                    self.store(st, p, new, ty)
                    env[res] = old
                elif op == "cmpxchg":
                    raise AnalysisError("cmpxchg")
                elif op == "fence":
                    pass
                elif op == "extractelement":
                    x, k = [env[o] if type(o) is int else o.v for o in ops]
                    env[res] = x[k]
                elif op == "insertelement":
                    x, v, k = [env[o] if type(o) is int else o.v for o in ops]
                    x = list(x) if x is not UNDEF else [UNDEF] * len(ty[1])
                    x[k] = v
                    env[res] = x
                elif op in ("resume", "landingpad"):
                    if not self.catching:
                        return None
                    if op == "resume":
                        self.throws.append((("throw", ("resumed",)), st))
                        return None
                    env[res] = [Ptr(self.new_region(st, "caught", 64), 0), 1]
                else:
                    raise AnalysisError("op %s at %s" % (op, self.locstr(loc)))
            if nxt == "joined":
                skip = True
                continue
            prev, b = b, nxt

    def insval(self, x, y, ex, ty):
        x = list(x)
        if len(ex) == 1:
            x[ex[0]] = y
        else:
            x[ex[0]] = self.insval(x[ex[0]] if x[ex[0]] is not UNDEF else [UNDEF] * len(ty[1][ex[0]][1][1]), y, ex[1:], ty[1][ex[0]][1])
        return x

    def known(self, st, c):
        if isinstance(c, Cond):
            v = st.assume.get(c.key())
            if v is not None:
                return v
            if c.k == "and":
                a, b = self.known(st, c.v[0]), self.known(st, c.v[1])
                return mk_and(a, b)
            if c.k == "or":
                a, b = self.known(st, c.v[0]), self.known(st, c.v[1])
                return mk_or(a, b)
        elif c is UNDEF:
            raise AnalysisError("branch on undef: " + self.where())
        elif isinstance(c, Poly):
            return norm_cmp("ne", c)
        elif isinstance(c, Opaque):
            return Cond("t", (repr(c),))
        return c

    def set_assume(self, st, c):
        if not isinstance(c, Cond):
            return
        st.assume[c.key()] = 1
        nc = cond_not(c)
        st.assume[nc.key()] = 0
        if c.k == "and":
            self.set_assume(st, c.v[0])
            self.set_assume(st, c.v[1])
        # strict facts imply weaker ones
        if c.k == "lt":
            st.assume[Cond("le", c.v).key()] = 1
            st.assume[norm_key("eq", c.v)] = 0
            st.assume[norm_key("ne", c.v)] = 1
            st.assume[Cond("lt", A.neg(c.v)).key()] = 0

    def branch(self, F, env, st, b, c, ex, stop, active, loc):
        rb = b
        c = self.known(st, c)
        if not isinstance(c, Cond):
            return ("goto", ex[0] if c else ex[1])
        if self.on_branch is not None:
            self.curloc = loc
            d = self.on_branch(self, st, F, c, loc)
            if d is not None:
                return ("goto", ex[0] if d else ex[1])
        pd = self.m.postdom(F)
        P = pd.get(rb, -1)
        cnt = active.get(rb, 0)
        if cnt >= self.max_unknown_iter:
            r0 = self.m.reaches(F, ex[0], rb)
            r1 = self.m.reaches(F, ex[1], rb)
            if r0 != r1:
                self.approx.append((F.d, self.locstr(loc)))
                return ("goto", ex[1] if r0 else ex[0])
            if cnt >= self.max_unknown_iter + 1:
                # unknown branch inside a loop of unknown length: leave through the exit
                self.approx.append((F.d, self.locstr(loc)))
                return ("goto", ex[1])
        arms = []
        for k, cc in ((0, c), (1, cond_not(c))):
            s = st.fork()
            self.set_assume(s, cc)
            s.guards = st.guards + ((cc, loc),)
            arms.append((ex[k], cc, s))
        return self.arms(F, env, st, rb, P, c, arms, active)

    def arms(self, F, env, st, b, P, c, arms, active):
        base = list(st.events)
        act = dict(active)
        act[b] = act.get(b, 0) + 1
        results = []
        for tgt, cc, s in arms:
            e = list(env)
            r = self.run(F, e, s, tgt, b, P if P >= 0 else None, act)
            if r is not None and r[0] == "stop":
                pv = r[1]
                phis = []
                for ins in F.blocks[P]:
                    if ins[0] != "phi":
                        break
                    for o, p in ins[3]:
                        if p == pv:
                            phis.append((ins[1], e[o] if type(o) is int else o.v))
                            break
                r = ("stopj", phis, r[2])
            results.append((cc, r, e))
        live = [(cc, r, e) for cc, r, e in results if r is not None]
        # events of dead arms (throws) are kept
        if not live:
            return None
        if len(live) == 1:
            cc, r, e = live[0]
            s = r[2]
            if r[0] == "ret":
                return r
            env[:] = e
            return ("join", P, r[1], s)
        (c1, r1, e1), (c2, r2, e2) = live[0], live[1]
        if r1[0] == "ret" and r2[0] == "ret":
            s = self.join(base, c1, r1[2], r2[2])
            v = None
            if r1[1] is not None or r2[1] is not None:
                v = self.ite(c1, r1[1], r2[1])
            return ("ret", v, s)
        if r1[0] == "ret" or r2[0] == "ret":
            raise AnalysisError("mixed return/join in %s (block %d, ipdom %d)" % (F.d, b, P))
        s = self.join(base, c1, r1[2], r2[2])
        phis = []
        d2 = dict(r2[1])
        for rr, v in r1[1]:
            phis.append((rr, self.ite(c1, v, d2.get(rr, UNDEF))))
        for k in range(len(env)):
            x, y = e1[k], e2[k]
            if x is y:
                env[k] = x
            elif x is None:
                env[k] = y
            elif y is None:
                env[k] = x
            else:
                env[k] = self.ite(c1, x, y)
        return ("join", P, phis, s)

    def switch(self, F, env, st, b, c, ex, stop, active, loc):
        """unknown switch: chain of binary decisions, joined"""
        if isinstance(c, IteVal):
            raise AnalysisError("switch on %r" % c)
        if isinstance(c, Poly) is False:
            raise AnalysisError("switch on %r" % (c,))
        rb = b
        P = self.m.postdom(F).get(rb, -1)
        cases = [(k, t) for k, t in ex[1:]]
        live = None
        rest = st
        results = []
        for k, t in cases:
            cc = self.known(rest, norm_cmp("eq", A.sub(c, k)))
            if not isinstance(cc, Cond):
                if cc:
                    results.append((cc, t, rest))
                    rest = None
                    break
                continue
            s = rest.fork()
            self.set_assume(s, cc)
            s.guards = rest.guards + ((cc, loc),)
            results.append((cc, t, s))
            r2 = rest.fork()
            self.set_assume(r2, cond_not(cc))
            r2.guards = rest.guards + ((cond_not(cc), loc),)
            rest = r2
        if rest is not None:
            results.append((None, ex[0], rest))
        act = dict(active)
        act[rb] = act.get(rb, 0) + 1
        if act[rb] > 2:
            raise AnalysisError("switch in unknown loop")
        out = []
        for cc, t, s in results:
            e = list(env)
            r = self.run(F, e, s, t, rb, P if P >= 0 else None, act)
            if r is not None and r[0] == "stop":
                pv = r[1]
                phis = []
                for ins in F.blocks[P]:
                    if ins[0] != "phi":
                        break
                    for o, p in ins[3]:
                        if p == pv:
                            phis.append((ins[1], e[o] if type(o) is int else o.v))
                            break
                r = ("stopj", phis, r[2])
            if r is not None:
                out.append((cc, r, e))
        if not out:
            return None
        base = list(st.events)
        acc_c, acc, acc_e = out[-1]
        for cc, r, e in out[-2::-1]:
            if acc[0] != r[0]:
                raise AnalysisError("mixed return/join in switch of " + F.d)
            if cc is None or not isinstance(cc, Cond):
                acc, acc_e = r, e
                continue
            s = self.join(base, cc, r[2], acc[2])
            if r[0] == "ret":
                v = None if r[1] is None and acc[1] is None else self.ite(cc, r[1], acc[1])
                acc = ("ret", v, s)
            else:
                d2 = dict(acc[1])
                acc = ("stopj", [(rr, self.ite(cc, v, d2.get(rr, UNDEF))) for rr, v in r[1]], s)
            ne = []
            for x, y in zip(e, acc_e):
                ne.append(x if x is y or y is None else (y if x is None else self.ite(cc, x, y)))
            acc_e = ne
        if acc[0] == "ret":
            return acc
        env[:] = acc_e
        return ("join", P, acc[1], acc[2])

    # ---- scalar operations ---------------------------------------------------
    def gep(self, base, ex, env):
        if ex is None:
            raise AnalysisError("gep")
        if type(base) is IteVal:
            return IteVal(base.c, self.gep(base.a, ex, env), self.gep(base.b, ex, env))
        off = ex[0]
        for o, sc in ex[1]:
            x = env[o] if type(o) is int else o.v
            if type(x) is int:
                if x >= 1 << 63:
                    x -= 1 << 64
                off = off + x * sc if type(off) is int else A.add(off, x * sc)
            elif x is UNDEF:
                off = UNDEF
                break
            else:
                if not isinstance(x, Poly):
                    raise AnalysisError("gep index %r" % (x,))
                off = A.add(off, A.mul(x, float(sc)))
        if type(base) is Ptr:
            if off is UNDEF:
                return UNDEF
            if type(base.o) is int and type(off) is int:
                return Ptr(base.r, base.o + off)
            o = A.add(base.o, off)
            if type(o) is float:
                o = int(o)
            return Ptr(base.r, o)
        if base == 0 and type(base) is int:
            return off if type(off) is int else Opaque("null+")
        if base is UNDEF:
            return UNDEF
        if isinstance(base, Opaque):
            if off == 0:
                return base
            return Opaque("%s+%s" % (base.n, off))
        if isinstance(base, Fn):
            return Opaque("code")
        if type(base) is int:
            return base + off
        raise AnalysisError("gep on %r" % (base,))

    def fbin(self, op, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, (IteVal, Opaque)) or isinstance(y, (IteVal, Opaque)):
            return A.func(op, *(v if isinstance(v, (Poly, float)) else A.sym(repr(v)) for v in (x, y)))
        if op == "fadd":
            return A.add(x, y)
        if op == "fsub":
            return A.add(x, y, -1.0)
        if op == "fmul":
            return A.mul(x, y)
        if op == "fdiv":
            return A.div(x, y)
        if op == "frem":
            return math.fmod(x, y) if A.isnum(x) and A.isnum(y) else A.func("fmod", x, y)
        raise AnalysisError(op)

    def fcmp(self, pred, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, (IteVal, Opaque)) or isinstance(y, (IteVal, Opaque)):
            return Cond("t", ("fcmp " + pred + repr(x) + repr(y),))
        if pred in ("ord", "uno"):
            if A.isnum(x) and A.isnum(y):
                nn = math.isnan(x) or math.isnan(y)
                return int(nn) if pred == "uno" else int(not nn)
            return 1 if pred == "ord" else 0
        p = pred[1:]
        if A.isnum(x) and A.isnum(y) and (math.isinf(x) or math.isinf(y) or math.isnan(x) or math.isnan(y)):
            if math.isnan(x) or math.isnan(y):
                return 1 if pred[0] == "u" else 0
            return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[p])
        if A.isnum(x) and math.isinf(x) or A.isnum(y) and math.isinf(y):
            big = x if A.isnum(x) else y
            s = (big > 0) == (big is y)      # x < y ?
            return int({"lt": s, "le": s, "gt": not s, "ge": not s, "eq": False, "ne": True}[p])
        if p == "lt":
            return norm_cmp("lt", A.sub(x, y))
        if p == "le":
            return norm_cmp("le", A.sub(x, y))
        if p == "gt":
            return norm_cmp("lt", A.sub(y, x))
        if p == "ge":
            return norm_cmp("le", A.sub(y, x))
        if p == "eq":
            return norm_cmp("eq", A.sub(x, y))
        return norm_cmp("ne", A.sub(x, y))

    def icmp(self, pred, x, y, ty):
        if type(x) is int and type(y) is int:
            if pred in ("eq", "ne"):
                return int((x == y) == (pred == "eq"))
            if pred[0] == "s":
                b = int(ty[1:]) if isinstance(ty, str) and ty[0] == "i" else 64
                if x >= 1 << (b - 1):
                    x -= 1 << b
                if y >= 1 << (b - 1):
                    y -= 1 << b
            p = pred[1:]
            return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Cond) or isinstance(y, Cond):
            if type(y) is int and pred in ("eq", "ne"):
                t = (y == 1) == (pred == "eq")
                return x if t else cond_not(x)
            return Cond("t", ("icmp" + repr(x) + repr(y),))
        if isinstance(x, IteVal):
            return self.ite(x.c, self.icmp(pred, x.a, y, ty), self.icmp(pred, x.b, y, ty))
        if isinstance(y, IteVal):
            return self.ite(y.c, self.icmp(pred, x, y.a, ty), self.icmp(pred, x, y.b, ty))
        num = (int, float, Poly)
        if isinstance(x, num) and isinstance(y, num):
            if type(x) is int and pred[0] == "s" and x >= 1 << 31:
                b = int(ty[1:]); x -= (1 << b) if x >= 1 << (b - 1) else 0
            if type(y) is int and pred[0] == "s" and y >= 1 << 31:
                b = int(ty[1:]); y -= (1 << b) if y >= 1 << (b - 1) else 0
            d = A.sub(x, y)
            if pred == "eq":
                return norm_cmp("eq", d)
            if pred == "ne":
                return norm_cmp("ne", d)
            p = pred[1:]
            r = self.sign_known(d, p)
            if r is not None:
                return r
            if pred[0] == "u":
                # unsigned comparisons with zero
                if p == "gt" and type(y) is int and y == 0:
                    return norm_cmp("ne", x if isinstance(x, Poly) else d)
                if p == "lt" and type(y) is int and y == 1:
                    return norm_cmp("eq", x)
                if p == "ge" and type(y) is int and y == 0:
                    return 1
                if p == "lt" and type(y) is int and y == 0:
                    return 0
            return norm_cmp({"lt": "lt", "le": "le", "gt": "lt", "ge": "le"}[p], d if p in ("lt", "le") else A.neg(d))
        # pointers
        if type(x) is Ptr and type(y) is Ptr:
            if x.r == y.r:
                d = A.sub(x.o, y.o) if isinstance(x.o, Poly) or isinstance(y.o, Poly) else x.o - y.o
                p = pred if pred in ("eq", "ne") else pred[1:]
                if isinstance(d, int):
                    return int({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[p])
                if p in ("eq", "ne", "lt", "le"):
                    return norm_cmp(p, d)
                return norm_cmp({"gt": "lt", "ge": "le"}[p], A.neg(d))
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            return int((x.r, 0) < (y.r, 0)) if pred[1:] in ("lt", "le") else int((x.r, 0) > (y.r, 0))
        if isinstance(x, (Ptr, Fn)) and type(y) is int or isinstance(y, (Ptr, Fn)) and type(x) is int:
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            return 1
        if pred in ("eq", "ne") and x == y:
            return int(pred == "eq")
        c = Cond("t", ("eq:" + repr(x) + ":" + repr(y),))
        if pred == "eq":
            return c
        if pred == "ne":
            return cond_not(c)
        return Cond("t", (pred + ":" + repr(x) + ":" + repr(y),))

    def sign_known(self, d, p):
        return None

    def ibin(self, op, x, y, ty):
        if type(x) is int and type(y) is int:
            b = int(ty[1:]) if isinstance(ty, str) else 64
            mask = (1 << b) - 1
            if op == "add":
                return (x + y) & mask
            if op == "sub":
                return (x - y) & mask
            if op == "mul":
                return (x * y) & mask
            if op == "and":
                return x & y
            if op == "or":
                return x | y
            if op == "xor":
                return x ^ y
            if op == "shl":
                return (x << y) & mask if y < b else 0
            if op == "lshr":
                return x >> y
            if op == "udiv":
                return x // y if y else UNDEF
            if op == "urem":
                return x % y if y else UNDEF
            sx = x - (1 << b) if x >= 1 << (b - 1) else x
            sy = y - (1 << b) if y >= 1 << (b - 1) else y
            if op == "ashr":
                return (sx >> y) & mask
            if sy == 0:
                return UNDEF
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0):
                q = -q
            if op == "sdiv":
                return q & mask
            if op == "srem":
                return (sx - q * sy) & mask
            raise AnalysisError(op)
        if x is UNDEF or y is UNDEF:
            if op == "and" and (x == 0 or y == 0):
                return 0
            return UNDEF
        if isinstance(x, Cond) or isinstance(y, Cond):
            if op == "and":
                return mk_and(x, y)
            if op == "or":
                return mk_or(x, y)
            if op == "xor":
                if type(y) is int:
                    return cond_not(x) if y else x
                if type(x) is int:
                    return cond_not(y) if x else y
                return mk_or(mk_and(x, cond_not(y)), mk_and(cond_not(x), y))
            x = self.cond2num(x)
            y = self.cond2num(y)
        if isinstance(x, IteVal):
            return self.ite(x.c, self.ibin(op, x.a, y, ty), self.ibin(op, x.b, y, ty))
        if isinstance(y, IteVal):
            return self.ite(y.c, self.ibin(op, x, y.a, ty), self.ibin(op, x, y.b, ty))
        if type(x) is Ptr and type(y) is Ptr and op == "sub":
            if x.r == y.r:
                if type(x.o) is int and type(y.o) is int:
                    return (x.o - y.o) & ((1 << 64) - 1)
                r = A.sub(x.o, y.o)
                return int(r) if type(r) is float else r
            return A.sym("ptrdiff %r %r" % (x, y))
        if type(x) is Ptr:
            if op == "add" and type(y) is int:
                return Ptr(x.r, x.o + y)
            if op == "sub" and type(y) is int:
                return Ptr(x.r, x.o - y)
            if op == "and" and type(y) is int:
                return 0
            return Opaque("ptrint")
        if type(y) is Ptr or isinstance(x, (Opaque, Fn)) or isinstance(y, (Opaque, Fn)):
            if op == "and":
                return 0
            return Opaque("intop(%s,%r,%r)" % (op, x, y))
        b = int(ty[1:]) if isinstance(ty, str) and ty[0] == "i" else 64

        def sg(v):
            return v - (1 << b) if type(v) is int and v >= 1 << (b - 1) else v
        x, y = sg(x), sg(y)
        if op == "add":
            r = A.add(x, y)
        elif op == "sub":
            r = A.sub(x, y)
        elif op == "mul":
            r = A.mul(x, y)
        elif op == "shl" and type(y) is int:
            r = A.mul(x, float(1 << y))
        elif op in ("sdiv", "udiv", "ashr", "lshr") and type(y) is int:
            dv = y if op[1:] == "div" else 1 << y
            # exact division of a multiple
            if isinstance(x, Poly) and all(abs(c / dv - round(c / dv)) < 1e-12 for c in x.t.values()):
                r = A.scale(x, 1.0 / dv)
            else:
                r = A.func("idiv", x, float(dv))
        else:
            r = A.func(op, x, y)
        return int(r) & ((1 << b) - 1) if type(r) is float else r

    def cond2num(self, c):
        if isinstance(c, Cond):
            return self.ite(c, 1.0, 0.0)
        return c

    def cast(self, op, x, ty, fr):
        if x is UNDEF:
            return UNDEF
        if isinstance(x, IteVal):
            return self.ite(x.c, self.cast(op, x.a, ty, fr), self.cast(op, x.b, ty, fr))
        if op in ("zext",):
            return x if not isinstance(x, Cond) else x
        if op == "sext":
            if type(x) is int:
                b = int(fr[1:])
                if x >= 1 << (b - 1):
                    x += (1 << int(ty[1:])) - (1 << b)
            return x
        if op == "trunc":
            if type(x) is int:
                x = x & ((1 << int(ty[1:])) - 1)
            if ty == "i1" and isinstance(x, Poly):
                return norm_cmp("ne", x)
            return x
        if op in ("sitofp", "uitofp"):
            if type(x) is int:
                if op == "sitofp":
                    b = int(fr[1:])
                    if x >= 1 << (b - 1):
                        x -= 1 << b
                return float(x)
            if isinstance(x, Cond):
                return self.cond2num(x)
            if isinstance(x, Opaque):
                return A.sym(repr(x))
            return x
        if op in ("fptosi", "fptoui"):
            if A.isnum(x):
                return int(x) & ((1 << int(ty[1:])) - 1)
            if BOX is not None and isinstance(x, Poly):
                r = BOX.trunc(x)
                if r is not None:
                    return int(r) & ((1 << int(ty[1:])) - 1)
            return A.func("trunc_to_int", x)
        if op == "fptrunc":
            if A.isnum(x):
                import struct
                try:
                    return struct.unpack("<f", struct.pack("<f", x))[0]
                except OverflowError:
                    return x
            return A.func("to_float", x) if ty == "f" else x
        if op == "fpext":
            return x
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            if op == "bitcast" and type(x) is int and ty == "d":
                return self.bits2d(x)
            if op == "bitcast" and type(x) is float and ty == "i64":
                return self.d2bits(x)
            return x
        raise AnalysisError(op)

    # ---- calls ----------------------------------------------------------------
    def docall(self, st, callee, args, ty, loc):
        if type(callee) is Fn:
            name = callee.n
        elif type(callee) is Ptr and callee.r[:2] == "g:" and callee.r[2:] in self.m.funcs:
            name = callee.r[2:]
        elif isinstance(callee, IteVal):
            raise AnalysisError("call through joined function pointer at " + self.locstr(loc))
        else:
            if self.strict:
                raise AnalysisError("indirect call through %r at %s; %s" % (callee, self.locstr(loc), self.where()))
            self.unknown_calls["indirect %r" % (callee,)] = 1
            return st, self.fresh(ty, "indirect", args)
        if name[:5] == "llvm.":
            return self.intrinsic(st, name, args, ty)
        b = BUILTIN.get(name)
        if b is not None and self.m.funcs.get(name, NOBODY).raw is None:
            return b(self, st, args)
        return self.call(st, name, args)

    def intrinsic(self, st, n, a, ty):
        if n.startswith("llvm.eh.typeid.for"):
            return st, 1
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            if n.startswith("llvm.memmove") and type(a[0]) is Ptr and type(a[1]) is Ptr and a[0].r == a[1].r:
                rid = self.new_region(st, "tmp", a[2])
                self.memcpy(st, Ptr(rid, 0), a[1], a[2])
                self.memcpy(st, a[0], Ptr(rid, 0), a[2])
                return st, None
            self.memcpy(st, a[0], a[1], a[2])
            return st, None
        if n.startswith("llvm.memset"):
            if a[2] == 0:
                return st, None
            if type(a[0]) is not Ptr or type(a[2]) is not int:
                raise AnalysisError("memset %r" % (a,))
            if a[0].r[:2] == "g:":
                self.ensure_global(st, a[0].r)
            self.fill(st.writable(a[0].r), a[0].o, a[1] & 255, a[2])
            return st, None
        b = n.split(".")[1]
        if b in ("fmuladd", "fma"):
            return st, self.fbin("fadd", self.fbin("fmul", a[0], a[1]), a[2])
        if b == "fabs":
            return st, fabs(a[0])
        if b in ("sqrt", "exp", "log", "sin", "cos", "floor", "ceil", "round", "trunc", "exp2", "log2", "log10"):
            return st, mathfn(b, a[0])
        if b == "pow":
            return st, mpow(a[0], a[1])
        if b == "powi":
            return st, mpow(a[0], a[1])
        if b in ("umul", "uadd", "smul", "sadd", "usub", "ssub"):
            op = {"mul": "mul", "add": "add", "sub": "sub"}[b[1:]]
            return st, [self.ibin(op, a[0], a[1], "i64"), 0]
        if b in ("expect", "launder", "strip"):
            return st, a[0]
        if b in ("assume", "prefetch", "stackrestore", "dbg", "invariant", "donothing", "va_start", "va_end"):
            return st, None
        if b == "stacksave":
            return st, Opaque("stack")
        if b == "objectsize":
            return st, (1 << 64) - 1
        if b == "is":
            return st, 0
        if b == "trap":
            return None, None
        if b in ("umax", "umin", "smax", "smin"):
            c = self.icmp("ult" if b[0] == "u" else "slt", a[0], a[1], ty)
            lo, hi = (a[0], a[1])
            if isinstance(c, Cond):
                return st, self.ite(c, lo, hi) if b.endswith("min") else self.ite(c, hi, lo)
            return st, (lo if c else hi) if b.endswith("min") else (hi if c else lo)
        if b in ("maxnum", "minnum"):
            c = self.fcmp("olt", a[0], a[1])
            if isinstance(c, Cond):
                return st, self.ite(c, a[0], a[1]) if b == "minnum" else self.ite(c, a[1], a[0])
            return st, (a[0] if c else a[1]) if b == "minnum" else (a[1] if c else a[0])
        if b == "ctlz" or b == "cttz" or b == "ctpop":
            if type(a[0]) is int:
                w = int(ty[1:])
                if b == "ctpop":
                    return st, bin(a[0]).count("1")
                if b == "ctlz":
                    return st, w - a[0].bit_length()
                return st, ((a[0] & -a[0]).bit_length() - 1) if a[0] else w
            return st, A.func(b, a[0])
        if b == "abs":
            if type(a[0]) is int:
                w = int(ty[1:])
                v = a[0] - (1 << w) if a[0] >= 1 << (w - 1) else a[0]
                return st, abs(v)
            return st, fabs(a[0])
        if b == "copysign":
            if A.isnum(a[0]) and A.isnum(a[1]):
                return st, math.copysign(a[0], a[1])
            return st, A.func("copysign", a[0], a[1])
        if b == "eh" or b == "experimental":
            return st, UNDEF
        raise AnalysisError("intrinsic " + n)


def repr_key(c):
    return repr(c.key())


def norm_key(k, v):
    c = norm_cmp(k, v)
    return c.key() if isinstance(c, Cond) else ("const",)


def fabs(x):
    if A.isnum(x):
        return abs(x)
    if not isinstance(x, Poly):
        return UNDEF
    if BOX is not None:
        r = BOX.fabs(x)
        if r is not None:
            return r
    c, q = A.canon_lead(x)
    return A.scale(A.func("fabs", q), abs(c))


def mathfn(n, x):
    if x is UNDEF:
        return UNDEF
    if A.isnum(x):
        try:
            return {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
                    "floor": math.floor, "ceil": math.ceil, "atan": math.atan, "tanh": math.tanh, "cosh": math.cosh,
                    "sinh": math.sinh, "acos": math.acos, "asin": math.asin, "log10": math.log10, "log2": math.log2,
                    "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1), "trunc": math.trunc,
                    "cbrt": lambda v: math.copysign(abs(v) ** (1 / 3.), v), "exp2": lambda v: 2.0 ** v}[n](x) * 1.0
        except (ValueError, OverflowError):
            return math.nan
    if not isinstance(x, Poly):
        return UNDEF
    if n == "sqrt" and BOX is not None:
        r = BOX.sqrt(x)
        if r is not None:
            return r
    if n == "sqrt" and len(x.t) == 1:
        (m, c), = x.t.items()
        if c > 0 and all(e % 2 == 0 for a, e in m):
            return fabs(A.simp(Poly({tuple((a, e // 2) for a, e in m): math.sqrt(c)})))
    # odd/even functions: canonical sign
    if n in ("sin", "tan", "atan", "tanh", "sinh", "asin", "cos", "cosh"):
        m = min(x.t)
        if x.t[m] < 0:
            r = A.func(n, A.neg(x))
            return r if n in ("cos", "cosh") else A.neg(r)
    return A.func(n, x)


def mpow(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if A.isnum(x) and A.isnum(y):
        if type(y) is int and y >= 1 << 31:
            y -= 1 << 32
        try:
            return float(x) ** y * 1.0
        except (OverflowError, ZeroDivisionError):
            return math.inf
    if A.isnum(y):
        if type(y) is int and y >= 1 << 31:
            y -= 1 << 32
        if float(y) == int(y) and abs(y) <= 8:
            return A.power(x, int(y))
        if float(y) == 0.5:
            return mathfn("sqrt", x)
    return A.func("pow", x, y)


INTOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext", "bitcast", "ptrtoint", "inttoptr"}


def b_new(I, st, a):
    n = a[0]
    return st, Ptr(I.new_region(st, "heap", n if type(n) is int else 1 << 40), 0)


def b_nop(I, st, a):
    return st, None


def b_math1(name):
    return lambda I, st, a: (st, mathfn(name, a[0]))


def b_throw(I, st, a):
    ty = a[1]
    I.event(st, "throw", (ty.r[2:] if isinstance(ty, Ptr) else repr(ty), a[0]))
    I.throws.append((st.events[-1], st))
    return None, None


def b_rethrow(I, st, a):
    I.throws.append((("throw", ("rethrown",)), st))
    return None, None


def b_die(I, st, a):
    I.event(st, "abort", ())
    I.throws.append((st.events[-1], st))
    return None, None


def b_strlen(I, st, a):
    return st, len(cstr(I, st, a[0]))


def cstr(I, st, p):
    out = []
    if type(p) is not Ptr:
        raise AnalysisError("cstr of %r" % (p,))
    o = p.o
    while True:
        v = I.load(st, Ptr(p.r, o), "i8")
        if type(v) is not int:
            raise AnalysisError("cstr content %r" % (v,))
        if v == 0:
            break
        out.append(v)
        o += 1
    return bytes(out).decode("latin1")


def b_memcmp(I, st, a):
    n = a[2]
    x = [I.load(st, Ptr(a[0].r, a[0].o + i), "i8") for i in range(n)]
    y = [I.load(st, Ptr(a[1].r, a[1].o + i), "i8") for i in range(n)]
    if all(type(v) is int for v in x + y):
        return st, 0 if x == y else (1 if x > y else (1 << 32) - 1)
    return st, A.sym("memcmp%d" % I.nreg)


Interp.throws = []

NOPVT = "vt:model"


def set_nop_vtable(I, st, p):
    """objects built by a modelled constructor get a vtable of no-ops (only their virtual destructor is called)"""
    if NOPVT not in st.mem:
        st.mem[NOPVT] = Region(NOPVT, NOPVT, 4096, lambda off, ty: Fn("__model_nop"), st, "vtable")
    I.store(st, p, Ptr(NOPVT, 16), "p")


BUILTIN = {
    "__model_nop": b_nop,
    "_Znwm": b_new, "_Znam": b_new, "malloc": b_new, "_ZnwmSt11align_val_t": b_new,
    "_ZdlPv": b_nop, "_ZdaPv": b_nop, "_ZdlPvm": b_nop, "_ZdaPvm": b_nop, "free": b_nop, "_ZdlPvSt11align_val_t": b_nop,
    "sqrt": b_math1("sqrt"), "exp": b_math1("exp"), "log": b_math1("log"), "sin": b_math1("sin"), "cos": b_math1("cos"),
    "tan": b_math1("tan"), "atan": b_math1("atan"), "tanh": b_math1("tanh"), "floor": b_math1("floor"), "ceil": b_math1("ceil"),
    "cosh": b_math1("cosh"), "sinh": b_math1("sinh"), "acos": b_math1("acos"), "asin": b_math1("asin"), "cbrt": b_math1("cbrt"),
    "log10": b_math1("log10"), "log2": b_math1("log2"), "round": b_math1("round"),
    "fabs": lambda I, st, a: (st, fabs(a[0])),
    "pow": lambda I, st, a: (st, mpow(a[0], a[1])),
    "atan2": lambda I, st, a: (st, math.atan2(a[0], a[1]) if A.isnum(a[0]) and A.isnum(a[1]) else A.func("atan2", a[0], a[1])),
    "fmod": lambda I, st, a: (st, I.fbin("frem", a[0], a[1])),
    "__cxa_throw": b_throw, "__cxa_rethrow": b_rethrow, "abort": b_die, "exit": b_die, "_ZSt9terminatev": b_die,
    "__cxa_allocate_exception": lambda I, st, a: (st, Ptr(I.new_region(st, "exception", a[0]), 0)),
    "__cxa_free_exception": b_nop, "__cxa_begin_catch": lambda I, st, a: (st, UNDEF), "__cxa_end_catch": b_nop,
    "strlen": b_strlen, "memcmp": b_memcmp, "bcmp": b_memcmp,
    "__cxa_atexit": lambda I, st, a: (st, 0), "__cxa_guard_acquire": lambda I, st, a: (st, 1), "__cxa_guard_release": b_nop,
    "__cxa_pure_virtual": b_die,
}
for _n in ("_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv",
           "_ZSt28__throw_bad_array_new_lengthv", "_ZSt19__throw_logic_errorPKc", "_ZSt16__throw_bad_castv", "__throw_bad_cast", "_ZSt9__throw_out_of_rangePKc"):
    BUILTIN[_n] = b_die
