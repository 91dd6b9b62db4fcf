"""Value domain: Laurent polynomials over interned atoms with float coefficients.

Atoms are analysis-time names: unknown inputs of the analysed code, value
numbers standing for a (large or inverted) polynomial, gated joins (ite) and
uninterpreted functions.  Equal values get equal normal forms, up to the
expansion of value numbers, which `Domain.is_zero` performs on demand.
"""
import math
import time

TOL = 1e-9


class Poly:
    __slots__ = ("t", "_k", "isint")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = tuple(sorted((m, round_sig(c)) for m, c in self.t.items()))
        return k

    def __repr__(self):
        return show(self)


def round_sig(c):
    if c == 0:
        return 0.0
    return float("%.10e" % c)


class Atom:
    __slots__ = ("id", "name", "kind", "args", "defn", "depth")


class AtomTable:
    def __init__(self):
        self.atoms = []
        self.index = {}

    def get(self, key, name, kind, args=(), defn=None):
        a = self.index.get(key)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.name, a.kind, a.args, a.defn = name, kind, args, defn
            self.atoms.append(a)
            self.index[key] = a
        return a


AT = AtomTable()
VN_LIMIT = 48


def reset():
    AT.atoms.clear()
    AT.index.clear()


def atom_poly(a):
    return Poly({((a.id, 1),): 1.0})


def sym(name):
    return atom_poly(AT.get(("s", name), name, "sym"))


def isnum(x):
    return type(x) is float or type(x) is int


def const(x):
    x = float(x)
    return Poly({(): x}) if x != 0 else Poly({})


def P(x):
    return x if type(x) is Poly else const(x)


def simp(p):
    """Poly -> float when constant"""
    t = p.t
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        return t[()]
    return p


def add(a, b, sb=1.0):
    if isnum(a) and isnum(b):
        return a + sb * b
    if isnum(b) and b == 0:
        return a
    if isnum(a) and a == 0 and sb == 1.0:
        return b
    a = P(a); b = P(b)
    t = dict(a.t)
    for m, c in b.t.items():
        c = c * sb
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = o + c
            if s == 0 or abs(s) < 1e-14 * (abs(o) + abs(c)):
                del t[m]
            else:
                t[m] = s
    return simp(Poly(t))


def sub(a, b):
    return add(a, b, -1.0)


def neg(a):
    return scale(a, -1.0)


def scale(a, c):
    if isnum(a):
        return a * c
    if c == 0:
        return 0.0
    return Poly({m: v * c for m, v in a.t.items()})


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    # merge sorted
    r = []
    i = j = 0
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a = m[i]; b = n[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                r.append((a[0], e))
            i += 1; j += 1
        elif a[0] < b[0]:
            r.append(a); i += 1
        else:
            r.append(b); j += 1
    r.extend(m[i:]); r.extend(n[j:])
    return tuple(r)


def canon_lead(p):
    """(coef, monic-ish poly) with the coefficient of the first monomial factored out"""
    m = min(p.t)
    c = p.t[m]
    if c == 1.0:
        return 1.0, p
    return c, Poly({k: v / c for k, v in p.t.items()})


def value_number(p):
    """name p (non-constant) by an atom; returns coef * atom"""
    if isnum(p):
        return p
    if len(p.t) == 1:
        return p
    c, q = canon_lead(p)
    key = ("vn", q.key())
    a = AT.index.get(key)
    if a is None:
        a = AT.get(key, "v%d" % len(AT.atoms), "vn", (), q)
    return Poly({((a.id, 1),): c})


def mul(a, b):
    if isnum(a):
        if isnum(b):
            return a * b
        return scale(b, float(a)) if a != 1 else b
    if isnum(b):
        return scale(a, float(b)) if b != 1 else a
    if len(a.t) * len(b.t) > VN_LIMIT:
        if len(a.t) >= len(b.t):
            a = value_number(a)
            if len(b.t) > VN_LIMIT:
                b = value_number(b)
        else:
            b = value_number(b)
            if len(a.t) > VN_LIMIT:
                a = value_number(a)
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mono_mul(m, n)
            v = c * d
            o = t.get(k)
            if o is None:
                t[k] = v
            else:
                s = o + v
                if s == 0 or abs(s) < 1e-14 * (abs(o) + abs(v)):
                    del t[k]
                else:
                    t[k] = s
    return simp(Poly(t))


def proportional(a, b):
    """constant c with a == c*b, or None"""
    if isnum(a) or isnum(b):
        return None
    if len(a.t) != len(b.t):
        return None
    c = None
    for m, v in a.t.items():
        w = b.t.get(m)
        if w is None:
            return None
        if c is None:
            c = v / w
        elif abs(v - c * w) > 1e-11 * abs(v):
            return None
    return c


def inv(b):
    if isnum(b):
        if b == 0:
            return func("divzero", 0.0)
        return 1.0 / b
    if len(b.t) != 1:
        b = value_number(b)
    (m, c), = b.t.items()
    return Poly({tuple((a, -e) for a, e in m): 1.0 / c})


def div(a, b):
    if isnum(b):
        if isnum(a):
            if b == 0:
                return math.nan if a == 0 else math.copysign(math.inf, a)
            return a / b
        if b == 0:
            return mul(a, func("divzero", 0.0))
        return scale(a, 1.0 / b)
    c = proportional(a, b)
    if c is not None:
        return c
    return mul(a, inv(b))


def func(name, *args):
    key = ("fn", name) + tuple(skey(x) for x in args)
    a = AT.index.get(key)
    if a is None:
        a = AT.get(key, "%s(%s)" % (name, ",".join(show(x) for x in args)), "fn", (name,) + tuple(args))
    return atom_poly(a)


def skey(x):
    if type(x) is Poly:
        return x.key()
    if type(x) is float:
        return round_sig(x)
    if hasattr(x, "key"):
        return x.key()
    return x


def power(b, n):
    if isnum(b):
        return b ** n
    if n == 0:
        return 1.0
    if n < 0:
        return power(inv(b), -n)
    r = b
    for _ in range(n - 1):
        r = mul(r, b)
    return r


def show(x, lim=12):
    if not isinstance(x, Poly):
        return repr(x) if type(x) is not float else "%.12g" % x
    if not x.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(x.t.items())):
        if i >= lim:
            out.append("...(%d terms)" % len(x.t))
            break
        s = "*".join(AT.atoms[a].name + ("" if e == 1 else "^%d" % e) for a, e in m)
        out.append(("%.9g" % c) + ("*" + s if s else ""))
    return " + ".join(out)


def atoms_of(p, deep=True):
    """ids of the atoms p depends on"""
    seen = set()
    st = [p]
    while st:
        q = st.pop()
        if not isinstance(q, Poly):
            if hasattr(q, "polys"):
                st.extend(q.polys())
            continue
        for m in q.t:
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                if deep:
                    at = AT.atoms[a]
                    if at.defn is not None:
                        st.append(at.defn)
                    for x in at.args:
                        if not isinstance(x, str):
                            st.append(x)
    return seen


def expand_once(p, aid):
    """replace value number aid by its definition where its exponent is positive"""
    d = AT.atoms[aid].defn
    res = 0.0
    groups = {}
    for m, c in p.t.items():
        e = 0
        for a, x in m:
            if a == aid:
                e = x
        rest = tuple(y for y in m if y[0] != aid) if e > 0 else m
        groups.setdefault(max(e, 0), {})[rest] = c
    pw = None
    for e in sorted(groups):
        q = Poly(groups[e])
        if e == 0:
            res = add(res, simp(q))
        else:
            r = d
            for _ in range(e - 1):
                r = mul_full(r, d)
            res = add(res, mul_full(simp(q), r))
    return res


def mul_full(a, b):
    global VN_LIMIT
    o = VN_LIMIT
    VN_LIMIT = 10 ** 9
    try:
        return mul(a, b)
    finally:
        VN_LIMIT = o


def magnitude(p):
    if isnum(p):
        return abs(p)
    return max((abs(c) for c in p.t.values()), default=0.0)


def prune(p, scale_ref):
    if isnum(p):
        return 0.0 if abs(p) <= TOL * scale_ref else p
    return simp(Poly({m: c for m, c in p.t.items() if abs(c) > TOL * scale_ref}))


def expand(p, limit=200000, stop=None):
    """expand all value numbers with positive exponent"""
    while isinstance(p, Poly):
        ids = [a for m in p.t for a, e in m if e > 0 and AT.atoms[a].kind == "vn" and (stop is None or a not in stop)]
        if not ids:
            break
        p = expand_once(p, max(ids))
        if isinstance(p, Poly) and len(p.t) > limit:
            raise OverflowError("expansion too large")
    return p


def is_zero(p, ref=1.0, limit=200000, deadline=None):
    """decide p == 0 in the domain, expanding value numbers newest first.
    Denominators: multiply through by negative powers of value numbers when needed."""
    p = prune(p, ref)
    if isnum(p):
        return p == 0
    while True:
        if not isinstance(p, Poly):
            return p == 0
        p = prune(p, ref)
        if isnum(p):
            return p == 0
        ids = set(a for m in p.t for a, e in m if AT.atoms[a].kind == "vn")
        if not ids:
            return False
        a = max(ids)
        mn = min((e for m in p.t for x, e in m if x == a), default=0)
        if mn < 0:
            # clear the denominator (a != 0 wherever it was divided by)
            has_neg = mn
            p = mul_full(p, Poly({((a, -has_neg),): 1.0}))
            if not isinstance(p, Poly):
                return p == 0
            if not any(x == a and e > 0 for m in p.t for x, e in m):
                continue
        p = expand_once(p, a)
        if isinstance(p, Poly) and len(p.t) > limit:
            raise OverflowError("expansion too large (%d terms)" % len(p.t))
        if deadline is not None and time.process_time() > deadline:
            raise OverflowError("expansion takes too long")


def equal(a, b, limit=200000):
    ref = max(magnitude(a), magnitude(b), 1e-30)
    return is_zero(sub(a, b), min(ref, max(ref, 1e-30)), limit)


def subst(p, mapping):
    """substitute atoms (id -> value) everywhere, including inside value numbers and functions"""
    memo = {}

    def go_atom(a):
        if a in mapping:
            return mapping[a]
        if a in memo:
            return memo[a]
        at = AT.atoms[a]
        if at.kind == "vn":
            r = go(at.defn)
        elif at.kind == "fn":
            r = refunc(at.args[0], [go(x) for x in at.args[1:]])
        else:
            r = atom_poly(at)
        memo[a] = r
        return r

    def go(q):
        if not isinstance(q, Poly):
            return q
        res = 0.0
        for m, c in q.t.items():
            v = c
            for a, e in m:
                v = mul(v, power(go_atom(a), e))
            res = add(res, v)
        return res

    return go(p)


def refunc(name, args):
    if all(isnum(x) for x in args):
        f = {"sqrt": math.sqrt, "exp": math.exp, "sin": math.sin, "cos": math.cos, "log": math.log,
             "abs": abs, "fabs": abs, "tan": math.tan, "atan": math.atan, "tanh": math.tanh}.get(name)
        if f:
            try:
                return f(args[0])
            except ValueError:
                pass
        if name == "pow":
            return math.pow(*args)
    return func(name, *args)


# ---- identity testing at random points (when canonical forms do not decide) ------------------
def _h(*k):
    import hashlib
    return int.from_bytes(hashlib.sha256(repr(k).encode()).digest()[:7], "big") / float(1 << 56)


def symbols(p, _seen=None):
    """names of the input symbols a term depends on"""
    out = set()
    seen = set()
    work = [p]
    while work:
        x = work.pop()
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = AT.atoms[a]
                    if at.kind == "vn":
                        work.append(at.defn)
                    elif at.kind == "fn":
                        work.extend(at.args[1:])
                    else:
                        out.add(at.name)
        elif hasattr(x, "k") and hasattr(x, "v"):
            work.append(x.v)
        elif isinstance(x, (tuple, list)):
            work.extend(x)
    return out


class NumEval:
    """evaluates terms at a pseudo-random point; unknown functions get consistent pseudo-random values"""

    def __init__(self, seed=1, assign=None, ranges=None):
        self.seed = seed
        self.assign = assign or {}
        self.ranges = ranges or {}
        self.memo = {}

    def symval(self, name):
        if name in self.assign:
            return self.assign[name]
        for pre, (lo, hi) in self.ranges.items():
            if name.startswith(pre):
                return lo + (hi - lo) * _h(self.seed, name)
        return 0.5 + _h(self.seed, name)

    def atom(self, a):
        v = self.memo.get(a)
        if v is not None:
            return v
        at = AT.atoms[a]
        if at.kind == "vn":
            v = self.ev(at.defn)
        elif at.kind == "fn":
            v = self.fn(at)
        else:
            v = self.symval(at.name)
        self.memo[a] = v
        return v

    def fn(self, at):
        n = at.args[0]
        if n == "ite":
            return self.ev(at.args[2]) if self.cond(at.args[1]) else self.ev(at.args[3])
        xs = [x if isinstance(x, str) else self.ev(x) if isnum(x) or isinstance(x, Poly) else skey(x) for x in at.args[1:]]
        try:
            if n in ("sqrt", "exp", "sin", "cos", "log", "tan", "atan", "tanh", "cosh", "sinh", "asin", "acos", "floor", "ceil"):
                return getattr(math, n)(xs[0])
            if n in ("abs", "fabs"):
                return abs(xs[0])
            if n in ("pow", "atan2", "fmod"):
                return getattr(math, n)(*xs)
            if n in ("urem", "srem"):
                return math.fmod(xs[0], xs[1])
            if n in ("udiv", "sdiv", "idiv"):
                return float(int(xs[0] / xs[1]))
            if n in ("trunc_to_int",):
                return float(int(xs[0]))
            if n in ("max", "fmax"):
                return max(xs)
            if n in ("min", "fmin"):
                return min(xs)
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
        return 0.5 + _h(self.seed, n, [round(x, 9) if isinstance(x, float) else x for x in xs])

    def cond(self, c):
        if not hasattr(c, "k"):
            return bool(c)
        if c.k == "and":
            return self.cond(c.v[0]) and self.cond(c.v[1])
        if c.k == "or":
            return self.cond(c.v[0]) or self.cond(c.v[1])
        if c.k in ("t", "f"):
            v = _h(self.seed, "cond", repr(c.v)) < 0.5
            return v if c.k == "t" else not v
        x = self.ev(c.v)
        return {"lt": x < 0, "le": x <= 0, "eq": abs(x) < 1e-14, "ne": abs(x) >= 1e-14}[c.k]

    def ev2(self, p):
        if not isinstance(p, Poly):
            return float(p), abs(float(p))
        s, g = 0.0, 0.0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                v *= self.atom(a) ** e
            s += v
            g += abs(v)
        return s, g

    def ev(self, p):
        return self.ev2(p)[0]


def zero_at_random_points(p, n=6, tol=1e-9, ref=1.0, **k):
    """None when p vanishes at n pseudo-random points, otherwise (seed, value)"""
    for seed in range(1, n + 1):
        E = NumEval(seed, **k)
        try:
            v, g = E.ev2(p)
        except ZeroDivisionError:
            continue
        if not abs(v) <= tol * max(g, ref):
            return seed, v
    return None


STATS = {"canonical": 0, "points": 0}
BUDGET = [3.0, 25.0]     # seconds for one identity, for all identities of one analysed configuration


def vanishes(p, limit=60000, **k):
    """decide p == 0 for all inputs: a nonzero value at a point refutes it; canonical forms prove it;
    when the canonical form does not decide in its budget, vanishing at all points is accepted (and counted);
    a dictionary of ranges may be given in place of the limit"""
    if isinstance(limit, dict):
        k["ranges"], limit = {n: limit[n] for n in sorted(limit, key=len, reverse=True)}, 60000
    if isnum(p):
        return abs(p) <= 1e-10
    w = zero_at_random_points(p, 2, **k)
    if w is not None and abs(w[1]) > 1e-9:
        return False
    if BUDGET[1] > 0:
        t = time.process_time()
        try:
            if is_zero(p, 1.0, limit, t + BUDGET[0]):
                STATS["canonical"] += 1
                return True
        except OverflowError:
            pass
        finally:
            BUDGET[1] -= time.process_time() - t
    w = zero_at_random_points(p, 8, **k)
    STATS["points"] += 1
    return w is None
