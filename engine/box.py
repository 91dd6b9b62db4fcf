"""Interval refinement of the value domain: while a box is active, comparisons of values over the symbols of the box are decided
when they have the same answer on the whole box (interval arithmetic with bisection); a value that changes sign inside is an error."""
import math

import poly as A
from poly import Poly

EPS = 1e-11


class Undecided(ValueError):
    """a value that changes inside the box; .cut is a value of the (single) symbol of the box where it does"""
    cut = None


class Box:
    def __init__(self, ranges):
        self.r = dict(ranges)           # symbol name -> (lo, hi)
        self.cache = {}

    # ---- interval evaluation ---------------------------------------------------
    def atom(self, a, env, memo):
        v = memo.get(a)
        if v is None:
            at = A.AT.atoms[a]
            if at.kind == "vn":
                v = self.iv(at.defn, env, memo)
            elif at.kind == "fn":
                n = at.args[0]
                xs = [self.iv(x, env, memo) for x in at.args[1:] if not isinstance(x, str)]
                if n in ("fabs", "abs"):
                    lo, hi = xs[0]
                    v = (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
                elif n == "sqrt":
                    v = (math.sqrt(max(xs[0][0], 0)), math.sqrt(max(xs[0][1], 0)))
                elif n == "trunc_to_int":
                    v = (math.trunc(xs[0][0]), math.trunc(xs[0][1]))
                else:
                    raise Undecided(n)
            else:
                v = env.get(at.name)
                if v is None:
                    raise Undecided(at.name)
            memo[a] = v
        return v

    def iv(self, p, env, memo):
        if not isinstance(p, Poly):
            return (float(p), float(p))
        # one variable: Horner form is exact enough after bisection
        lo = hi = 0.0
        for m, c in p.t.items():
            a = b = c
            for at, e in m:
                x, y = self.atom(at, env, memo)
                if e < 0:
                    if x <= 0 <= y:
                        raise Undecided("division by an interval containing zero")
                    x, y, e = 1 / y, 1 / x, -e
                u, v = x ** e, y ** e
                if e % 2 == 0 and x < 0 < y:
                    u, v = 0.0, max(u, v)
                u, v = min(u, v), max(u, v)
                q = (a * u, a * v, b * u, b * v)
                a, b = min(q), max(q)
            lo += a
            hi += b
        return lo, hi

    def inside(self, p):
        """are all symbols of the value in the box?"""
        return all(s in self.r for s in self.syms(p))

    def syms(self, p):
        out, st = set(), [p]
        while st:
            x = st.pop()
            if isinstance(x, Poly):
                for m in x.t:
                    for a, _ in m:
                        at = A.AT.atoms[a]
                        if at.kind == "vn":
                            st.append(at.defn)
                        elif at.kind == "fn":
                            st.extend(y for y in at.args[1:])
                        else:
                            out.add(at.name)
            elif not isinstance(x, (int, float, str)):
                out.add("?")
        return out

    def points(self, n):
        import random
        g = random.Random(7)
        for _ in range(n):
            yield {s: lo + (hi - lo) * g.random() for s, (lo, hi) in self.r.items()}

    def at(self, p, pt):
        lo, hi = self.iv(p, {s: (x, x) for s, x in pt.items()}, {})
        return 0.5 * (lo + hi)

    def sign(self, d):
        """-1, 0, 1 when the value has this sign on the whole box"""
        if not isinstance(d, Poly):
            return 0 if abs(d) == 0 else (1 if d > 0 else -1)
        k = d.key()
        if k in self.cache:
            return self.cache[k]
        ref = sum(abs(c) for c in d.t.values())
        if all(abs(self.at(d, pt)) <= EPS * max(1.0, ref) for pt in self.points(6)):
            s = 0
        else:
            s = self.bisect(d, dict(self.r), 0)
        self.cache[k] = s
        return s

    def undecided(self, msg, f):
        """f(number) -> class of the value; the first place where the class changes"""
        e = Undecided(msg)
        if len(self.r) == 1:
            (s, (lo, hi)), = self.r.items()
            xs = [lo + (hi - lo) * k / 64 for k in range(65)]
            ys = [f({s: x}) for x in xs]
            for a, b, u, v in zip(xs, xs[1:], ys, ys[1:]):
                if u != v:
                    for _ in range(60):
                        m = 0.5 * (a + b)
                        if f({s: m}) == u:
                            a = m
                        else:
                            b = m
                    e.cut = 0.5 * (a + b)
                    break
        return e

    def coefficients(self, d):
        """coefficients of a plain polynomial in the only symbol of the box"""
        if len(self.r) != 1:
            return None
        c = {}
        for m, v in d.t.items():
            if len(m) > 1 or (m and (m[0][1] < 0 or A.AT.atoms[m[0][0]].kind in ("vn", "fn"))):
                return None
            c[m[0][1] if m else 0] = v
        return [c.get(k, 0.0) for k in range(max(c) + 1)] if c else [0.0]

    def univariate(self, c):
        """roots inside the box, by the roots of the derivatives"""
        (_, (lo, hi)), = self.r.items()

        def f(c, x):
            r = 0.0
            for a in reversed(c):
                r = r * x + a
            return r

        def roots(c):
            if len(c) < 2:
                return []
            ext = [lo] + roots([k * a for k, a in enumerate(c)][1:]) + [hi]
            out = []
            for a, b in zip(ext, ext[1:]):
                u, v = f(c, a), f(c, b)
                if (u > 0) != (v > 0):
                    for _ in range(80):
                        m = 0.5 * (a + b)
                        if (f(c, m) > 0) == (u > 0):
                            a = m
                        else:
                            b = m
                    out.append(0.5 * (a + b))
            return out
        return roots(c), f

    def bisect(self, d, env, depth):
        if not depth:
            c = self.coefficients(d)
            if c:
                r, f = self.univariate(c)
                (_, (lo, hi)), = self.r.items()
                r = [x for x in r if lo + 1e-9 < x < hi - 1e-9]
                if r:
                    e = Undecided("%s changes sign in the box" % A.show(d))
                    e.cut = r[0]
                    raise e
                return 1 if f(c, 0.5 * (lo + hi)) > 0 else -1
        try:
            lo, hi = self.iv(d, env, {})
        except Undecided:
            if depth > 14:
                raise
            lo, hi = -1, 1
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if depth > 14:
            raise self.undecided("%s changes sign in the box" % A.show(d), lambda pt: self.at(d, pt) > 0)
        s = max(env, key=lambda n: (env[n][1] - env[n][0]) / (self.r[n][1] - self.r[n][0]))
        a, b = env[s]
        m = 0.5 * (a + b)
        x = self.bisect(d, dict(env, **{s: (a, m)}), depth + 1)
        y = self.bisect(d, dict(env, **{s: (m, b)}), depth + 1)
        if x != y:
            raise self.undecided("%s changes sign in the box" % A.show(d), lambda pt: self.at(d, pt) > 0)
        return x

    def decide(self, k, d):
        """truth value of (d k 0), None for values that are not over the box"""
        if not self.inside(d):
            return None
        s = self.sign(d)
        return int({"lt": s < 0, "le": s <= 0, "eq": s == 0, "ne": s != 0}[k])

    # ---- exact simplification --------------------------------------------------
    def fabs(self, x):
        if not self.inside(x):
            return None
        s = self.sign(x)
        return 0.0 if s == 0 else (x if s > 0 else A.neg(x))

    def sqrt(self, x):
        """square root of a perfect square of a linear expression in one symbol"""
        if not self.inside(x):
            return None
        x = A.expand(x)
        if not isinstance(x, Poly):
            return None if x < 0 else math.sqrt(x)
        atoms = {a for m in x.t for a, _ in m}
        if len(atoms) != 1:
            return None
        t = atoms.pop()
        c = {0: 0.0, 1: 0.0, 2: 0.0}
        for m, v in x.t.items():
            e = m[0][1] if m else 0
            if e not in c:
                return None
            c[e] = v
        if c[2] <= 0 or abs(c[1] ** 2 - 4 * c[0] * c[2]) > 1e-9 * (c[1] ** 2 + 4 * abs(c[0]) * c[2] + c[2] ** 2):
            return None
        r = math.sqrt(c[2])
        lin = A.add(A.scale(Poly({((t, 1),): 1.0}), r), c[1] / (2 * r))
        return self.fabs(lin)

    def simplify(self, x):
        """a quotient that is linear in the only symbol of the box, as that linear function (decided by evaluation at random points)"""
        if len(self.r) != 1 or not any(e < 0 or A.AT.atoms[a].kind in ("vn", "fn") for m in x.t for a, e in m):
            return x
        k = ("lin", x.key())
        r = self.cache.get(k)
        if r is None:
            r = x
            if self.inside(x):
                pts = list(self.points(7))
                (s, _), = self.r.items()
                try:
                    ys = [self.at(x, p) for p in pts]
                    ts = [p[s] for p in pts]
                    b = (ys[1] - ys[0]) / (ts[1] - ts[0])
                    a = ys[0] - b * ts[0]
                    if all(abs(a + b * t - y) <= 1e-10 * (1 + abs(a) + abs(b)) for t, y in zip(ts, ys)):
                        r = A.add(A.scale(A.sym(s), b), a) if abs(b) > 1e-9 else a
                except (Undecided, ZeroDivisionError, OverflowError):
                    pass
            self.cache[k] = r
        return r

    def trunc(self, x):
        if not self.inside(x):
            return None
        lo, hi = self.iv(x, dict(self.r), {})
        if math.trunc(lo) != math.trunc(hi):
            raise self.undecided("integer part of %s changes in the box" % A.show(x), lambda pt: math.trunc(self.at(x, pt)))
        return math.trunc(lo)
