"""Exact algebra on real-valued terms.

A term becomes a Laurent polynomial with rational coefficients over atoms
(symbols, cos u, sin u, sqrt q, 1/q, opaque functions).  The rewrite rules
sin^2 = 1 - cos^2, sqrt(q)^2 = q, q * (1/q) = 1 are applied to a canonical
form, so two formulas are the same function (as real formulas, wherever both
are defined) iff their difference normalises to zero.  Nothing is evaluated."""
from __future__ import annotations

from fractions import Fraction

from .terms import *
from .models import PI

EPS = Fraction(1, 10 ** 11)


class Unsupported(Exception):
    pass


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(v))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


ONE_ = {(): Fraction(1)}


class Algebra:
    def __init__(self, limit=60000):
        self.atoms = []         # descriptors
        self.index = {}
        self.memo = {}
        self.limit = limit
        self.positive = set()   # atom ids known to be positive
        self.principal = []     # angles known to lie in (-pi/2, pi/2), then (-pi, pi]
        self.full = []
        self.scales = []        # polynomials known to be positive
        self.weights = {}       # typical magnitudes, for tidy()
        self.divide = False     # exact polynomial division in quotients
        self.angles = []        # registered angles, for multiple-angle formulas

    # ---- atoms
    def atom(self, *desc):
        k = self.index.get(desc)
        if k is None:
            k = len(self.atoms)
            self.index[desc] = k
            self.atoms.append(desc)
        return k

    def var(self, i, e=1):
        return {((i, e),): Fraction(1)}

    def key(self, p):
        """Hashable form of a polynomial, insensitive to rounding in the 12th digit."""
        return tuple(sorted((m, c if c.denominator < 10 ** 6 and abs(c.numerator) < 10 ** 9 else Fraction(f"{float(c):.11e}")) for m, c in p.items()))

    def unkey(self, k):
        return dict(k)

    # ---- arithmetic
    def mul(self, a, b):
        if len(a) * len(b) > self.limit * 20:
            raise Unsupported("polynomial too large")
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                q = mmul(m, n)
                v = r.get(q, 0) + c * d
                if v:
                    r[q] = v
                else:
                    r.pop(q, None)
        return self.reduce(r)

    def power(self, a, n):
        if n < 0:
            return self.power(self.inv(a), -n)
        r = ONE_
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    def reduce(self, p):
        """Applies the rewrite rules until no monomial contains a reducible power."""
        todo = None
        for m in p:
            for a, e in m:
                k = self.atoms[a][0]
                if e >= 2 and k in ("sin", "sqrt", "abs") or e < 0 and k == "inv" or e > 0 and k == "inv" and self.has_base(m, a):
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        r = {}
        for m, c in p.items():
            q = self.reduce_mono(m)
            for n, d in q.items():
                v = r.get(n, 0) + c * d
                if v:
                    r[n] = v
                else:
                    r.pop(n, None)
        if len(r) > self.limit:
            raise Unsupported("polynomial too large")
        return self.reduce(r) if any(self.reducible(m) for m in r) else r

    def has_base(self, m, a):
        return False

    def reducible(self, m):
        return any(e >= 2 and self.atoms[a][0] in ("sin", "sqrt", "abs") or e < 0 and self.atoms[a][0] == "inv" for a, e in m)

    def square_of(self, a):
        d = self.atoms[a]
        if d[0] == "sin":
            return padd(ONE_, self.var(self.atom("cos", d[1]), 2), -1)
        q = self.unkey(d[1])
        return q if d[0] == "sqrt" else self.mul(q, q)

    def reduce_mono(self, m):
        r = ONE_
        rest = []
        for a, e in m:
            k = self.atoms[a][0]
            if e >= 2 and k in ("sin", "sqrt", "abs"):
                r = self.mul(r, self.power(self.square_of(a), e // 2))
                if e % 2:
                    rest.append((a, 1))
            elif e < 0 and k == "inv":
                r = self.mul(r, self.power(self.unkey(self.atoms[a][1]), -e))
            else:
                rest.append((a, e))
        base = tuple(sorted(rest))
        out = {}
        for n, c in r.items():
            q = mmul(base, n)
            out[q] = out.get(q, 0) + c
        return {q: c for q, c in out.items() if c}

    def inv(self, p):
        p = {m: c for m, c in p.items() if c}
        if not p:
            raise Unsupported("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            return self.reduce({tuple((a, -e) for a, e in m): 1 / c})
        # monomial factor out, then an atom for the rest
        atoms = {}
        for m in p:
            d = dict(m)
            for a in set(atoms) | set(d):
                pass
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(common.get(a, 0), d.get(a, 0)) for a in set(common) | set(d)}
        common = tuple(sorted((a, e) for a, e in (common or {}).items() if e))
        inv_m = tuple((a, -e) for a, e in common)
        q = self.reduce({mmul(m, inv_m): c for m, c in p.items()})
        if len(q) == 1:
            return self.inv(self.reduce({mmul(m, common): c for m, c in q.items()}))
        lead = q[max(q)]
        q = pscale(q, 1 / lead)
        r = {((self.atom("inv", self.key(q)), 1),): 1 / lead}
        return self.mul(r, {inv_m: Fraction(1)})

    def sqrt(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for _, e in m):
                root = _rat_sqrt(c)
                h = tuple((a, e // 2) for a, e in m)
                if root is not None and not h:
                    return {(): root}
                if root is not None and self.pos_mono(h):
                    return {h: root}
                if root is not None:
                    return {((self.atom("abs", self.key({h: root})), 1),): Fraction(1)}
            if not m:
                return self.var(self.atom("sqrt", self.key(p)))
        # sqrt(q / u^2) = sqrt(q) / |u|
        low = {}
        for m in p:
            for a, e in m:
                if e < 0 and self.pos_mono(((a, 1),)):
                    low[a] = min(low.get(a, 0), e)
        if low:
            f = tuple(sorted((a, (1 - e) // 2) for a, e in low.items()))
            q = self.reduce({mmul(m, tuple((a, 2 * e) for a, e in f)): c for m, c in p.items()})
            return self.mul(self.sqrt(q), {tuple((a, -e) for a, e in f): Fraction(1)})
        return self.var(self.atom("sqrt", self.key(p)))

    def pos_mono(self, m):
        return all(a in self.positive or self.atoms[a][0] in ("sqrt", "pi", "abs") or e % 2 == 0 for a, e in m)

    # ---- functions
    def angle_key(self, p):
        """(sign, key) so that u and -u share an atom."""
        if not p:
            return 0, None
        k = self.key(p)
        if k[0][1] < 0:
            return -1, self.key(pscale(p, -1))
        return 1, k

    def cos(self, p):
        s, k = self.angle_key(p)
        if s == 0:
            return ONE_
        t = self.trig_of(k, "cos") or self.multiple(k, "cos")
        return t if t is not None else self.var(self.atom("cos", k))

    def sin(self, p):
        s, k = self.angle_key(p)
        if s == 0:
            return {}
        t = self.trig_of(k, "sin") or self.multiple(k, "sin")
        t = t if t is not None else self.var(self.atom("sin", k))
        return pscale(t, s)

    def multiple(self, k, f):
        """cos/sin of n times a registered angle, by the multiple-angle formula."""
        p = self.unkey(k)
        for u in self.angles:
            m = max(u)
            if m not in p or len(p) != len(u):
                continue
            n = p[m] / u[m]
            if n.denominator != 1 or not 2 <= abs(n) <= 8 or not self.same(p, pscale(u, n)):
                continue
            c1, s1 = self.cos(u), self.sin(u)
            c, s = c1, s1
            for _ in range(abs(int(n)) - 1):
                c, s = padd(self.mul(c, c1), self.mul(s, s1), -1), padd(self.mul(s, c1), self.mul(c, s1))
            return c if f == "cos" else pscale(s, 1 if n > 0 else -1)
        return None

    def trig_of(self, k, f):
        """cos/sin of an inverse function, of a multiple of pi/2 and of pi/2 +- u."""
        p = self.unkey(k)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                d = self.atoms[m[0][0]]
                if d[0] == "fn" and d[1] == "atan2":
                    y, x = self.unkey(d[2]), self.unkey(d[3])
                    r = self.sqrt(padd(self.mul(x, x), self.mul(y, y)))
                    return self.mul(x if f == "cos" else y, self.inv(r))
                if d[0] == "fn" and d[1] == "atan":
                    y = self.unkey(d[2])
                    r = self.sqrt(padd(ONE_, self.mul(y, y)))
                    return self.mul(ONE_ if f == "cos" else y, self.inv(r))
                if d[0] == "fn" and d[1] == "asin":
                    y = self.unkey(d[2])
                    return y if f == "sin" else self.sqrt(padd(ONE_, self.mul(y, y), -1))
                if d[0] == "fn" and d[1] == "acos":
                    y = self.unkey(d[2])
                    return y if f == "cos" else self.sqrt(padd(ONE_, self.mul(y, y), -1))
        pi = ((self.atom("pi"), 1),)
        if pi in p:
            n = p[pi] * 2
            if n.denominator == 1:
                n = int(n) % 4
                rest = {m: c for m, c in p.items() if m != pi}
                c, s = self.cos(rest), self.sin(rest)
                tab = {0: (c, s), 1: (pscale(s, -1), c), 2: (pscale(c, -1), pscale(s, -1)), 3: (s, pscale(c, -1))}[n]
                return tab[0 if f == "cos" else 1]
        return None

    # ---- conversion
    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.of_(t)
            if self.weights and len(r) > 1:
                r = self.tidy(r)
            self.memo[t] = r
        return r

    def tidy(self, p):
        """Drops what rounding of the constants leaves of terms that cancel."""
        size = {}
        for m, c in p.items():
            v = abs(float(c))
            for a, e in m:
                if a in self.weights:
                    v *= self.weights[a] ** e
            size[m] = v
        top = max(size.values())
        return {m: c for m, c in p.items() if size[m] > 1e-12 * top}

    def of_(self, t):
        op = t.op
        if op == "const":
            v = t.args[0]
            if isinstance(v, (int, float)) and v == v and v not in (float("inf"), float("-inf")):
                return {(): frac(v)} if v else {}
            raise Unsupported(show(t))
        if op == "sym" and t is PI:
            return self.var(self.atom("pi"))
        if op == "neg":
            return pscale(self.of(t.args[0]), -1)
        if op == "float":
            return self.of(t.args[0])
        if op == "bin":
            o, a, b = t.args
            if o == "+":
                return padd(self.of(a), self.of(b))
            if o == "-":
                return padd(self.of(a), self.of(b), -1)
            if o == "*":
                return self.mul(self.of(a), self.of(b))
            if o == "/":
                x, y = self.of(a), self.of(b)
                if self.divide and 1 < len(y) <= 6 and len(x) <= 40:
                    q = self.quotient(x, y)
                    if q is not None:
                        return q
                return self.mul(x, self.inv(y))
            if o == "**":
                p = self.of(b)
                if not p:
                    return ONE_
                if set(p) == {()}:
                    c = p[()]
                    if c.denominator == 1 and abs(c) <= 64:
                        return self.power(self.of(a), int(c))
                    if c.denominator == 2 and abs(c) <= 32:
                        n = c.numerator
                        return self.power(self.sqrt(self.of(a)), n)
                raise Unsupported("power " + show(t))
            if o in ("//", "%"):
                return self.var(self.atom("fn", o, self.key(self.of(a)), self.key(self.of(b))))
            raise Unsupported(show(t))
        if op == "fn":
            n = t.args[0]
            a = [self.of(x) for x in t.args[1:]]
            if n == "cos":
                return self.cos(a[0])
            if n == "sin":
                return self.sin(a[0])
            if n == "tan":
                return self.mul(self.sin(a[0]), self.inv(self.cos(a[0])))
            if n == "sqrt":
                return self.sqrt(a[0])
            if n in ("fabs", "abs"):
                s, k = self.angle_key(a[0])
                p = self.unkey(k) if s else {}
                if set(p) <= {()}:
                    return {m: abs(c) for m, c in p.items()}
                if len(p) == 1 and self.pos_mono(next(iter(p))):
                    return {m: abs(c) for m, c in p.items()}
                return self.var(self.atom("abs", k))
            if n == "asin":
                return self.atan2(a[0], self.sqrt(padd(ONE_, self.mul(a[0], a[0]), -1)))
            if n == "acos":
                return self.atan2(self.sqrt(padd(ONE_, self.mul(a[0], a[0]), -1)), a[0])
            if n == "atan":
                for u in self.principal:
                    if self.same(a[0], self.mul(self.sin(u), self.inv(self.cos(u)))):
                        return u
            if n in ("atan", "sinh", "asinh", "atanh", "tanh"):
                s, k = self.angle_key(a[0])
                return pscale(self.var(self.atom("fn", n, k)), s) if s else {}
            if n == "atan2":
                return self.atan2(a[0], a[1])
            return self.var(self.atom("fn", n, *[self.key(x) for x in a]))
        if op in ("leaf", "sym", "unpack", "len", "idx", "chunk", "item", "param", "arg", "int", "fmt", "minmax"):
            return self.var(self.atom("t", t))
        if op in ("unk", "ite"):
            raise Unsupported(show(t))
        return self.var(self.atom("t", t))

    def atan2(self, y, x):
        if not y and not x:
            return {}
        for u in self.principal + self.full:
            if self.same_direction(y, x, self.sin(u), self.cos(u)):
                return u
        # positive common scale: make the leading coefficient +-1
        for p in (x, y):
            if p:
                lead = p[max(p)]
                y, x = pscale(y, 1 / abs(lead)), pscale(x, 1 / abs(lead))
                break
        if y:
            # atan2 is odd in y (except on the cut)
            s, k = self.angle_key(y)
            return pscale(self.var(self.atom("fn", "atan2", k, self.key(x))), s)
        return self.var(self.atom("fn", "atan2", self.key(y), self.key(x)))

    def quotient(self, p, q):
        """p / q if q divides p (up to rounding of the coefficients), else None."""
        atoms = sorted({a for m in (*p, *q) for a, _ in m})

        def order(m):
            d = dict(m)
            return tuple(d.get(a, 0) for a in atoms)
        lead = max(q, key=order)
        inv = tuple((a, -e) for a, e in lead)
        out, rest, size = {}, dict(p), self.magnitude(p)
        for _ in range(60):
            rest = {m: c for m, c in rest.items() if abs(c) > EPS * size}
            if not rest:
                return self.reduce(out)
            m = max(rest, key=order)
            t = mmul(m, inv)
            if t in out:
                return None
            c = rest[m] / q[lead]
            out[t] = c
            for n, d in q.items():
                k = mmul(t, n)
                rest[k] = rest.get(k, 0) - c * d
        return None

    # ---- equality
    def clear(self, p):
        """p times a product of powers of its atoms, without negative powers
        or inverse atoms; zero iff p is."""
        for _ in range(200):
            low = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        low[a] = min(low.get(a, 0), e)
            if low:
                f = tuple(sorted((a, -e) for a, e in low.items()))
                p = self.reduce({mmul(m, f): c for m, c in p.items()})
                continue
            inv = None
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == "inv":
                        inv = a
                        break
                if inv is not None:
                    break
            if inv is None:
                return p
            k = max(dict(m).get(inv, 0) for m in p)
            base = self.unkey(self.atoms[inv][1])
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(inv, 0)
                term = self.mul({tuple(sorted(d.items())): c}, self.power(base, k - e))
                r = padd(r, term)
            p = self.reduce(r)
        raise Unsupported("clearing denominators")

    def zero(self, p, scale=Fraction(1)):
        p = self.clear(p)
        return all(abs(c) <= EPS * scale for c in p.values())

    def magnitude(self, p):
        return max([abs(c) for c in p.values()], default=Fraction(0))

    def same(self, p, q):
        d = padd(p, q, -1)
        if not d:
            return True
        # relative to the size of the coefficients of the same monomials
        if all(abs(c) <= EPS * max(abs(p.get(m, 0)), abs(q.get(m, 0))) for m, c in d.items()):
            return True
        try:
            d1 = self.clear(d)
        except Unsupported:
            return False
        if not d1:
            return True
        sc = {}
        tot = max(self.magnitude(p), self.magnitude(q))
        cl = [abs(c) for c in self.clear(p).values()] + [abs(c) for c in self.clear(q).values()]
        big = max([tot] + cl)
        return all(abs(c) <= EPS * EPS * big for c in d1.values())

    def same_angle(self, p, q):
        """Equality of two angles, atan2 compared as directions."""
        if self.same(p, q):
            return True
        a, b = self.sole_atan2(p), self.sole_atan2(q)
        if a is None or b is None or not self.same({(): a[0]}, {(): b[0]}):
            return False
        return self.same_direction(a[1], a[2], b[1], b[2])

    def sole_atan2(self, p):
        """(factor polynomial coefficient, y, x) of k * atan2(y, x); k may contain pi."""
        if len(p) != 1:
            return None
        (m, c), = p.items()
        at = [(a, e) for a, e in m if self.atoms[a][0] == "fn" and self.atoms[a][1] == "atan2"]
        if len(at) != 1 or at[0][1] != 1:
            return None
        rest = tuple((a, e) for a, e in m if (a, e) not in at)
        if any(self.atoms[a][0] != "pi" for a, _ in rest):
            return None
        d = self.atoms[at[0][0]]
        y, x = self.unkey(d[2]), self.unkey(d[3])
        if c < 0:
            y, c = pscale(y, -1), -c
        return (c * 1000 ** sum(e for _, e in rest) if rest else c), y, x

    def same_direction(self, y1, x1, y2, x2):
        if not self.same(self.mul(y1, x2), self.mul(y2, x1)):
            return False
        # same or opposite: (y1, x1) = l * (y2, x2); try the positive scales in sight
        for p, q in ((x1, x2), (y1, y2)):
            if len(p) == 1 and len(q) == 1:
                l = self.mul(p, self.inv(q))
                if len(l) == 1:
                    (m, c), = l.items()
                    if c > 0 and self.pos_mono(m):
                        return True
        cand = [ONE_]
        ats = set()
        for p in (y1, x1, y2, x2):
            for m in p:
                ats |= {a for a, _ in m}
        for a in ats:
            if self.atoms[a][0] in ("sqrt", "abs") or a in self.positive:
                cand += [self.var(a), self.var(a, -1)]
        for c in self.scales:
            cand += [c, self.inv(c)]
        for l in cand:
            if x2 and self.ratio_const(x1, self.mul(x2, l)) or y2 and self.ratio_const(y1, self.mul(y2, l)):
                return True
        return False

    def ratio_const(self, p, q):
        """p = k*q for a positive rational k."""
        p, q = self.clear2(p, q)
        if not p or not q:
            return False
        m = max(q)
        if m not in p:
            return False
        k = p[m] / q[m]
        return k > 0 and self.same(p, pscale(q, k))

    def clear2(self, p, q):
        return p, q

    def show(self, p, n=6):
        out = []
        for m, c in sorted(p.items(), key=lambda x: -abs(x[1]))[:n]:
            s = "*".join((self.name(a) + (f"^{e}" if e != 1 else "")) for a, e in m)
            out.append((f"{float(c):.6g}" if c != 1 or not s else "") + ("*" if s and c != 1 else "") + s)
        return " + ".join(out) + (f" + ... ({len(p)} terms)" if len(p) > n else "") if out else "0"

    def name(self, a):
        d = self.atoms[a]
        if d[0] == "t":
            return show(d[1])
        if d[0] == "pi":
            return "pi"
        return d[0] + "(" + ",".join(x if isinstance(x, str) else self.show(self.unkey(x), 3) for x in d[1:]) + ")"


def _rat_sqrt(c):
    if c < 0:
        return None
    from math import isqrt
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


# ------------------------------------------------------------------- gates
def first_cond(ts):
    """An innermost gate condition of the terms, or None."""
    seen = set()

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                r = go(x)
                if r is not None:
                    return r
            return None
        if not isinstance(t, T) or t in seen:
            return None
        seen.add(t)
        for x in t.args:
            r = go(x)
            if r is not None:
                return r
        if t.op == "ite":
            return t.args[0]
        return None
    for t in ts:
        r = go(t)
        if r is not None:
            return r
    return None


def assume(ts, c, val):
    n = neg_(c)

    def f(x):
        if x is c:
            return TRUE if val else FALSE
        if x is n:
            return FALSE if val else TRUE
        return None
    memo = {}
    return [rewrite(t, f, memo) for t in ts]


def cases(ts, limit=64, pre=()):
    """[(conditions, terms without gates)]"""
    out = []

    def go(ts, conds):
        c = first_cond(ts)
        if c is None:
            out.append((conds, ts))
            return
        if len(out) > limit:
            raise Unsupported("too many cases")
        for v in (True, False):
            go(assume(ts, c, v), conds + [(c, v)])
    go(list(ts), list(pre))
    return out
