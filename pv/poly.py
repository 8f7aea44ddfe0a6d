"""Exact rational-function normal form over z3 real/int terms.

A term is turned into a pair (numerator, denominator) of multivariate
polynomials with Fraction coefficients; every non-arithmetic sub-term is an
opaque atom.  Two terms are equal wherever the denominators are non-zero (the
executor has already forked on every division by zero) iff n1*d2 - n2*d1 is the
zero polynomial.  This is a complete decision procedure for polynomial and
rational identities and it is used before the SMT solver.
"""
from fractions import Fraction
import z3

ZERO = {}
ONE = {(): Fraction(1)}
LIMIT = 60000


class TooBig(Exception):
    pass


def add(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mul(p, q):
    if len(p) * len(q) > LIMIT:
        raise TooBig
    if p == ONE:
        return q
    if q == ONE:
        return p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


class Norm:
    def __init__(self, squares=None):
        self.cache = {}
        self.atoms = {}
        self.squares = squares or {}   # atom id -> z3 term of its square (square roots)

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return ({((i, 1),): Fraction(1)}, ONE)

    def ratio(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i][1]
        r = self._ratio(t)
        self.cache[i] = (t, r)
        return r

    def _add(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return (add(n1, n2), d1)
        return (add(mul(n1, d2), mul(n2, d1)), mul(d1, d2))

    def _ratio(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): f} if f else {}, ONE)
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return ({(): f} if f else {}, ONE)
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children() if z3.is_app(t) else []
        if k == z3.Z3_OP_ADD:
            r = self.ratio(ch[0])
            for c in ch[1:]:
                r = self._add(r, self.ratio(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.ratio(ch[0])
            for c in ch[1:]:
                n, d = self.ratio(c)
                r = self._add(r, (neg(n), d))
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.ratio(ch[0])
            return (neg(n), d)
        if k == z3.Z3_OP_MUL:
            n, d = self.ratio(ch[0])
            for c in ch[1:]:
                n2, d2 = self.ratio(c)
                n, d = mul(n, n2), mul(d, d2)
            return (n, d)
        if k == z3.Z3_OP_DIV:
            n, d = self.ratio(ch[0])
            n2, d2 = self.ratio(ch[1])
            if not n2:
                return self.atom(t)
            return (mul(n, d2), mul(d, n2))
        if k == z3.Z3_OP_TO_REAL:
            return self.ratio(ch[0])
        if k == z3.Z3_OP_POWER and (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1])):
            e = Fraction(str(ch[1]))
            if e.denominator == 1 and 0 <= e <= 16:
                n, d = self.ratio(ch[0])
                rn, rd = ONE, ONE
                for _ in range(int(e)):
                    rn, rd = mul(rn, n), mul(rd, d)
                return (rn, rd)
        return self.atom(t)

    def reduce(self, p):
        """Replace squares of square-root atoms until none is left."""
        if not self.squares:
            return (p, ONE)
        for _ in range(20):
            hit = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in self.squares:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return (p, ONE)
            sn, sd = self.ratio(self.squares[hit])
            # multiply through by sd for every use; keep equality-to-zero only
            out = {}
            maxp = max((dict(m).get(hit, 0) // 2) for m in p)
            for m, c in p.items():
                dm = dict(m)
                e = dm.get(hit, 0)
                k = e // 2
                if e % 2:
                    dm[hit] = 1
                else:
                    dm.pop(hit, None)
                term = {tuple(sorted(dm.items())): c}
                for _i in range(k):
                    term = mul(term, sn)
                for _i in range(maxp - k):
                    term = mul(term, sd)
                out = add(out, term)
            p = out
        raise TooBig

    def equal(self, a, b):
        try:
            (n1, d1), (n2, d2) = self.ratio(a), self.ratio(b)
            diff = add(mul(n1, d2), neg(mul(n2, d1)))
            diff, _ = self.reduce(diff)
            return not diff
        except (TooBig, RecursionError):
            return False
