"""Symbolic values (exact integers, reals, complex numbers) and the path explorer.

The real, unmodified functions of /repo are executed by CPython on these values.
Every branch on a symbolic condition forks (by deterministic re-execution with a
decision prefix), so the set of explored paths covers every input that satisfies
the harness' precondition; each contract clause becomes one verification
condition per path, discharged by the rational normaliser or z3.
"""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import z3

from . import poly

RLIMIT_BRANCH = 3_000_000
RLIMIT_PROVE = 60_000_000


class Stop(BaseException):
    """Ends the current path (infeasible assumption)."""


class Unsupported(BaseException):
    """The engine cannot follow the code here: the harness is undecided."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX


class Ctx:
    """One path."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []          # decisions taken so far
        self.alts = []           # unexplored prefixes
        self.small_quotients = ()
        self.symbolic_hash = False
        self.solver = z3.Solver()
        self.solver.set("rlimit", RLIMIT_BRANCH)
        self.solver.set("random_seed", 0)
        self.pc = []
        self.side = []
        self.vars = {}           # name -> z3 const (inputs)
        self.fresh_n = 0
        self.sqrt_of = {}        # id -> (atom, term)
        self.pow2_seen = {}
        self.queries = 0
        self.branch_queries = 0

    # -- assertions -------------------------------------------------------
    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *extra):
        self.branch_queries += 1
        return self.solver.check(*extra)

    def positive(self, t):
        if z3.is_app(t) and t.decl().name() == "pow2":
            return True
        return self.check(t <= 0) == z3.unsat

    def decide_assume(self, cond) -> bool:
        """Assume: add without forking; False if infeasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.add(cond)
        return self.check() != z3.unsat

    # -- decisions --------------------------------------------------------
    def _next(self):
        i = len(self.trace)
        return self.prefix[i] if i < len(self.prefix) else None

    def decide(self, cond) -> bool:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        nxt = self._next()
        if nxt is not None:
            if nxt[0] != "b":
                raise Unsupported("non-deterministic re-execution")
            v = nxt[1]
            self.trace.append(("b", v))
            self.add(cond if v else z3.Not(cond))
            return v
        t = self.check(cond)
        if t == z3.unsat:
            self.trace.append(("b", False))
            self.add(z3.Not(cond))
            return False
        f = self.check(z3.Not(cond))
        if f == z3.unsat:
            self.trace.append(("b", True))
            self.add(cond)
            return True
        self.alts.append(list(self.trace) + [("b", False)])
        self.trace.append(("b", True))
        self.add(cond)
        return True

    def choose(self, n: int) -> int:
        if n <= 0:
            raise Stop
        nxt = self._next()
        if nxt is not None:
            if nxt[0] != "c":
                raise Unsupported("non-deterministic re-execution")
            self.trace.append(nxt)
            return nxt[1]
        for k in range(n - 1, 0, -1):
            self.alts.append(list(self.trace) + [("c", k)])
        self.trace.append(("c", 0))
        return 0

    def concretize(self, e) -> int:
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            nxt = self._next()
            if nxt is not None:
                if nxt[0] != "v":
                    raise Unsupported("non-deterministic re-execution")
                _, v, taken = nxt
                self.trace.append(nxt)
                self.add(e == v if taken else e != v)
                if taken:
                    return v
                continue
            if self.check() != z3.sat:
                raise Stop
            m = self.solver.model()
            v = m.eval(e, model_completion=True).as_long()
            if self.check(e != v) != z3.unsat:
                self.alts.append(list(self.trace) + [("v", v, False)])
            self.trace.append(("v", v, True))
            self.add(e == v)
            return v

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const(f"{base}!{self.fresh_n}", sort)


# --------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, (SNum, SBool))


def to_z3_real(x):
    if isinstance(x, SInt):
        return z3.ToReal(x.e)
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, numbers.Real):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            raise Unsupported("non-finite constant mixed with symbolic value")
        return z3.RealVal(Fraction(f))
    raise TypeError(x)


def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mk_real(e):
    return SReal(z3.simplify(e))


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def kind(x):
    """0 int-like, 1 real-like, 2 complex-like, None otherwise."""
    if isinstance(x, (SInt, SBool)):
        return 0
    if isinstance(x, SReal):
        return 1
    if isinstance(x, SComplex):
        return 2
    if isinstance(x, numbers.Integral):
        return 0
    if isinstance(x, numbers.Real):
        return 1
    if isinstance(x, numbers.Complex):
        return 2
    return None


def z3_int(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def as_complex(x):
    if isinstance(x, SComplex):
        return x
    if kind(x) == 2:
        return SComplex(to_z3_real(x.real), to_z3_real(x.imag))
    return SComplex(to_z3_real(x), z3.RealVal(0))


def z3_bool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SReal):
        return x.e != 0
    if z3.is_bool(x) if isinstance(x, z3.ExprRef) else False:
        return x
    return z3.BoolVal(bool(x))


def _binary(op):
    def f(self, other):
        k = kind(other)
        if k is None:
            return NotImplemented
        return op(self, other)

    def r(self, other):
        k = kind(other)
        if k is None:
            return NotImplemented
        return op(other, self)
    return f, r


def s_add(a, b):
    k = max(kind(a), kind(b))
    if k == 0:
        return mk_int(z3_int(a) + z3_int(b))
    if k == 1:
        return mk_real(to_z3_real(a) + to_z3_real(b))
    a, b = as_complex(a), as_complex(b)
    return SComplex(z3.simplify(a.re + b.re), z3.simplify(a.im + b.im))


def s_sub(a, b):
    k = max(kind(a), kind(b))
    if k == 0:
        return mk_int(z3_int(a) - z3_int(b))
    if k == 1:
        return mk_real(to_z3_real(a) - to_z3_real(b))
    a, b = as_complex(a), as_complex(b)
    return SComplex(z3.simplify(a.re - b.re), z3.simplify(a.im - b.im))


def s_mul(a, b):
    k = max(kind(a), kind(b))
    if k == 0:
        return mk_int(z3_int(a) * z3_int(b))
    if k == 1:
        return mk_real(to_z3_real(a) * to_z3_real(b))
    a, b = as_complex(a), as_complex(b)
    return SComplex(z3.simplify(a.re * b.re - a.im * b.im), z3.simplify(a.re * b.im + a.im * b.re))


def s_div(a, b):
    k = max(kind(a), kind(b))
    if k <= 1:
        d = to_z3_real(b)
        if ctx().decide(d == 0):
            raise ZeroDivisionError("division by zero")
        return mk_real(to_z3_real(a) / d)
    a, b = as_complex(a), as_complex(b)
    if z3.is_true(z3.simplify(b.im == 0)):
        if ctx().decide(b.re == 0):
            raise ZeroDivisionError("complex division by zero")
        return SComplex(z3.simplify(a.re / b.re), z3.simplify(a.im / b.re))
    n = b.re * b.re + b.im * b.im
    if ctx().decide(z3.And(b.re == 0, b.im == 0)):
        raise ZeroDivisionError("complex division by zero")
    return SComplex(z3.simplify((a.re * b.re + a.im * b.im) / n), z3.simplify((a.im * b.re - a.re * b.im) / n))


def to_int(e):
    """Floor of a real term, in a canonical form: rationally equal arguments give the same term, and an
    integer-valued summand with integer coefficient is moved out of the floor."""
    from . import poly
    n = poly.Norm()
    try:
        num, den = n.ratio(z3.simplify(e))
    except (poly.TooBig, RecursionError):
        return z3.ToInt(e)
    if len(den) != 1:
        return z3.ToInt(e)
    (dm, d), = den.items()
    dm = dict(dm)
    if dm and not all(ctx().positive(n.atoms[i]) for i in dm):
        return z3.ToInt(e)
    mono = {}
    for m, c in num.items():
        m = dict(m)
        for i, k in dm.items():
            m[i] = m.get(i, 0) - k
        mono[tuple(sorted((i, k) for i, k in m.items() if k))] = c / d
    whole, rest = [], []
    for m, c in sorted(mono.items(), key=lambda mc: [(str(n.atoms[i]), k) for i, k in mc[0]]):
        if all(z3.is_int(n.atoms[i]) and k > 0 for i, k in m):
            w = math.floor(c)
            if w:
                t = z3.IntVal(w)
                for i, k in m:
                    for _ in range(k):
                        t = t * n.atoms[i]
                whole.append(t)
            c -= w
        if c:
            t = z3.RealVal(c)
            for i, k in m:
                a = z3.ToReal(n.atoms[i]) if z3.is_int(n.atoms[i]) else n.atoms[i]
                for _ in range(abs(k)):
                    t = t * a if k > 0 else t / a
            rest.append(t)
    w = z3.Sum(whole) if whole else z3.IntVal(0)
    if not rest or all(z3.is_rational_value(z3.simplify(t)) for t in rest):
        return z3.simplify(w)     # a constant rest lies in [0, 1)
    r = z3.ToInt(z3.simplify(z3.Sum(rest)))
    return z3.simplify(w + r)


def _floordiv_int(a, b):
    # z3 div/mod are Euclidean (remainder >= 0); Python floors.
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b, a % b
    if ctx().decide(b > 0):
        for k in ctx().small_quotients:      # explicit case split: keeps the arithmetic linear
            if ctx().decide(z3.And(k * b <= a, a < (k + 1) * b)):
                return z3.IntVal(k), z3.simplify(a - k * b)
        return a / b, a % b
    # b < 0 :  a // b == (-a) // (-b)
    q, r = (-a) / (-b), -((-a) % (-b))
    return q, r


def s_floordiv(a, b):
    k = max(kind(a), kind(b))
    if k == 0:
        a, b = z3_int(a), z3_int(b)
        if ctx().decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mk_int(_floordiv_int(a, z3.simplify(b))[0])
    if k == 1:
        d = to_z3_real(b)
        if ctx().decide(d == 0):
            raise ZeroDivisionError("float floor division by zero")
        return mk_real(z3.ToReal(to_int(to_z3_real(a) / d)))
    raise TypeError("can't take floor of complex number.")


def s_mod(a, b):
    k = max(kind(a), kind(b))
    if k == 0:
        a, b = z3_int(a), z3_int(b)
        if ctx().decide(b == 0):
            raise ZeroDivisionError("integer modulo by zero")
        return mk_int(_floordiv_int(a, z3.simplify(b))[1])
    if k == 1:
        x, d = to_z3_real(a), to_z3_real(b)
        if ctx().decide(d == 0):
            raise ZeroDivisionError("float modulo")
        return mk_real(x - d * z3.ToReal(to_int(x / d)))
    raise TypeError("can't mod complex numbers.")


def s_pow(a, b):
    kb = kind(b)
    if isinstance(b, SInt):
        if not is_sym(a) and a == 2:
            return pow2(b)
        return s_pow(a, ctx().concretize(b.e))
    if isinstance(b, (SReal, SComplex)):
        raise Unsupported("symbolic real exponent")
    if kb == 0:
        n = int(b)
        if n < 0:
            return s_div(1, s_pow(a, -n))
        r = 1
        for _ in range(n):
            r = s_mul(r, a)
        if n == 0 and isinstance(a, SComplex):
            return SComplex(z3.RealVal(1), z3.RealVal(0))
        return r
    if kb == 1 and float(b) == 0.5:
        return s_sqrt(a)
    if kb == 1 and float(b) == -0.5:
        return s_div(1, s_sqrt(a))
    if kb == 1 and float(b) == int(b):
        return s_pow(a, int(b))
    raise Unsupported(f"power {a!r} ** {b!r}")


_POW2 = z3.Function("pow2", z3.IntSort(), z3.RealSort())


def pow2(k):
    """2**k for a symbolic integer, as a product of opaque positive atoms."""
    c = ctx()
    n = poly.Norm()
    num, den = n.ratio(k.e)
    if den != poly.ONE:
        raise Unsupported("pow2 exponent")
    up, down = z3.RealVal(1), z3.RealVal(1)
    for m, coef in num.items():
        if coef.denominator != 1:
            raise Unsupported("pow2 exponent")
        q = int(coef)
        if m == ():
            if q >= 0:
                up = up * z3.RealVal(2 ** q)
            else:
                down = down * z3.RealVal(2 ** -q)
            continue
        if len(m) == 1 and m[0][1] == 1:
            base = n.atoms[m[0][0]]
        else:
            raise Unsupported("nonlinear pow2 exponent")
        if base.sort() != z3.IntSort():
            raise Unsupported("pow2 of non-integer")
        at = _POW2(base)
        if base.get_id() not in c.pow2_seen:
            c.pow2_seen[base.get_id()] = base
            c.add(at > 0)
            c.add(z3.Implies(base >= 0, at >= 1))
            c.add(z3.Implies(base <= 0, at <= 1))
            for j in range(-4, 9):
                c.add(z3.Implies(base == j, at == z3.RealVal(Fraction(2) ** j)))
        for _ in range(abs(q)):
            if q > 0:
                up = up * at
            else:
                down = down * at
    return mk_real(up / down)


def s_sqrt(a):
    c = ctx()
    if isinstance(a, SComplex):
        if z3.is_true(z3.simplify(a.im == 0)):
            return s_csqrt(a)
        return s_csqrt(a)
    x = z3.simplify(to_z3_real(a))
    if c.decide(x < 0):
        raise ValueError("math domain error")
    return SReal(sqrt_atom(x))


def sqrt_atom(x):
    c = ctx()
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if rn * rn == f.numerator and rd * rd == f.denominator:
            return z3.RealVal(Fraction(rn, rd))
    for atom, term in c.sqrt_of.values():
        if poly.Norm().equal(term, x):
            return atom
    s = c.fresh("sqrt", z3.RealSort())
    c.sqrt_of[s.get_id()] = (s, x)
    c.add(z3.And(s >= 0, s * s == x))
    return s


def s_csqrt(a):
    """Principal complex square root."""
    c = ctx()
    a = as_complex(a)
    if c.decide(a.im == 0):
        if c.decide(a.re >= 0):
            return SComplex(sqrt_atom(z3.simplify(a.re)), z3.RealVal(0))
        return SComplex(z3.RealVal(0), sqrt_atom(z3.simplify(-a.re)))
    m = sqrt_atom(z3.simplify(a.re * a.re + a.im * a.im))
    re = sqrt_atom(z3.simplify((m + a.re) / 2))
    im = sqrt_atom(z3.simplify((m - a.re) / 2))
    return SComplex(re, z3.simplify(z3.If(a.im > 0, im, -im)))


def s_abs(a):
    if isinstance(a, SComplex):
        return SReal(sqrt_atom(z3.simplify(a.re * a.re + a.im * a.im)))
    if isinstance(a, SInt):
        return mk_int(z3.If(a.e >= 0, a.e, -a.e))
    return mk_real(z3.If(a.e >= 0, a.e, -a.e))


def s_floor(a):
    if isinstance(a, SInt):
        return a
    return mk_int(to_int(a.e))


def s_ceil(a):
    if isinstance(a, SInt):
        return a
    return mk_int(-to_int(-a.e))


def s_trunc(a):
    if isinstance(a, SInt):
        return a
    return mk_int(z3.If(a.e >= 0, to_int(a.e), -to_int(-a.e)))


def s_round(a, n=None):
    if isinstance(a, SInt):
        return a
    if n is not None:
        raise Unsupported("round with digits")
    fl = to_int(a.e)
    fr = a.e - z3.ToReal(fl)
    half = z3.RealVal(Fraction(1, 2))
    if ctx().decide(fr < half):
        return mk_int(fl)
    if ctx().decide(fr > half):
        return mk_int(fl + 1)
    if ctx().decide(fl % 2 == 0):
        return mk_int(fl)
    return mk_int(fl + 1)


def s_eq(a, b):
    ka, kb = kind(a), kind(b)
    if ka is None or kb is None:
        return False
    k = max(ka, kb)
    if k == 0:
        return mk_bool(z3_int(a) == z3_int(b))
    if k == 1:
        for v in (a, b):
            if not is_sym(v) and isinstance(v, numbers.Real) and not isinstance(v, Fraction) and not math.isfinite(v):
                return False
        return mk_bool(to_z3_real(a) == to_z3_real(b))
    a, b = as_complex(a), as_complex(b)
    return mk_bool(z3.And(a.re == b.re, a.im == b.im))


def _cmp(name):
    import operator
    opf = getattr(operator, name)

    def f(self, other):
        k = kind(other)
        if k is None or k == 2 or kind(self) == 2:
            return NotImplemented
        if kind(self) == 0 and k == 0:
            return mk_bool(opf(z3_int(self), z3_int(other)))
        if not is_sym(other) and isinstance(other, float) and math.isinf(other):
            return opf(0.0, other)
        return mk_bool(opf(to_z3_real(self), to_z3_real(other)))
    return f


class SNum:
    __slots__ = ()
    __array_priority__ = 1000

    __add__, __radd__ = _binary(s_add)
    __sub__, __rsub__ = _binary(s_sub)
    __mul__, __rmul__ = _binary(s_mul)
    __truediv__, __rtruediv__ = _binary(s_div)
    __floordiv__, __rfloordiv__ = _binary(s_floordiv)
    __mod__, __rmod__ = _binary(s_mod)
    __pow__, __rpow__ = _binary(s_pow)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __eq__(self, o):
        if kind(o) is None:
            return NotImplemented
        return s_eq(self, o)

    def __ne__(self, o):
        if kind(o) is None:
            return NotImplemented
        r = s_eq(self, o)
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.e))

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")

    def __neg__(self):
        return s_sub(0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        import operator
        if method != "__call__" or kw.get("out") is not None:
            raise Unsupported(f"numpy {ufunc.__name__}.{method}")
        import numpy as np
        if any(isinstance(i, np.ndarray) and i.ndim > 0 for i in inputs):
            arrs = []
            for i in inputs:
                if isinstance(i, np.ndarray):
                    arrs.append(i.astype(object))
                else:
                    o = np.empty((), dtype=object)
                    o[()] = i
                    arrs.append(o)
            bc = np.broadcast(*arrs)
            out = np.empty(bc.shape, dtype=object)
            out.flat = [UFUNCS[ufunc.__name__](*t) for t in bc]
            return out
        inputs = [i.item() if isinstance(i, (np.generic, np.ndarray)) else i for i in inputs]
        f = UFUNCS.get(ufunc.__name__)
        if f is None:
            raise Unsupported(f"numpy ufunc {ufunc.__name__}")
        return f(*inputs)


def _uf():
    import operator as o
    return {
        "add": o.add, "subtract": o.sub, "multiply": o.mul, "divide": o.truediv, "true_divide": o.truediv,
        "floor_divide": o.floordiv, "remainder": o.mod, "power": o.pow, "negative": o.neg, "absolute": abs,
        "sqrt": lambda x: np_sqrt(x), "conjugate": lambda x: x.conjugate(), "floor": lambda x: SReal.of(s_floor(x)),
        "ceil": lambda x: SReal.of(s_ceil(x)), "trunc": lambda x: SReal.of(s_trunc(x)),
        "less": o.lt, "less_equal": o.le, "greater": o.gt, "greater_equal": o.ge, "equal": o.eq, "not_equal": o.ne,
        "minimum": lambda a, b: s_minmax("min", [a, b]), "maximum": lambda a, b: s_minmax("max", [a, b]),
        "sign": lambda x: s_ite(x > 0, 1, s_ite(x < 0, -1, 0)), "square": lambda x: x * x,
        "fabs": abs, "logical_not": lambda x: mk_bool(z3.Not(z3_bool(x))), "reciprocal": lambda x: 1 / x,
    }


def np_sqrt(x):
    # numpy returns nan (with a warning) for negative reals
    return s_sqrt(x)


UFUNCS = _uf()


class SInt(SNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __index__(self):
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(self.e)

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __hash__(self):
        if ctx().symbolic_hash:
            return 7        # equal hashes: dictionaries and sets fall back to ==, which forks
        return hash(ctx().concretize(self.e))

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return ctx().concretize(self.e).bit_length()

    def __lshift__(self, o):
        p = 2 ** o
        if isinstance(p, SReal):
            raise Unsupported("shift by symbolic amount")
        return self * p

    def __rshift__(self, o):
        return self // (2 ** o)

    def __rlshift__(self, o):
        return o * 2 ** ctx().concretize(self.e)

    def __rrshift__(self, o):
        return o // 2 ** ctx().concretize(self.e)

    def __and__(self, o):
        if not is_sym(o) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __or__(self, o):
        if not is_sym(o) and o >= 0 and (o & (o + 1)) == 0:
            return self - self % (o + 1) + o
        raise Unsupported("bitwise or")

    __ror__ = __or__

    def __xor__(self, o):
        raise Unsupported("bitwise xor")

    real = property(lambda s: s)
    imag = property(lambda s: 0)
    numerator = property(lambda s: s)
    denominator = property(lambda s: 1)

    def conjugate(self):
        return self


class SReal(SNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        return SReal(z3.simplify(to_z3_real(x)))

    def __repr__(self):
        return f"<{self.e}>"

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __float__(self):
        if z3.is_rational_value(self.e):
            return float(Fraction(self.e.numerator_as_long(), self.e.denominator_as_long()))
        raise Unsupported("float() of a symbolic real by native code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic real by native code")

    def __hash__(self):
        if z3.is_rational_value(self.e):
            return hash(Fraction(self.e.numerator_as_long(), self.e.denominator_as_long()))
        raise Unsupported("hash of a symbolic real")

    def __int__(self):
        return ctx().concretize(s_trunc(self).e)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __trunc__(self):
        return s_trunc(self)

    def __round__(self, n=None):
        return s_round(self, n)

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def sqrt(self):
        return s_sqrt(self)

    real = property(lambda s: s)
    imag = property(lambda s: 0.0)

    def conjugate(self):
        return self


class SComplex(SNum):
    __slots__ = ("im", "re")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return f"<{self.re} + j{self.im}>"

    def __bool__(self):
        return ctx().decide(z3.Or(self.re != 0, self.im != 0))

    def __hash__(self):
        raise Unsupported("hash of a symbolic complex")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value by native code")

    def sqrt(self):
        return s_csqrt(self)

    real = property(lambda s: SReal(s.re))
    imag = property(lambda s: SReal(s.im))

    def conjugate(self):
        return SComplex(self.re, z3.simplify(-self.im))


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"

    def __bool__(self):
        return ctx().decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(self.e == z3_bool(o))
        if kind(o) is not None:
            return s_eq(mk_int(z3_int(self)), o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_bool(z3.Not(z3_bool(r)))

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.And(self.e, z3_bool(o)))
        return NotImplemented

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.Or(self.e, z3_bool(o)))
        return NotImplemented

    def __xor__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.Xor(self.e, z3_bool(o)))
        return NotImplemented

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        raise Unsupported("~bool")

    def _n(self):
        return mk_int(z3_int(self))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __neg__(self):
        return -self._n()


numbers.Integral.register(SInt)
numbers.Real.register(SReal)
numbers.Complex.register(SComplex)
numbers.Integral.register(SBool)


def s_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    ka, kb = kind(a), kind(b)
    k = max(ka, kb)
    c = z3_bool(c)
    if k == 0:
        return mk_int(z3.If(c, z3_int(a), z3_int(b)))
    if k == 1:
        return mk_real(z3.If(c, to_z3_real(a), to_z3_real(b)))
    a, b = as_complex(a), as_complex(b)
    return SComplex(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))


def s_minmax(which, vals):
    vals = list(vals)
    r = vals[0]
    for v in vals[1:]:
        c = (v < r) if which == "min" else (v > r)
        r = s_ite(c, v, r) if not isinstance(c, bool) else (v if c else r)
    return r
