"""One harness, three executions: symbolic (proof), concrete search, replay."""
from __future__ import annotations

import cmath
import zlib
import math
import numbers
import os
import random
import re
import time
import traceback
from fractions import Fraction

HARNESSES = []


class Harness:
    def __init__(self, fn, prop, name, targets, kind, cases, bound, n_search, n_search_t, known, max_paths, doc, more_cases=()):
        self.more_cases = list(more_cases)
        self.fn, self.prop, self.name, self.targets = fn, prop, name, targets
        self.kind, self.cases, self.bound = kind, cases, bound
        self.n_search, self.n_search_t = n_search, n_search_t
        self.known = known
        self.max_paths = max_paths
        self.doc = doc


def contract(prop, name, targets=(), kind="proof", cases=(None,), bound=None, n=200, n_thorough=None, known=(), max_paths=20000, more_cases=()):
    """more_cases: cases added on the thorough tier.
    kind: 'proof' (all inputs, all paths), 'shape' (graph shape fixed per case, every
    number symbolic), 'bounded' (run-time contract over generated inputs)."""
    def deco(fn):
        HARNESSES.append(Harness(fn, prop, name, list(targets), kind, cases, bound, n, n_thorough or 20 * n, known,
                                 max_paths, (fn.__doc__ or "").strip(), more_cases))
        return fn
    return deco


class Skip(BaseException):
    pass


class Known(Skip):
    """The path lies in the region of a recorded finding."""


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


class Gone(BaseException):
    """A private helper a contract is stated on no longer exists under that name or with those parameters."""


def gone(e):
    """The private name a contract (not the code) looked for in vain, or None."""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not tb.tb_frame.f_code.co_filename.startswith(ROOT):
        return None
    if isinstance(e, AttributeError) and re.match(r"_(?!_)", e.name or ""):
        return e.name
    if isinstance(e, TypeError):
        m = re.search(r"\b(_(?!_)\w+)\(\) (missing|takes|got an unexpected|got multiple)", str(e))
        return m and m[1]
    return None


class Failed(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


def brief(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if "b_asic" in f.filename:
            where = f" at {f.filename.split('lib/')[-1]}:{f.lineno} in {f.name}"
            break
    return f"{type(e).__name__}: {str(e)[:200]}{where}"


class Base:
    symbolic = False
    def int(self, name, lo=None, hi=None): raise NotImplementedError
    def split_quotients(self, *ks):
        """Divisions by a symbolic divisor are split into these quotients (and the rest, left to the solver)."""
        if self.symbolic:
            from . import sym
            sym.ctx().small_quotients = ks

    def symbolic_keys(self):
        """Symbolic integers may be keys of dictionaries and sets (compared by ==, forking)."""
        if self.symbolic:
            from . import sym
            sym.ctx().symbolic_hash = True

    def no_error(self, label, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:      # noqa: BLE001
            self.fail(label + " raised", brief(e))

    def raises(self, fn, *a, exc=Exception, **k):
        """(value, None) or (None, exception)."""
        try:
            return fn(*a, **k), None
        except exc as e:
            return None, e


# ------------------------------------------------------------------- concrete
def close(a, b, tol=1e-7):
    a, b = complex(a), complex(b)
    if cmath.isnan(a) or cmath.isnan(b):
        return cmath.isnan(a) and cmath.isnan(b)
    if cmath.isinf(a) or cmath.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Concrete(Base):
    def __init__(self, rng=None, values=None):
        self.rng = rng
        self.replay = values
        self.values = {}
        self.proved = 0
        self.labels = set()
        self.covered = set()

    def _draw(self, name, gen):
        n, i = name, 1
        while n in self.values:
            i += 1
            n = f"{name}#{i}"
        if self.replay is not None:
            if n in self.replay:
                v = self.replay[n]
            else:
                v = gen(random.Random(0))
        else:
            v = gen(self.rng)
        self.values[n] = v
        return v

    def int(self, name, lo=None, hi=None):
        l = -1000 if lo is None else lo
        h = (l + 1000 if lo is not None else 1000) if hi is None else hi
        if h < l:
            raise Skip

        def gen(r):
            if h - l > 24 and r.random() < 0.75:
                c = r.choice([l, 0, 0]) if l <= 0 <= h else l
                return min(h, max(l, c + r.randint(-12 if c else -12, 12)))
            return r.randint(l, h)
        v = self._draw(name, gen)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip
        return v

    def real(self, name, lo=None, hi=None):
        def gen(r):
            k = r.random()
            if lo is not None or hi is not None:
                l = lo if lo is not None else hi - 16
                h = hi if hi is not None else lo + 16
                if k < 0.1:
                    return float(l)
                if k < 0.2:
                    return float(h)
                return l + (h - l) * r.randint(0, 1024) / 1024
            if k < 0.25:
                return float(r.choice([0, 1, -1, 0.5, -0.5, 2, -2]))
            if k < 0.6:
                return float(r.randint(-16, 16))
            return r.randint(-4096, 4096) / 256
        v = self._draw(name, gen)
        if isinstance(v, str):
            v = float(Fraction(v))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip
        return v

    def complex(self, name):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def bool(self, name):
        return bool(self._draw(name, lambda r: r.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        if not options:
            raise Skip
        i = self._draw(name, lambda r: r.randrange(len(options)))
        if not 0 <= i < len(options):
            raise Skip
        return options[i]

    def seed(self, name):
        """A seed for purely concrete generation."""
        return self._draw(name, lambda r: r.randrange(1 << 30))

    def case_seed(self, name, key):
        """A seed fixed by the key in symbolic runs (one shape per case) and drawn in concrete ones."""
        return self.seed(name)

    def assume(self, c):
        if not c:
            raise Skip

    def fail(self, label, detail=""):
        raise Failed(label, detail)

    def prove(self, label, c, detail=""):
        self.labels.add(label)
        self.proved += 1
        if callable(c):
            c = c()
        if not c:
            raise Failed(label, detail() if callable(detail) else str(detail))

    def cover(self, label):
        self.covered.add(label)

    def eq(self, a, b, tol=1e-7):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
            return close(a, b, tol)
        return a == b

    def le(self, a, b):
        return a <= b + 1e-9 * max(1, abs(a), abs(b))

    def implies(self, a, b):
        return (not a) or bool(b)

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def min(self, *v):
        v = list(v[0]) if len(v) == 1 else list(v)
        return min(v)

    def max(self, *v):
        v = list(v[0]) if len(v) == 1 else list(v)
        return max(v)

    def floor(self, x):
        return math.floor(x)

    def pow2(self, k):
        return 2.0 ** k if k < 0 else 2 ** k

    def sqrt(self, x):
        return cmath.sqrt(x) if isinstance(x, complex) else math.sqrt(x)


# ------------------------------------------------------------------- symbolic
class Symbolic(Base):
    symbolic = True

    def __init__(self, c, log):
        self.c = c
        self.log = log         # list of obligation records
        self.reals = {}
        self.choices = {}
        self.names = set()

    def _uniq(self, name):
        n, i = name, 1
        while n in self.names:
            i += 1
            n = f"{name}#{i}"
        self.names.add(n)
        return n

    def int(self, name, lo=None, hi=None):
        import z3
        from . import sym
        name = self._uniq(name)
        v = z3.Int(name)
        self.c.vars[name] = v
        if lo is not None:
            self.c.add(v >= sym.z3_int(lo))
        if hi is not None:
            self.c.add(v <= sym.z3_int(hi))
        return sym.SInt(v)

    def real(self, name, lo=None, hi=None):
        import z3
        from . import sym
        name = self._uniq(name)
        v = z3.Real(name)
        self.c.vars[name] = v
        if lo is not None:
            self.c.add(v >= sym.to_z3_real(lo))
        if hi is not None:
            self.c.add(v <= sym.to_z3_real(hi))
        return sym.SReal(v)

    def complex(self, name):
        from . import sym
        return sym.SComplex(self.real(name + ".re").e, self.real(name + ".im").e)

    def bool(self, name):
        n = self._uniq(name)
        v = self.c.choose(2) == 1
        self.choices[n] = v
        return v

    def choice(self, name, options):
        options = list(options)
        n = self._uniq(name)
        i = self.c.choose(len(options))
        self.choices[n] = i
        return options[i]

    def seed(self, name):
        raise RuntimeError("seed() is for bounded harnesses only")

    def case_seed(self, name, key):
        self.choices[name] = v = zlib.crc32(str(key).encode())
        return v

    def assume(self, cond):
        from . import sym
        if not sym.is_sym(cond):
            if not cond:
                raise sym.Stop
            return
        if not self.c.decide_assume(sym.z3_bool(cond)):
            raise sym.Stop

    def _b(self, c):
        from . import sym
        return sym.z3_bool(c)

    def fail(self, label, detail=""):
        """An obligation that is false on this path."""
        self.prove(label, False, detail)
        from . import sym
        raise sym.Stop

    def prove(self, label, cond, detail=""):
        import z3
        from . import sym
        if callable(cond):
            cond = cond()
        g = z3.simplify(sym.z3_bool(cond))
        rec = {"label": label, "path": len(self.log), "detail": detail if isinstance(detail, str) else ""}
        self.log.append(rec)
        if z3.is_true(g):
            rec.update(status="proved", by="normaliser")
            return
        t0 = time.time()
        rem = []
        for cj in (list(g.children()) if z3.is_and(g) else [g]):
            if not self._eq_norm(cj):
                rem.append(cj)
        if rem and self.c.pow2_seen:
            sub = self._fixed_pow2()
            if sub:
                rem = [z3.simplify(z3.substitute(cj, *sub)) for cj in rem]
                rem = [cj for cj in rem if not z3.is_true(cj) and not self._eq_norm(cj)]
        if not rem:
            rec.update(status="proved", by="rational-normal-form", t=time.time() - t0)
            self.c.add(g)
            return
        g2 = z3.And(rem) if len(rem) > 1 else rem[0]
        s = z3.Solver()
        s.set("rlimit", sym.RLIMIT_PROVE)
        s.set("random_seed", 0)
        for p in self.c.pc:
            s.add(p)
        s.add(z3.Not(g2))
        r = s.check()
        rec["t"] = time.time() - t0
        if r == z3.unsat:
            rec.update(status="proved", by="z3")
            self.c.add(g)
        elif r == z3.sat:
            rec.update(status="refuted", by="z3", values=self.model(s.model()))
            raise sym.Stop
        else:
            reason = s.reason_unknown()
            done = self._portfolio(g2)
            rec["t"] = time.time() - t0
            if done:
                rec.update(status="proved", by=done)
            else:
                rec.update(status="unknown", by="z3", reason=reason)
            self.c.add(g)

    def _portfolio(self, goal):
        """Other back ends for a goal z3's default strategy left open; only their unsat answers are used."""
        import subprocess
        import tempfile
        import z3
        from . import sym
        for key, val in (("arith.solver", 2), ("random_seed", 7)):
            s = z3.Solver()
            s.set("rlimit", sym.RLIMIT_PROVE)
            s.set(key, val)
            for p in self.c.pc:
                s.add(p)
            s.add(z3.Not(goal))
            try:
                if s.check() == z3.unsat:
                    return f"z3 ({key}={val})"
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        for p in self.c.pc:
            s.add(p)
        s.add(z3.Not(goal))
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", dir="/tmp") as f:
            f.write("(set-logic ALL)\n" + s.to_smt2())
            f.flush()
            try:
                r = subprocess.run(["cvc5", "--tlimit=20000", f.name], capture_output=True, text=True, timeout=40)
                if r.stdout.strip().splitlines()[:1] == ["unsat"]:
                    return "cvc5"
            except (OSError, subprocess.SubprocessError):
                pass
        return None

    def _fixed_pow2(self):
        """Powers of two whose exponent the path condition fixes."""
        import z3
        from . import sym
        out = []
        s = z3.Solver()
        s.set("rlimit", 2_000_000)
        for p in self.c.pc:
            if "pow2" not in str(p.decl()) and not any("pow2" in q for q in [p.sexpr()]):
                s.add(p)
        if s.check() != z3.sat:
            return out
        m = s.model()
        for base in self.c.pow2_seen.values():
            v = m.eval(base, model_completion=True)
            if z3.is_int_value(v) and abs(v.as_long()) <= 200 and s.check(base != v) == z3.unsat:
                out.append((sym._POW2(base), z3.RealVal(Fraction(2) ** v.as_long())))
                out.append((base, v))
        return out

    def model(self, m):
        import z3
        vals = dict(self.choices)
        for n, v in self.c.vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                vals[n] = x.as_long()
            elif z3.is_rational_value(x):
                vals[n] = str(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                a = x.approx(20)
                vals[n] = str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            else:
                vals[n] = str(x)
        return vals

    def _eq_norm(self, g):
        import z3
        from . import poly
        if not z3.is_eq(g):
            return False
        a, b = g.children()
        if not z3.is_arith(a):
            return False
        n = poly.Norm(squares={k: t for k, (s, t) in self.c.sqrt_of.items()})
        return n.equal(a, b)

    def cover(self, label):
        self.log.append({"label": "cover:" + label, "status": "cover"})

    def eq(self, a, b, tol=None):
        from . import sym
        if sym.is_sym(a) or sym.is_sym(b):
            if sym.kind(a) is None or sym.kind(b) is None:
                return False
            if tol is not None:
                a, b = sym.as_complex(a), sym.as_complex(b)
                import z3
                t = z3.RealVal(Fraction(tol))
                return sym.mk_bool(z3.And(a.re - b.re <= t, b.re - a.re <= t, a.im - b.im <= t, b.im - a.im <= t))
            return sym.s_eq(a, b)
        if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
            if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)):
                return a == b
            return close(a, b, tol or 1e-9)
        return a == b

    def le(self, a, b):
        return a <= b

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def and_(self, *cs):
        import z3
        from . import sym
        return sym.mk_bool(z3.And([self._b(c) for c in cs])) if cs else True

    def or_(self, *cs):
        import z3
        from . import sym
        return sym.mk_bool(z3.Or([self._b(c) for c in cs])) if cs else False

    def not_(self, c):
        import z3
        from . import sym
        return sym.mk_bool(z3.Not(self._b(c)))

    def ite(self, c, a, b):
        from . import sym
        return sym.s_ite(c if isinstance(c, bool) else sym.mk_bool(sym.z3_bool(c)), a, b)

    def min(self, *v):
        from . import sym
        return sym.s_minmax("min", v[0] if len(v) == 1 else v)

    def max(self, *v):
        from . import sym
        return sym.s_minmax("max", v[0] if len(v) == 1 else v)

    def floor(self, x):
        from . import sym
        return sym.s_floor(x) if sym.is_sym(x) else math.floor(x)

    def pow2(self, k):
        from . import sym
        return sym.pow2(k) if isinstance(k, sym.SInt) else (2.0 ** k if k < 0 else 2 ** k)

    def sqrt(self, x):
        from . import sym
        return sym.s_sqrt(x)


def explore(h, case, max_paths=None, max_seconds=600.0, stop_on_refuted=True):
    """Explore every path of harness h; returns a summary dict."""
    from . import hook, sym
    hook.install()
    max_paths = max_paths or h.max_paths
    stack = [[]]
    paths = completed = 0
    recs = []
    undecided = []
    refuted = []
    bq = 0
    t0 = time.time()
    covered = 0
    missing = None
    while stack and not missing:
        if paths >= max_paths:
            undecided.append(f"path limit {max_paths}")
            break
        if time.time() - t0 > max_seconds:
            undecided.append(f"time limit {max_seconds}s after {paths} paths")
            break
        prefix = stack.pop()
        c = sym.Ctx(prefix)
        sym.CTX = c
        log = []
        vc = Symbolic(c, log)
        paths += 1
        try:
            try:
                h.fn(vc) if case is None else h.fn(vc, case)
                completed += 1
            except sym.Stop:
                pass
            except Known:
                completed += 1
            except Skip:
                pass
            except sym.Unsupported as e:
                undecided.append(f"unsupported: {e} [{brief(e)}]")
            except RecursionError as e:
                undecided.append("recursion")
            except Gone as e:
                missing = str(e)
            except Exception as e:  # noqa: BLE001 - an escape of the real code is an obligation failure
                missing = missing or gone(e)
                if missing:
                    continue
                try:
                    vc.prove("no unexpected exception", False, brief(e))
                except sym.Stop:
                    pass
        finally:
            sym.CTX = None
        bq += c.branch_queries
        stack.extend(c.alts)
        for r in log:
            if r["status"] == "cover":
                covered += 1
                continue
            recs.append(r)
            if r["status"] == "refuted":
                refuted.append(r)
            elif r["status"] == "unknown":
                undecided.append(f"solver unknown: {r['label']} ({r.get('reason')})")
        if refuted and stop_on_refuted and len(refuted) >= 3:
            break
        if len(undecided) > 5:
            break
    by = {}
    labels = {}
    tq = 0.0
    for r in recs:
        if r["status"] == "proved":
            by[r["by"]] = by.get(r["by"], 0) + 1
        tq += r.get("t", 0)
        labels[r["label"]] = labels.get(r["label"], 0) + 1
    if missing and not refuted:
        return {"gone": missing}
    if completed == 0 and not refuted and not undecided:
        undecided.append("vacuous: no path satisfies the precondition")
    if not recs and not undecided:
        undecided.append("vacuous: no obligation generated")
    return {"paths": paths, "completed": completed, "obligations": len(recs),
            "discharged": sum(1 for r in recs if r["status"] == "proved"), "by": by, "labels": labels,
            "refuted": [{k: v for k, v in r.items()} for r in refuted], "undecided": undecided,
            "branch_queries": bq, "solver_s": tq, "wall": time.time() - t0}


def run_concrete(h, case, values=None, rng=None):
    """Returns (status, info, vc): status 'ok' | 'skip' | 'fail'."""
    vc = Concrete(rng=rng, values=values)
    try:
        h.fn(vc) if case is None else h.fn(vc, case)
        return "ok", None, vc
    except Skip:
        return "skip", None, vc
    except Failed as f:
        return "fail", (f.label, f.detail), vc
    except Gone as e:
        return "gone", str(e), vc
    except Exception as e:  # noqa: BLE001
        if gone(e):
            return "gone", gone(e), vc
        return "fail", ("no unexpected exception", brief(e)), vc
