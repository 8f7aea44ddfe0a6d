"""C18: signal generators yield their defined values."""
import os
import random
import tempfile
from fractions import Fraction

import numpy as np

import b_asic.signal_generator as sg
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("every generator class and operator overload is executed with symbolic parameters, symbolic sample values and a symbolic time index; "
               "operands are arbitrary generators, represented by their contract only (one unknown value per requested time)")
P = "C18"
M = "b_asic.signal_generator:"


class Any(sg.SignalGenerator):
    """An arbitrary generator: every call is recorded and answered by an unknown value."""

    def __init__(self, vc, name):
        self.vc, self.name, self.calls = vc, name, []

    def __call__(self, time):
        v = self.vc.real(f"{self.name}#{len(self.calls)}")
        self.calls.append((time, v))
        return v


def T(vc):
    return vc.int("time", *((None, None) if vc.symbolic else (-20, 40)))


@contract(P, "impulse, step and constant", targets=[M + c + m for c in ("Impulse", "Step", "Constant") for m in (".__init__", ".__call__")])
def h_basic(vc):
    t, d = T(vc), vc.int("delay", *((None, None) if vc.symbolic else (-10, 10)))
    imp, step = sg.Impulse(d), sg.Step(d)
    vc.prove("impulse is one exactly at its delay", lambda: vc.eq(imp(t), vc.ite(vc.eq(t, d), 1, 0)))
    vc.prove("step is one from its delay on", lambda: vc.eq(step(t), vc.ite(t >= d, 1, 0)))
    vc.prove("default impulse", lambda: vc.eq(sg.Impulse()(t), vc.ite(vc.eq(t, 0), 1, 0)))
    vc.prove("default step", lambda: vc.eq(sg.Step()(t), vc.ite(t >= 0, 1, 0)))
    c = vc.complex("value")
    vc.prove("constant", lambda: vc.eq(sg.Constant(c)(t), c))
    vc.prove("default constant", lambda: vc.eq(sg.Constant()(t), 1))
    vc.prove("impulse again, after other calls", lambda: vc.eq(imp(t), vc.ite(vc.eq(t, d), 1, 0)))


@contract(P, "zero padded sequences", cases=list(range(0, 7)), kind="shape", bound="sequence lengths 0-6; values and time arbitrary", targets=[M + "ZeroPad.__init__", M + "ZeroPad.__call__"])
def h_zeropad(vc, n):
    data = [vc.real(f"x{k}") for k in range(n)]
    t = T(vc)
    for g in (sg.ZeroPad(data), sg.ZeroPad(tuple(data))):
        got = vc.no_error("value", g, t)
        if vc.and_(t >= 0, t < n):
            want = 0
            for k in range(n):
                want = vc.ite(vc.eq(t, k), data[k], want)
        else:
            want = 0
        vc.prove("element at the index, zero outside", lambda: vc.eq(got, want))


@contract(P, "sum, difference, product and quotient of sources",
          targets=[M + "SignalGenerator." + m for m in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__")]
          + [M + c + m for c in ("_AddGenerator", "_SubGenerator", "_MulGenerator", "_DivGenerator") for m in (".__init__", ".__call__")])
def h_arith(vc):
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    op = ops[vc.choice("operator", list(ops))]
    kind = vc.choice("operands", ["generators", "number left", "number right", "same generator"])
    a, b, k, t = Any(vc, "a"), Any(vc, "b"), vc.complex("number"), T(vc)
    if kind == "generators":
        g = op(a, b)
    elif kind == "same generator":
        g = op(a, a)
    elif kind == "number left":
        g = op(k, a)
    else:
        vc.assume(vc.not_(vc.eq(k, 0)))
        g = op(a, k)
    vc.prove("a generator", isinstance(g, sg.SignalGenerator))
    vc.prove("nothing sampled on construction", not a.calls and not b.calls)
    used = [a, b] if kind == "generators" else [a]
    try:
        got = g(t)
    except ZeroDivisionError:
        vc.prove("division by zero only", lambda: vc.eq((b if kind == "generators" else a).calls[-1][1], 0))
        return
    for x in used:
        vc.prove("each operand sampled at the time index", lambda: vc.and_(len(x.calls) >= 1, *[vc.eq(u, t) for u, _ in x.calls]))
    if kind == "generators":
        want = op(a.calls[0][1], b.calls[0][1])
    elif kind == "same generator":
        want = op(a.calls[0][1], a.calls[-1][1])
    elif kind == "number left":
        want = op(k, a.calls[0][1])
    else:
        want = op(a.calls[0][1], k)
    vc.prove("value", lambda: vc.eq(got, want))


@contract(P, "unsupported operands are refused", targets=[M + "SignalGenerator." + m for m in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__")])
def h_refuse(vc):
    s = vc.choice("operand", ["x", [1, 2], None])
    g = sg.Step()
    for f in (lambda: g + s, lambda: s + g, lambda: g - s, lambda: s - g, lambda: g * s, lambda: s * g, lambda: g / s, lambda: s / g):
        vc.prove("refused", vc.raises(f, exc=TypeError)[1] is not None)


@contract(P, "delayed, upsampled and downsampled sources", cases=[1, 2, 3, 4, 7], kind="shape", bound="factors 1, 2, 3, 4, 7 (delays, phases and times arbitrary)",
          targets=[M + c + m for c in ("Delay", "Upsample", "Downsample") for m in (".__init__", ".__call__")])
def h_resample(vc, f):
    t, d = T(vc), vc.int("delay", *((None, None) if vc.symbolic else (-10, 10)))
    a = Any(vc, "a")
    got = sg.Delay(a, d)(t)
    vc.prove("delay: the source's value that many samples before", lambda: vc.and_(len(a.calls) == 1, vc.eq(a.calls[0][0], t - d), vc.eq(got, a.calls[0][1])))
    a = Any(vc, "b")
    got = sg.Delay(a)(t)
    vc.prove("default delay is one", lambda: vc.and_(vc.eq(a.calls[0][0], t - 1), vc.eq(got, a.calls[0][1])))
    a = Any(vc, "c")
    got = sg.Downsample(a, f, d)(t)
    vc.prove("downsampling: every factor-th value from the phase", lambda: vc.and_(len(a.calls) == 1, vc.eq(a.calls[0][0], f * t + d), vc.eq(got, a.calls[0][1])))
    a = Any(vc, "d")
    got = vc.no_error("upsampled value", sg.Upsample(a, f, d), t)
    if vc.eq((t - d) % f, 0):
        vc.prove("upsampling: the source's values at the phase", lambda: vc.and_(len(a.calls) == 1, vc.eq(a.calls[0][0] * f + d, t), vc.eq(got, a.calls[0][1])))
    else:
        vc.prove("upsampling: zero in between", lambda: vc.eq(got, 0))


@contract(P, "resampled sequences", kind="bounded", bound="random sequences up to length 8, factors 1-6, phases, times -30..60", n=300,
          targets=[M + c + m for c in ("Upsample", "Downsample", "ZeroPad") for m in (".__init__", ".__call__")])
def h_resample_data(vc):
    r = random.Random(vc.seed("s"))
    data = [r.randint(-9, 9) for _ in range(r.randint(0, 8))]
    make = r.choice([list, tuple, np.array])
    f, p = r.randint(1, 6), r.randint(0, 6)
    at = lambda k: data[k] if 0 <= k < len(data) else 0
    up, down = sg.Upsample(make(data), f, p), sg.Downsample(make(data), f, p)
    u0, d0 = sg.Upsample(make(data), f), sg.Downsample(make(data), f)
    times = list(range(-30, 60))
    r.shuffle(times)
    for t in times:
        vc.prove("upsampled", up(t) == (at((t - p) // f) if (t - p) % f == 0 else 0), f"{data} {f} {p} {t}")
        vc.prove("downsampled", down(t) == at(t * f + p), f"{data} {f} {p} {t}")
        vc.prove("default phase", u0(t) == (at(t // f) if t % f == 0 else 0) and d0(t) == at(t * f))


@contract(P, "sinusoids", kind="bounded", bound="random frequencies, phases and times (floating point, tolerance 1e-9)", n=300, targets=[M + "Sinusoid.__init__", M + "Sinusoid.__call__"])
def h_sin(vc):
    r = random.Random(vc.seed("s"))
    f, p, t = r.choice([0, 0.5, 1, 0.25, r.random(), r.uniform(-3, 3)]), r.choice([0, 0.5, -0.25, r.uniform(-2, 2)]), r.randint(-50, 200)
    want = np.sin(np.pi * f * t + np.pi * p)
    vc.prove("sine of pi times frequency times time plus phase", abs(sg.Sinusoid(f, p)(t) - want) < 1e-9, f"{f} {p} {t}")
    vc.prove("default phase", abs(sg.Sinusoid(f)(t) - np.sin(np.pi * f * t)) < 1e-9)


@contract(P, "noise", kind="bounded", bound="random seeds and parameters, 30 samples each", n=60, targets=[M + c + m for c in ("Gaussian", "Uniform") for m in (".__init__", ".__call__")])
def h_noise(vc):
    r = random.Random(vc.seed("s"))
    seed, a, b = r.randint(0, 10 ** 6), r.choice([0.0, -2.5, 3.0]), r.choice([1.0, 0.0, 2.5, 10.0])
    ref = np.random.default_rng(seed)
    g = sg.Gaussian(seed, a, b)
    vc.prove("seeded normal samples", [g(t) for t in range(30)] == [ref.normal(a, b) for _ in range(30)])
    ref = np.random.default_rng(seed)
    lo, hi = a, a + b
    u = sg.Uniform(seed, lo, hi)
    xs = [u(t) for t in range(30)]
    vc.prove("seeded uniform samples", xs == [ref.uniform(lo, hi) for _ in range(30)])
    vc.prove("uniform samples lie in the range", all(lo <= x <= hi for x in xs))
    ref = np.random.default_rng(seed)
    vc.prove("default normal parameters", [sg.Gaussian(seed)(0)] == [ref.normal(0, 1)])
    ref = np.random.default_rng(seed)
    vc.prove("default uniform parameters", [sg.Uniform(seed)(0)] == [ref.uniform(-1, 1)])
    vc.prove("keyword parameters", sg.Gaussian(loc=a, scale=0.0)(3) == a and lo <= sg.Uniform(low=lo, high=hi)(1) <= hi)


@contract(P, "samples read from files", kind="bounded", bound="random files of 1-6 real or complex samples", n=60, targets=[M + "FromFile.__init__", M + "FromFile.__call__"])
def h_file(vc):
    r = random.Random(vc.seed("s"))
    n = r.choice([1, 1, 2, 3, 6])
    cplx = r.random() < 0.3
    data = [complex(r.randint(-9, 9), r.randint(-9, 9)) if cplx else r.randint(-9, 9) / 4 for _ in range(n)]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.txt")
        np.savetxt(p, np.array(data)) if not cplx else open(p, "w").write("\n".join(str(x).strip("()") for x in data) + "\n")
        g = vc.no_error("reading the file", sg.FromFile, p)
    for t in r.sample(range(-5, 12), 17):
        vc.prove("sample of the file, zero outside", vc.no_error("value", g, t) == (data[t] if 0 <= t < n else 0), f"{data} {t}")


LEAVES = {
    "Impulse": lambda r: (lambda d: (sg.Impulse(d), lambda t: Fraction(t == d)))(r.randint(-3, 5)),
    "Step": lambda r: (lambda d: (sg.Step(d), lambda t: Fraction(t >= d)))(r.randint(-3, 5)),
    "Constant": lambda r: (lambda c: (sg.Constant(c), lambda t: c))(Fraction(r.randint(-9, 9), 4)),
    "ZeroPad": lambda r: (lambda x: (sg.ZeroPad(x), lambda t: x[t] if 0 <= t < len(x) else Fraction(0)))([Fraction(r.randint(-9, 9)) for _ in range(r.randint(0, 5))]),
}


def tree(r, depth):
    if depth == 0 or r.random() < 0.15:
        return LEAVES[r.choice(list(LEAVES))](r)
    k = r.randrange(8)
    if k == 5:
        g, f = tree(r, depth - 1)
        d = r.randint(-3, 4)
        return sg.Delay(g, d), lambda t: f(t - d)
    if k == 6:
        g, f = tree(r, depth - 1)
        n, p = r.randint(1, 3), r.randint(0, 2)
        return sg.Upsample(g, n, p), lambda t: f((t - p) // n) if (t - p) % n == 0 else Fraction(0)
    if k == 7:
        g, f = tree(r, depth - 1)
        n, p = r.randint(1, 3), r.randint(0, 2)
        return sg.Downsample(g, n, p), lambda t: f(n * t + p)
    num = r.randrange(3)
    g1, f1 = tree(r, depth - 1)
    g2, f2 = tree(r, depth - 1)
    c = Fraction(r.choice([-3, -1, 1, 2, 5]), r.choice([1, 2]))
    if num == 1:
        g1, f1 = c, lambda t: c
    if num == 2:
        g2, f2 = c, lambda t: c
    if k == 0 or k == 4 and num != 2:
        return g1 + g2, lambda t: f1(t) + f2(t)
    if k in (1, 2):
        return g1 - g2, lambda t: f1(t) - f2(t)
    if k == 4:
        return g1 / g2, lambda t: f1(t) / f2(t)
    return g1 * g2, lambda t: f1(t) * f2(t)


@contract(P, "expressions of sources", kind="bounded", bound="random expressions up to depth 4 over all exact sources, times -8..20 in any order", n=400, n_thorough=20000,
          targets=[M + c + ".__call__" for c in ("_AddGenerator", "_SubGenerator", "_MulGenerator", "_DivGenerator", "Delay", "Upsample", "Downsample", "Impulse", "Step", "Constant", "ZeroPad")])
def h_tree(vc):
    r = random.Random(vc.seed("s"))
    g, f = tree(r, 4)
    times = list(range(-8, 20))
    r.shuffle(times)
    for t in times + times[:5]:
        vc.prove("value of the expression", abs(vc.no_error("value", g, t) - f(t)) <= 1e-9 * (1 + abs(f(t))), f"{g!r} at {t}")
