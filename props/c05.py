"""C05: quantization, overflow and data-type bookkeeping."""
import itertools
import math
from fractions import Fraction

import apytypes as apy
import b_asic.core_operations as co
import b_asic.data_type as dt
import b_asic.quantization as q
from b_asic.quantization import OverflowMode, QuantizationMode
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("_quantize_real and quantize are executed on an arbitrary real value for every mode and every word format (symbolic bit counts); the "
               "result is proved to be the integer code the mode defines, wrapped or saturated into the word. DataType is executed with symbolic word lengths.")
TRUSTED = ["apytypes: apy.fx(v, int_bits, frac_bits) represents a representable v exactly (replaced by its contract in symbolic runs, exercised for real in concrete runs)"]
P = "C05"
Q = "b_asic.quantization:"
D = "b_asic.data_type:"
MODES = [m for m in QuantizationMode if m is not QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION]


def equal(vc, a, b):
    """Exact equality (no tolerance in concrete runs, where the values are Fractions)."""
    return vc.eq(a, b) if vc.symbolic else a == b


def bound(vc, lo, hi):
    return (None, None) if vc.symbolic else (lo, hi)


FORMATS = [(f, i) for f in (-1, 0, 1, 3, 7) for i in (-1, 0, 1, 2, 4) if f + i >= 2]


class _Fx:
    """Contract of apy.fx for representable values."""
    @staticmethod
    def fx(v, int_bits=None, frac_bits=None, **k):
        return v


def run_quantize(vc, v, f, i, mode, ov):
    if not vc.symbolic:
        r = q.quantize(v, f, i, mode, ov)
        bits = (r.int_bits, r.frac_bits)
        vc.prove("the result has the requested format", bits == (i, f), str(bits))
        return complex(r) if isinstance(v, complex) else float(r)
    saved = q.apy
    seen = []

    class Fx:
        @staticmethod
        def fx(x, int_bits=None, frac_bits=None, **k):
            seen.append((int_bits, frac_bits))
            return x
    q.apy = Fx
    try:
        r = q.quantize(v, f, i, mode, ov)
    finally:
        q.apy = saved
    vc.prove("the result has the requested format", lambda: vc.and_(len(seen) == 1, vc.eq(seen[0][0], i), vc.eq(seen[0][1], f)))
    return r


def check_real(vc, v, r, f, i, mode, ov):
    """r is v quantized: the integer code the mode defines, wrapped or saturated into the word."""
    if vc.symbolic:
        s, half = vc.pow2(f), vc.pow2(f + i - 1)
        x, y = v * s, r * s
    else:
        s, half = Fraction(2) ** f, 2 ** (f + i - 1)
        x, y = Fraction(v) * s, Fraction(r) * s
    span = 2 * half
    code = exact_code(vc, mode, x)
    if ov is OverflowMode.WRAPPING:
        fitted = code - span * vc.floor((code + half) / span if vc.symbolic else Fraction(code + half, span))
    else:
        fitted = half - 1 if code > half - 1 else -half if code < -half else code
    vc.prove("the result is the code the mode defines, fitted into the word as the overflow mode defines", lambda: equal(vc, y, fitted), f"{v!r} -> {r!r} expected {fitted} LSBs")


def exact_code(vc, mode, v):
    """The integer code the mode assigns to v, a value in units of the least significant bit."""
    f = vc.floor(v)
    if mode is QuantizationMode.TRUNCATION:
        return f
    if mode is QuantizationMode.ROUNDING:                   # nearest, ties upwards
        return vc.floor(v + Fraction(1, 2))
    if mode is QuantizationMode.MAGNITUDE_TRUNCATION:       # towards zero
        return f if v >= 0 else -vc.floor(-v)
    odd = f if equal(vc, f % 2, 1) else f + 1               # least significant bit set
    if mode is QuantizationMode.JAMMING:
        return odd
    if mode is QuantizationMode.UNBIASED_JAMMING:           # unless exact
        return f if equal(vc, f, v) else odd
    assert mode is QuantizationMode.UNBIASED_ROUNDING       # nearest, ties to even
    if 2 * (v - f) < 1:
        return f
    if 2 * (v - f) > 1:
        return f + 1
    return f if equal(vc, f % 2, 0) else f + 1


CASES = [(m.name, o.name, f, i) for m in MODES for o in OverflowMode for f, i in FORMATS]


@contract(P, "quantizing a real value", cases=[(m.name, o.name) for m in MODES for o in OverflowMode], n=100, n_thorough=1000,
          targets=[Q + "quantize", Q + "_quantize_real"])
def h_real(vc, case):
    """Any value, any number of fractional and integer bits (at least two bits in total)."""
    mode, ov = QuantizationMode[case[0]], OverflowMode[case[1]]
    f, i = vc.int("f", *bound(vc, -4, 30)), vc.int("i", *bound(vc, -4, 12))
    vc.assume(f + i >= 2)
    vc.assume(vc.pow2(f + i) >= 4)      # lemma: powers of two are monotone
    v = vc.real("v")
    r = run_quantize(vc, v, f, i, mode, ov)
    check_real(vc, v, r, f, i, mode, ov)


@contract(P, "words are left unchanged", cases=[(m.name, o.name) for m in MODES for o in OverflowMode], n=100, n_thorough=1000,
          targets=[Q + "quantize", Q + "_quantize_real"])
def h_fixed(vc, case):
    """Every word (every odd word for plain jamming) is left as it is; with the first contract (the result
    is a word, odd for jamming unless saturated) quantizing twice equals quantizing once."""
    mode, ov = QuantizationMode[case[0]], OverflowMode[case[1]]
    f, i = vc.int("f", *bound(vc, -4, 30)), vc.int("i", *bound(vc, -4, 12))
    vc.assume(f + i >= 2)
    vc.assume(vc.pow2(f + i) >= 4)
    half = vc.pow2(f + i - 1)
    k = vc.int("k", *((None, None) if vc.symbolic else (-half, half - 1)))
    vc.assume(vc.and_(k >= -half, k <= half - 1))
    if mode is QuantizationMode.JAMMING:
        vc.assume(equal(vc, k % 2, 1))
    v = k / vc.pow2(f)
    r = run_quantize(vc, v, f, i, mode, ov)
    vc.prove("a word is a fixed point of quantization", lambda: equal(vc, r, v), f"{v!r} -> {r!r}")


@contract(P, "quantizing a complex value acts on each part", cases=[(m.name, o.name) for m in MODES for o in OverflowMode], n=60,
          targets=[Q + "quantize"])
def h_complex(vc, case):
    mode, ov = QuantizationMode[case[0]], OverflowMode[case[1]]
    v = vc.complex("v")
    f, i = vc.int("f", *bound(vc, -4, 30)), vc.int("i", *bound(vc, -4, 12))
    vc.assume(f + i >= 2)
    r = run_quantize(vc, v, f, i, mode, ov)
    re = run_quantize(vc, v.real, f, i, mode, ov)
    im = run_quantize(vc, v.imag, f, i, mode, ov)
    vc.prove("real part", lambda: vc.eq(r.real, re))
    vc.prove("imaginary part", lambda: vc.eq(r.imag, im))


@contract(P, "quantizing with wide words", kind="bounded", bound="random values and formats up to 40 + 30 bits, values within and outside the range, ties and exact codes", n=1500,
          targets=[Q + "quantize", Q + "_quantize_real"])
def h_wide(vc):
    f, i = vc.int("f", -4, 30), vc.int("i", -4, 12)
    vc.assume(f + i >= 2)
    mode, ov = vc.choice("mode", MODES), vc.choice("overflow", list(OverflowMode))
    half_codes = vc.int("half_codes", -2 ** min(30, f + i + 2), 2 ** min(30, f + i + 2))
    v = float(Fraction(half_codes, 2) / Fraction(2) ** f)
    if vc.bool("off_grid"):
        v = v + float(Fraction(1, 8) / Fraction(2) ** f)
    r = run_quantize(vc, v, f, i, mode, ov)
    check_real(vc, v, r, f, i, mode, ov)
    if not (mode is QuantizationMode.JAMMING and ov is OverflowMode.SATURATION):
        r2 = run_quantize(vc, r, f, i, mode, ov)
        vc.prove("quantizing twice equals quantizing once", r2 == r, f"{r!r} -> {r2!r}")


@contract(P, "defaults and unsupported modes", targets=[Q + "quantize"], n=60)
def h_defaults(vc):
    v = vc.real("v", -3, 3)
    if vc.symbolic:
        saved = q.apy
        q.apy = _Fx
    try:
        a = q.quantize(v, 4)
        b = q.quantize(v, 4, 1, QuantizationMode.TRUNCATION, OverflowMode.WRAPPING)
    finally:
        if vc.symbolic:
            q.apy = saved
    vc.prove("default is truncation with wrapping and one integer bit", lambda: vc.eq(a, b) if vc.symbolic else float(a) == float(b))
    _, err = vc.raises(q.quantize, 0.3, 4, 1, QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION, exc=TypeError)
    vc.prove("a mode without a definition is refused", err is not None)


@contract(P, "mapping of modes to the fixed-point library", kind="bounded", bound="every mode, all 8-bit codes cut to 5 bits", n=1,
          targets=[Q + "QuantizationMode.to_apytypes", Q + "OverflowMode.to_apytypes", "b_asic.operation:AbstractOperation._cast_to_data_type"])
def h_apy(vc):
    """Casting a fixed-point value to a data type rounds and overflows as the data type's modes say."""
    for mode in QuantizationMode:
        for ov in OverflowMode:
            for code in range(-128, 128):
                x = apy.fx(code / 32, int_bits=3, frac_bits=5)
                t = dt.DataType(wl=(2, 3), quantization_mode=mode, overflow_mode=ov)
                r = float(co.Negation()._cast_to_data_type(x, t))
                v = Fraction(code, 4)
                if mode is QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION:
                    k = math.trunc(v)
                elif mode is QuantizationMode.MAGNITUDE_TRUNCATION:
                    k = math.floor(v) + (1 if v < 0 else 0)     # sign-bit addition
                    if v < 0 and v == math.floor(v):
                        continue                                # biased by definition of the hardware mode
                else:
                    k = exact_code(vc, mode, v)
                k = max(-16, min(15, k)) if ov is OverflowMode.SATURATION else (k + 16) % 32 - 16
                vc.prove("cast follows the mode", r == k / 8, f"{mode.name} {ov.name} {code / 32} -> {r} expected {k / 8}")


@contract(P, "data type word lengths", cases=list(itertools.product(("FIXED_POINT", "FLOATING_POINT"), ("int", "pair"), ("none", "int", "pair"), ("none", "pair"))), n=40,
          targets=[D + f"DataType.{a}" for a in ("__init__", "bits", "high", "low", "input_bits", "input_high", "output_bits", "output_high", "int_bits", "frac_bits", "exp_bits", "man_bits", "from_DataType")]
          + [D + "_format_wl", D + "_count_bits"])
def h_dt(vc, case):
    rep, kind, ik, ok = case
    num = dt.NumRepresentation[rep]
    fl = num is dt.NumRepresentation.FLOATING_POINT

    def draw(kd, name):
        if kd == "none":
            return None, None
        if kd == "int":
            n = vc.int(name, 1, None if vc.symbolic else 60)
            return n, (1, n - 1)
        p = (vc.int(name + ".a", None if vc.symbolic else -5, None if vc.symbolic else 60), vc.int(name + ".b", None if vc.symbolic else -5, None if vc.symbolic else 60))
        return p, p
    wl, w = draw(kind, "wl")
    iwl, iw = draw(ik, "iwl")
    owl, ow = draw(ok, "owl")
    signed, cplx = vc.bool("signed"), vc.bool("complex")
    mode, ov = vc.choice("mode", [QuantizationMode.ROUNDING, QuantizationMode.JAMMING]), vc.choice("ov", list(OverflowMode))
    t, err = vc.raises(dt.DataType, wl=wl, input_wl=iwl, output_wl=owl, num_repr=num, is_signed=signed, is_complex=cplx, quantization_mode=mode, overflow_mode=ov, exc=TypeError)
    if err is not None:
        vc.prove("a single word length is refused only for floating point", fl and "int" in (kind, ik, ok))
        return
    vc.prove("floating point needs both word lengths", not (fl and "int" in (kind, ik, ok)))
    iw, ow = iw or w, ow or w
    extra = 1 if fl else 0
    pair = lambda a, b: vc.and_(vc.eq(a[0], b[0]), vc.eq(a[1], b[1]))
    for t2 in (t, dt.DataType.from_DataType(t), dt._VhdlDataType.from_DataType(t)):
        vc.prove("word length", lambda: pair(t2.wl, w))
        vc.prove("input word length defaults to the word length", lambda: pair(t2.input_wl, iw))
        vc.prove("output word length defaults to the word length", lambda: pair(t2.output_wl, ow))
        vc.prove("bits", lambda: vc.eq(t2.bits, w[0] + w[1] + extra))
        vc.prove("input bits", lambda: vc.eq(t2.input_bits, iw[0] + iw[1] + extra))
        vc.prove("output bits", lambda: vc.eq(t2.output_bits, ow[0] + ow[1] + extra))
        vc.prove("index range covers exactly the bits", lambda: vc.and_(vc.eq(t2.high - t2.low + 1, t2.bits), vc.eq(t2.input_high + 1, t2.input_bits), vc.eq(t2.output_high + 1, t2.output_bits), t2.low == 0))
        vc.prove("flags and modes are stored", t2.is_signed is signed and t2.is_complex is cplx and t2.num_repr is num and t2.quantization_mode is mode and t2.overflow_mode is ov)
        for a, b in ((("int_bits", "frac_bits"), False), (("exp_bits", "man_bits"), True)):
            for k in (0, 1):
                val, e = vc.raises(getattr, t2, a[k], exc=TypeError)
                vc.prove(f"{a[k]} exists only for its representation", (e is None) == (b == fl))
                if e is None:
                    vc.prove(f"{a[k]}", lambda: vc.eq(val, w[k]))


@contract(P, "VHDL data type ranges", cases=[(c, s) for c in (False, True) for s in (False, True)], n=40, targets=[D + "_VhdlDataType.high", D + "_VhdlDataType.low", D + "_VhdlDataType.__init__"])
def h_vdt(vc, case):
    cplx, signed = case
    a, b = vc.int("a", 1, None if vc.symbolic else 40), vc.int("b", 0, None if vc.symbolic else 40)
    v08 = vc.bool("2008")
    t = dt._VhdlDataType(wl=(a, b), is_signed=signed, is_complex=cplx, vhdl_2008=v08)
    vc.prove("index range covers exactly the bits of one component", lambda: vc.eq(t.high - t.low + 1, a + b))
    vc.prove("the binary point lies at index zero of a fixed-point vector", lambda: vc.eq(t.low, -b) if v08 and not cplx else t.low == 0)


@contract(P, "VHDL data type declarations", kind="bounded", bound="random word lengths up to 40 bits", n=200,
          targets=[D + f"_VhdlDataType.{m}" for m in ("type_str", "scalar_type_str", "slv_type_str", "input_type_str", "output_type_str", "init_val", "dontcare_str", "_vhdl_type", "_real_type_str")])
def h_vstr(vc):
    a, b, c, d = [vc.int(n, 1, 40) for n in "abcd"]
    cplx, signed, v08 = vc.bool("complex"), vc.bool("signed"), vc.bool("2008")
    t = dt._VhdlDataType(wl=(a, b), input_wl=(c, b), output_wl=(d, a), is_signed=signed, is_complex=cplx, vhdl_2008=v08)
    base = ("s" if signed else "u") + "fixed" if v08 else ("" if signed else "un") + "signed"
    rng = f"({t.high} downto {t.low})"
    vc.prove("type string", t.type_str == ("complex" if cplx else base + rng), t.type_str)
    vc.prove("scalar type string", t.scalar_type_str == base + rng, t.scalar_type_str)
    vc.prove("vector lengths", t.slv_type_str == f"std_logic_vector({a + b - 1} downto 0)" and t.input_type_str == f"std_logic_vector({c + b - 1} downto 0)" and t.output_type_str == f"std_logic_vector({d + a - 1} downto 0)")
    vc.prove("literals", t.init_val.count("'0'") == (2 if cplx else 1) and t.dontcare_str.count("'-'") == (2 if cplx else 1))


@contract(P, "operation results are cast to the data type", kind="bounded", bound="random fixed-point operands, all binary core operations", n=300,
          targets=["b_asic.operation:AbstractOperation._cast_to_data_type"])
def h_cast(vc):
    """With a data type every result equals the exact result of the operation quantized by the modes of the type."""
    w = (vc.int("int", 1, 4), vc.int("frac", 0, 6))
    mode = vc.choice("mode", [m for m in MODES if m is not QuantizationMode.MAGNITUDE_TRUNCATION])
    ov = vc.choice("ov", list(OverflowMode))
    t = dt.DataType(wl=w, quantization_mode=mode, overflow_mode=ov)
    a, b = Fraction(vc.int("a", -64, 63), 16), Fraction(vc.int("b", -64, 63), 16)
    fa, fb = apy.fx(float(a), int_bits=3, frac_bits=4), apy.fx(float(b), int_bits=3, frac_bits=4)
    k = Fraction(vc.int("k", -16, 15), 8)
    name = vc.choice("op", ["add", "sub", "mul", "neg", "addsub", "shiftaddsub", "rshift", "lshift", "shift", "min", "max", "mad"])
    sh = vc.int("shift", 0, 3)
    so = vc.int("shift_output", 0, 3)
    op, exact, args = {
        "add": (co.Addition(shift_output=so), (a + b) / 2 ** so, (fa, fb)), "sub": (co.Subtraction(shift_output=so), (a - b) / 2 ** so, (fa, fb)), "mul": (co.Multiplication(), a * b, (fa, fb)),
        "neg": (co.Negation(), -a, (fa,)), "addsub": (co.AddSub(is_add=False, shift_output=so), (a - b) / 2 ** so, (fa, fb)),
        "shiftaddsub": (co.ShiftAddSub(shift=sh, is_add=False), None, (fa, fb)),
        "rshift": (co.RightShift(sh), a / 2 ** sh, (fa,)), "lshift": (co.LeftShift(sh), a * 2 ** sh, (fa,)), "shift": (co.Shift(sh), a / 2 ** sh, (fa,)),
        "min": (co.Min(), min(a, b), (fa, fb)), "max": (co.Max(), max(a, b), (fa, fb)), "mad": (co.MAD(), a * b + a, (fa, fb, fa))}[name]

    def fit(x):
        c = exact_code(vc, mode, x * 2 ** w[1])
        n = 2 ** (w[0] + w[1])
        c = max(-n // 2, min(n // 2 - 1, c)) if ov is OverflowMode.SATURATION else (c + n // 2) % n - n // 2
        return Fraction(c, 2 ** w[1])
    if name == "shiftaddsub":
        exact = a - fit(b / 2 ** sh)
    r = vc.no_error("evaluate", op.evaluate, *args, data_type=t)
    vc.prove("result equals the exact result in the format of the data type", Fraction(float(r)) == fit(exact), f"{name} {a} {b} -> {r} expected {fit(exact)}")
    vc.prove("result has the format of the data type", (r.int_bits, r.frac_bits) == w)
