"""C01: every operation's evaluate equals its documented function, for all inputs."""
import cmath
import math

import b_asic.core_operations as co
import b_asic.fft_operations as ff
import b_asic.special_operations as so
import b_asic.utility_operations as uo
import b_asic.wdf_operations as wo
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("Each evaluate method is executed symbolically on arbitrary real/complex inputs and parameters; its result is "
               "proved equal to the documented formula, directly, through evaluate_output and through evaluate_outputs.")
P = "C01"


def draw(vc, name, dom):
    return vc.complex(name) if dom == "complex" else vc.real(name)


def results_match(vc, op, xs, expected, tol=None):
    """evaluate, evaluate_output(s) and the recorded results all equal the spec."""
    eq = lambda a, b: vc.eq(a, b, tol) if tol else vc.eq(a, b)
    multi = len(expected) != 1
    r = op.evaluate(*xs)
    vc.prove("number of results", (len(r) == len(expected)) if multi else not isinstance(r, (list, tuple)))
    rs = list(r) if multi else [r]
    for i, (got, want) in enumerate(zip(rs, expected)):
        vc.prove(f"evaluate output {i} equals the specification", lambda got=got, want=want: eq(got, want),
                 f"got {got!r}")
    res = {}
    for i, want in enumerate(expected):
        got = op.evaluate_output(i, list(xs), results=res)
        vc.prove(f"evaluate_output({i}) equals the specification", lambda: eq(got, want), f"got {got!r}")
    for i, want in enumerate(expected):
        vc.prove(f"result recorded under the key of output {i}", lambda: eq(res[op.key(i)], want))
    vc.prove("nothing else recorded", set(res) == {op.key(i) for i in range(len(expected))})
    vc.prove("ports", op.input_count == len(xs) and op.output_count == len(expected))
    keys = {op.key(i, "p") for i in range(len(expected))}
    vc.prove("keys are distinct", len(keys) == len(expected))
    res2 = {}
    outs = op.evaluate_outputs(list(xs), results=res2, prefix="q")
    for i, want in enumerate(expected):
        vc.prove(f"evaluate_outputs[{i}]", lambda: eq(outs[i], want))
        vc.prove(f"prefixed key of output {i}", lambda: eq(res2[op.key(i, "q")], want))
    if all(v is not None for v in expected):
        r2 = op.evaluate(*xs)
        vc.prove("evaluation is repeatable", lambda: vc.and_(*[eq(a, b) for a, b in zip(list(r2) if multi else [r2], expected)]))


J = 1j


def addsub_spec(vc, sign, a, b, mul_j, shift_output, shift=None):
    if shift is not None:
        b = b / vc.pow2(shift)
    if mul_j:
        b = b * 1j
    r = a + b if sign else a - b
    return r / vc.pow2(shift_output)


@contract(P, "addition and subtraction family", cases=[(c, d) for c in ("Addition", "Subtraction", "AddSub", "ShiftAddSub") for d in ("real", "complex")],
          targets=[f"b_asic.core_operations:{c}.{m}" for c in ("Addition", "Subtraction", "AddSub", "ShiftAddSub") for m in ("evaluate", "__init__")]
          + ["b_asic.operation:AbstractOperation.evaluate_output", "b_asic.operation:AbstractOperation.key", "b_asic.operation:AbstractOperation.evaluate_outputs"])
def h_addsub(vc, case):
    cls, dom = case
    a, b = draw(vc, "a", dom), draw(vc, "b", dom)
    mul_j = vc.bool("mul_j")
    so_ = vc.int("shift_output", 0, 40 if not vc.symbolic else None)
    kw = {"mul_j": mul_j, "shift_output": so_}
    sign = cls != "Subtraction"
    shift = None
    if cls in ("AddSub", "ShiftAddSub"):
        kw["is_add"] = sign = vc.bool("is_add")
    if cls == "ShiftAddSub":
        kw["shift"] = shift = vc.int("shift", 0, 40 if not vc.symbolic else None)
    op = getattr(co, cls)(**kw)
    results_match(vc, op, [a, b], [addsub_spec(vc, sign, a, b, mul_j, so_, shift)])
    # the public properties report the parameters, and setting them changes the function accordingly
    vc.prove("mul_j property", op.mul_j == mul_j)
    vc.prove("shift_output property", lambda: vc.eq(op.shift_output, so_))
    m2 = vc.bool("mul_j2")
    s2 = vc.int("shift_output2", 0, 40 if not vc.symbolic else None)
    op.mul_j, op.shift_output = m2, s2
    if cls in ("AddSub", "ShiftAddSub"):
        sign = vc.bool("is_add2")
        op.is_add = sign
        vc.prove("is_add property", op.is_add == sign)
    if cls == "ShiftAddSub":
        shift = vc.int("shift2", 0, 40 if not vc.symbolic else None)
        op.shift = shift
        vc.prove("shift property", lambda: vc.eq(op.shift, shift))
    got = op.evaluate(a, b)
    want = addsub_spec(vc, sign, a, b, m2, s2, shift)
    vc.prove("after setting parameters", lambda: vc.eq(got, want))


def spec_mads(is_add, do, a, b, c):
    if not do:
        # documented by the unit tests: the product, negated when subtracting
        return b * c if is_add else -(b * c)
    return a + b * c if is_add else a - b * c


@contract(P, "multiplicative and unary operations", cases=[(c, d) for c in (
    "Constant", "Negation", "Multiplication", "ConstantMultiplication", "MAD", "MADS", "ComplexConjugate", "ImaginaryMultiplication",
    "Division", "Reciprocal") for d in ("real", "complex")],
    targets=[f"b_asic.core_operations:{c}.evaluate" for c in ("Constant", "Negation", "Multiplication", "ConstantMultiplication", "MAD", "MADS", "ComplexConjugate", "ImaginaryMultiplication", "Division", "Reciprocal")])
def h_mul(vc, case):
    cls, dom = case
    d = lambda n: draw(vc, n, dom)
    if cls == "Constant":
        v = d("value")
        op = co.Constant(v)
        results_match(vc, op, [], [v])
        vc.prove("value property", lambda: vc.eq(op.value, v))
        w = d("value2")
        op.value = w
        vc.prove("value setter", lambda: vc.eq(op.evaluate(), w))
        return
    a = d("a")
    if cls == "Negation":
        results_match(vc, co.Negation(), [a], [0 - a])
    elif cls == "Multiplication":
        b = d("b")
        results_match(vc, co.Multiplication(), [a, b], [a * b])
    elif cls == "ConstantMultiplication":
        v = d("value")
        op = co.ConstantMultiplication(v)
        results_match(vc, op, [a], [v * a])
        vc.prove("value property", lambda: vc.eq(op.value, v))
        w = d("value2")
        op.value = w
        vc.prove("value setter", lambda: vc.eq(op.evaluate(a), w * a))
    elif cls == "MAD":
        b, c = d("b"), d("c")
        do = vc.bool("do_add")
        op = co.MAD(do_add=do)
        results_match(vc, op, [a, b, c], [a * b + c if do else a * b])
        op.do_add = not do
        vc.prove("do_add setter", lambda: vc.eq(op.evaluate(a, b, c), a * b if do else a * b + c))
    elif cls == "MADS":
        b, c = d("b"), d("c")
        do, ia = vc.bool("do_addsub"), vc.bool("is_add")
        op = co.MADS(is_add=ia, do_addsub=do)
        results_match(vc, op, [a, b, c], [spec_mads(ia, do, a, b, c)])
        op.is_add, op.do_addsub = not ia, not do
        vc.prove("setters", lambda: vc.eq(op.evaluate(a, b, c), spec_mads(not ia, not do, a, b, c)))
    elif cls == "ComplexConjugate":
        want = a if dom == "real" else a.real - a.imag * 1j
        results_match(vc, co.ComplexConjugate(), [a], [want])
    elif cls == "ImaginaryMultiplication":
        results_match(vc, co.ImaginaryMultiplication(), [a], [1j * a])
    elif cls == "Division":
        b = d("b")
        op = co.Division()
        if b == 0:
            vc.prove("division by zero gives infinity", op.evaluate(a, b) == float("inf"))
        else:
            results_match(vc, op, [a, b], [a / b])
            vc.prove("quotient times divisor is the dividend", lambda: vc.eq(op.evaluate(a, b) * b, a))
    elif cls == "Reciprocal":
        op = co.Reciprocal()
        if a == 0:
            vc.prove("reciprocal of zero gives infinity", op.evaluate(a) == float("inf"))
        else:
            results_match(vc, op, [a], [1 / a])
            vc.prove("reciprocal times input is one", lambda: vc.eq(op.evaluate(a) * a, 1))


@contract(P, "min, max, absolute value and square roots", cases=["Min", "Max", "Abs", "AbsC", "Sqrt", "SqrtC", "RSqrt", "RSqrtReal", "MinMaxComplex"],
          targets=[f"b_asic.core_operations:{c}.evaluate" for c in ("Min", "Max", "Absolute", "SquareRoot", "ReciprocalSquareRoot")])
def h_minmax(vc, case):
    if case in ("Min", "Max"):
        a, b = vc.real("a"), vc.real("b")
        op = getattr(co, case)()
        r = op.evaluate(a, b)
        want = vc.min(a, b) if case == "Min" else vc.max(a, b)
        vc.prove("bound", lambda: vc.and_(r <= a, r <= b) if case == "Min" else vc.and_(r >= a, r >= b))
        vc.prove("attained", lambda: vc.or_(vc.eq(r, a), vc.eq(r, b)))
        results_match(vc, op, [a, b], [want])
    elif case == "MinMaxComplex":
        a, b = vc.complex("a"), vc.real("b")
        first = vc.bool("first")
        for cls in (co.Min, co.Max):
            xs = (a, b) if first else (b, a)
            r, e = vc.raises(cls().evaluate, *xs, exc=ValueError)
            vc.prove("complex operands are refused", e is not None)
    elif case == "Abs":
        a = vc.real("a")
        results_match(vc, co.Absolute(), [a], [vc.ite(a >= 0, a, 0 - a)])
    elif case == "AbsC":
        a = vc.complex("a")
        r = co.Absolute().evaluate(a)
        vc.prove("non-negative", lambda: r >= 0)
        vc.prove("squared modulus", lambda: vc.eq(r * r, a.real * a.real + a.imag * a.imag))
    elif case == "Sqrt":
        a = vc.real("a")
        r = co.SquareRoot().evaluate(a)
        vc.prove("square of the root", lambda: vc.eq(r * r, a))
        vc.prove("principal root", lambda: vc.or_(r.real > 0, vc.and_(vc.eq(r.real, 0), r.imag >= 0)))
    elif case == "SqrtC":
        a = vc.complex("a")
        r = co.SquareRoot().evaluate(a)
        vc.prove("square of the root (real part)", lambda: vc.eq((r * r).real, a.real))
        vc.prove("principal root", lambda: r.real >= 0)
    elif case == "RSqrt":
        a = vc.real("a", lo=0)
        op = co.ReciprocalSquareRoot()
        if a == 0:
            vc.prove("zero gives infinity", op.evaluate(a) == float("inf"))
        else:
            r = op.evaluate(a)
            vc.prove("r*r*a == 1", lambda: vc.eq(r * r * a, 1))
            vc.prove("positive", lambda: r > 0)
    elif case == "RSqrtReal":
        a = vc.real("a", lo=0)
        op = co.ReciprocalSquareRoot(real_valued=True)
        if a == 0:
            vc.prove("zero gives infinity", op.evaluate(a) == float("inf"))
        else:
            r = op.evaluate(a)
            vc.prove("r*r*a == 1", lambda: vc.eq(r * r * a, 1))


@contract(P, "complex reciprocal square root", kind="bounded", bound="generated complex inputs (library power function is outside the verifier)", n=300,
          targets=["b_asic.core_operations:ReciprocalSquareRoot.evaluate", "b_asic.core_operations:SquareRoot.evaluate"])
def h_crsqrt(vc):
    a = vc.complex("a")
    r = co.ReciprocalSquareRoot().evaluate(a)
    vc.prove("reciprocal root", (r == float("inf")) if a == 0 else vc.eq(r * cmath.sqrt(a), 1))
    r = co.SquareRoot().evaluate(a)
    vc.prove("root", vc.eq(r, cmath.sqrt(a)))


@contract(P, "shifts", cases=[(c, d) for c in ("RightShift", "LeftShift", "Shift") for d in ("real", "complex")],
          targets=[f"b_asic.core_operations:{c}.{m}" for c in ("RightShift", "LeftShift", "Shift") for m in ("evaluate", "value")])
def h_shift(vc, case):
    cls, dom = case
    a = draw(vc, "a", dom)
    k = vc.int("value", None if cls == "Shift" else 0, None if vc.symbolic else 40)
    if not vc.symbolic:
        vc.assume(-40 <= k)

    def spec(k):
        return a * vc.pow2(k) if cls == "LeftShift" else a / vc.pow2(k)
    op = getattr(co, cls)(k)
    results_match(vc, op, [a], [spec(k)])
    k2 = vc.int("value2", None if cls == "Shift" else 0, None if vc.symbolic else 40)
    if not vc.symbolic:
        vc.assume(-40 <= k2)
    op.value = k2
    vc.prove("value property", lambda: vc.eq(op.value, k2))
    vc.prove("after setting the value", lambda: vc.eq(op.evaluate(a), spec(k2)))


@contract(P, "shift parameters are validated", cases=["RightShift", "LeftShift", "ShiftAddSub", "Addition", "Subtraction", "AddSub"],
          targets=["b_asic.core_operations:RightShift.value", "b_asic.core_operations:LeftShift.value", "b_asic.core_operations:ShiftAddSub.shift"])
def h_shift_neg(vc, case):
    k = vc.int("k", None, -1)
    op = getattr(co, case)()
    if case in ("RightShift", "LeftShift"):
        _, e = vc.raises(setattr, op, "value", k)
        vc.prove("negative shift refused", isinstance(e, ValueError))
        vc.prove("value unchanged", op.value == 0)
        _, e = vc.raises(getattr(co, case), k)
        vc.prove("negative shift refused by the constructor", isinstance(e, ValueError))
    else:
        _, e = vc.raises(setattr, op, "shift_output", k)
        vc.prove("negative output shift refused", isinstance(e, ValueError))
        vc.prove("output shift unchanged", op.shift_output == 0)
        if case == "ShiftAddSub":
            _, e = vc.raises(setattr, op, "shift", k)
            vc.prove("negative shift refused", isinstance(e, ValueError))


# --------------------------------------------------------------------------- butterflies and DFTs
@contract(P, "radix-2 and radix-4 butterflies", cases=[(c, d) for c in ("R2Butterfly", "R2DIFButterfly", "R2DITButterfly", "R2TFButterfly", "R4Butterfly") for d in ("real", "complex")],
          targets=[f"b_asic.fft_operations:{c}.evaluate" for c in ("R2Butterfly", "R2DIFButterfly", "R2DITButterfly", "R2TFButterfly", "R4Butterfly")])
def h_bfly(vc, case):
    cls, dom = case
    d = lambda n: draw(vc, n, dom)
    a, b = d("a"), d("b")
    if cls == "R2Butterfly":
        results_match(vc, ff.R2Butterfly(), [a, b], [a + b, a - b])
    elif cls == "R2DIFButterfly":
        w = vc.complex("w")
        op = ff.R2DIFButterfly(w)
        results_match(vc, op, [a, b], [a + b, w * (a - b)])
        w2 = vc.complex("w2")
        op.w = w2
        vc.prove("w setter", lambda: vc.and_(vc.eq(op.w, w2), vc.eq(op.evaluate(a, b)[1], w2 * (a - b))))
    elif cls == "R2DITButterfly":
        w = vc.complex("w")
        op = ff.R2DITButterfly(w)
        results_match(vc, op, [a, b], [a + w * b, a - w * b])
        w2 = vc.complex("w2")
        op.w = w2
        vc.prove("w setter", lambda: vc.and_(vc.eq(op.w, w2), vc.eq(op.evaluate(a, b)[1], a - w2 * b)))
    elif cls == "R2TFButterfly":
        w0, w1 = vc.complex("w0"), vc.complex("w1")
        op = ff.R2TFButterfly(w0, w1)
        results_match(vc, op, [a, b], [w0 * (a + b), w1 * (a - b)])
        op.w0, op.w1 = w1, w0
        vc.prove("w setters", lambda: vc.and_(vc.eq(op.w0, w1), vc.eq(op.w1, w0), vc.eq(op.evaluate(a, b)[0], w1 * (a + b)), vc.eq(op.evaluate(a, b)[1], w0 * (a - b))))
    else:
        c, e = d("c"), d("d")
        x = [a, b, c, e]
        W = [1, -1j, -1, 1j]
        results_match(vc, ff.R4Butterfly(), x, [sum((W[(k * n) % 4] * x[n] for n in range(1, 4)), x[0]) for k in range(4)])


@contract(P, "Winograd DFTs", cases=[(n, d) for n in (3, 5, 7) for d in ("real", "complex")],
          targets=["b_asic.fft_operations:R3Winograd.evaluate", "b_asic.fft_operations:R5Winograd.evaluate", "b_asic.fft_operations:R7Winograd.evaluate"])
def h_winograd(vc, case):
    """For all |x_i| <= 1 the outputs are within 1e-9 of the DFT (coefficients are floats); both sides are
    linear, so the bound scales to every input."""
    n, dom = case
    if dom == "real":
        xs = [vc.real(f"x{i}", -1, 1) for i in range(n)]
    else:
        xs = [vc.real(f"x{i}", -1, 1) + 1j * vc.real(f"y{i}", -1, 1) for i in range(n)]
    op = {3: ff.R3Winograd, 5: ff.R5Winograd, 7: ff.R7Winograd}[n]()
    W = [cmath.exp(-2j * math.pi * k / n) for k in range(n)]
    want = [sum((W[(k * i) % n] * xs[i] for i in range(1, n)), xs[0]) for k in range(n)]
    got = op.evaluate(*xs)
    vc.prove("number of outputs", len(got) == n and op.output_count == n and op.input_count == n)
    res = {}
    for k in range(n):
        vc.prove(f"DFT bin {k}", lambda: vc.eq(got[k], want[k], 1e-9))
        g = op.evaluate_output(k, xs, results=res)
        vc.prove(f"DFT bin {k} via evaluate_output", lambda: vc.eq(g, want[k], 1e-9))
    vc.prove("result keys", set(res) == {str(i) for i in range(n)})


# --------------------------------------------------------------------------- special operations
@contract(P, "inputs, delays, sinks and pass-through", cases=["Input", "Delay", "DelayC", "DontCare", "NoOutput"],
          targets=["b_asic.special_operations:Input.evaluate", "b_asic.special_operations:Delay.current_output", "b_asic.utility_operations:DontCare.evaluate"])
def h_special(vc, case):
    if case == "Input":
        v, w = vc.real("v"), vc.complex("w")
        op = so.Input()
        vc.prove("initially zero", op.evaluate() == 0)
        op.value = v
        results_match(vc, op, [], [v])
        op.value = w
        results_match(vc, op, [], [w])
        vc.prove("value property", lambda: vc.eq(op.value, w))
    elif case in ("Delay", "DelayC"):
        v = draw(vc, "init", "complex" if case == "DelayC" else "real")
        x = draw(vc, "x", "real")
        st = draw(vc, "state", "real")
        op = so.Delay(initial_value=v)
        vc.prove("initial value without state", lambda: vc.eq(op.current_output(0), v))
        vc.prove("initial value with empty state", lambda: vc.eq(op.current_output(0, {}), v))
        vc.prove("stored state", lambda: vc.eq(op.current_output(0, {"0": st}), st))
        vc.prove("stored state with prefix", lambda: vc.eq(op.current_output(0, {"a": st}, "a"), st))
        vc.prove("other state ignored", lambda: vc.eq(op.current_output(0, {"b": st}, "a"), v))
        delays, res = {}, {}
        got = op.evaluate_output(0, [x], results=res, delays=delays, prefix="k")
        vc.prove("outputs the initial value first", lambda: vc.eq(got, v))
        vc.prove("initial value property", lambda: vc.eq(op.initial_value, v))
    elif case == "DontCare":
        op = uo.DontCare()
        vc.prove("a number", op.output_count == 1 and isinstance(op.evaluate(), float))
    else:
        vc.prove("sink", uo.Sink().input_count == 1 and uo.Sink().output_count == 0)
        op = so.Output()
        vc.prove("output", op.input_count == 1 and op.output_count == 0)


@contract(P, "evaluate_output rejects bad indices and arities",
          targets=["b_asic.operation:AbstractOperation.evaluate_output"])
def h_arity(vc):
    i = vc.int("index", -3, 5)
    n = vc.int("n", 0, 4)
    n = int(n)
    a = [vc.real(f"a{k}") for k in range(n)]
    cls = vc.choice("cls", [co.Addition, co.Negation, ff.R2Butterfly, co.MAD])
    op = cls()
    r, e = vc.raises(op.evaluate_output, i, a)
    ok = vc.and_(i >= 0, i < op.output_count, n == op.input_count)
    if ok:
        vc.prove("accepted", e is None)
    else:
        vc.prove("refused", isinstance(e, (IndexError, ValueError)))


# ------------------------------------------------------------------ structural facts about operations
@contract(P, "latency bookkeeping of operations", targets=["b_asic.operation:AbstractOperation.__init__", "b_asic.operation:AbstractOperation.set_latency",
          "b_asic.operation:AbstractOperation.set_latency_offsets", "b_asic.operation:AbstractOperation.latency", "b_asic.operation:AbstractOperation.latency_offsets",
          "b_asic.operation:AbstractOperation.execution_time", "b_asic.port:AbstractPort.latency_offset"])
def h_latency(vc):
    """latency = max over outputs minus inputs; set/get of offsets; negative values are refused."""
    l = vc.int("latency", None if vc.symbolic else -5, None if vc.symbolic else 30)
    op, e = vc.raises(co.Addition, latency=l, exc=ValueError)
    if l < 0:
        vc.prove("negative latency refused", e is not None)
        return
    vc.prove("latency accepted", e is None)
    vc.prove("latency", lambda: vc.eq(op.latency, l))
    vc.prove("offsets", lambda: vc.and_(*[vc.eq(op.latency_offsets[k], v) for k, v in {"in0": 0, "in1": 0, "out0": l}.items()]))
    i0, i1, o0 = (vc.int(n, 0, None if vc.symbolic else 30) for n in ("in0", "in1", "out0"))
    op.set_latency_offsets({"in0": i0, "in1": i1, "out0": o0})
    lo = op.latency_offsets
    vc.prove("offsets after set", lambda: vc.and_(vc.eq(lo["in0"], i0), vc.eq(lo["in1"], i1), vc.eq(lo["out0"], o0)))
    vc.prove("ports hold the offsets", lambda: vc.and_(vc.eq(op.input(0).latency_offset, i0), vc.eq(op.input(1).latency_offset, i1), vc.eq(op.output(0).latency_offset, o0)))
    vc.prove("latency is the largest output-input distance", lambda: vc.eq(op.latency, vc.max(o0 - i0, o0 - i1)))
    m = vc.int("m", None if vc.symbolic else -5, None if vc.symbolic else 30)
    _, e = vc.raises(op.set_latency, m, exc=ValueError)
    if m < 0:
        vc.prove("negative set_latency refused", e is not None)
    else:
        vc.prove("set_latency accepted", e is None)
        vc.prove("latency after set_latency", lambda: vc.eq(op.latency, m))
    t = vc.int("t", None if vc.symbolic else -5, None if vc.symbolic else 30)
    _, e = vc.raises(setattr, op, "execution_time", t, exc=ValueError)
    vc.prove("execution time refused iff negative", lambda: (t < 0) if e is not None else (t >= 0))
    if e is None:
        vc.prove("execution time", lambda: vc.eq(op.execution_time, t))


@contract(P, "symmetric two-port adaptor", cases=["real", "complex"], targets=["b_asic.wdf_operations:SymmetricTwoportAdaptor.evaluate"])
def h_sym(vc, case):
    a, b = draw(vc, "a", case), draw(vc, "b", case)
    v = vc.real("value", -1, 1)
    op = wo.SymmetricTwoportAdaptor(v)
    results_match(vc, op, [a, b], [b + v * (b - a), a + v * (b - a)])
    vc.prove("value", lambda: vc.eq(op.value, v))
