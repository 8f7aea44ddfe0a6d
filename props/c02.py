"""C02: rewriting, combining, joining, decomposing, expanding and swapping preserve the function."""
import itertools
import warnings

import b_asic.core_operations as co
import b_asic.fft_operations as ff
import b_asic.special_operations as so
import b_asic.utility_operations as uo
import b_asic.wdf_operations as wo
from b_asic.sfg import SFG
from pv import ref
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("The library's rewrite/join/combine/decompose/expand/swap code is executed on graphs around the operation with "
               "symbolic inputs and parameters; the difference equations of the graph before and after, taken from an independent "
               "reference interpreter of the graph structure, are proved equal.")
P = "C02"
C = "b_asic.core_operations:"


def draw(vc, n, dom):
    return vc.complex(n) if dom == "complex" else vc.real(n)


def xs(vc, n, dom="complex"):
    return [draw(vc, f"x{i}", dom) for i in range(n)]


def wrap(op):
    """A graph with one input per operand and one output per result."""
    ins = [so.Input() for _ in range(op.input_count)]
    for i, s in enumerate(ins):
        op.input(i).connect(s)
    return SFG(ins, [so.Output(op.output(k)) for k in range(op.output_count)])


def equal_graphs(vc, label, a, b, x):
    va, vb = ref.run(vc, a, [x])[0], ref.run(vc, b, [x])[0]
    vc.prove(f"{label}: number of outputs", len(va) == len(vb))
    for k, (p, q) in enumerate(zip(va, vb)):
        vc.prove(f"{label}: output {k}", lambda p=p, q=q: vc.eq(p, q), f"{p!r} vs {q!r}")


def nn(vc, name):
    return vc.int(name, 0, 40 if not vc.symbolic else None)


def make(vc, cls):
    kw = {"mul_j": vc.bool("mul_j"), "shift_output": nn(vc, "shift_output")}
    if cls in ("AddSub", "ShiftAddSub"):
        kw["is_add"] = vc.bool("is_add")
    if cls == "ShiftAddSub":
        kw["shift"] = nn(vc, "shift")
    return getattr(co, cls)(**kw)


PAIRS = [("Addition", "AddSub"), ("Addition", "ShiftAddSub"), ("Subtraction", "AddSub"), ("Subtraction", "ShiftAddSub"), ("AddSub", "ShiftAddSub")]


@contract(P, "rewriting adders as AddSub or ShiftAddSub", cases=PAIRS,
          targets=[C + f"{a}._rewrite_{b}" for a, b in PAIRS] + ["b_asic.sfg:SFG.rewrite", "b_asic.sfg:SFG.replace"])
def h_rewrite(vc, case):
    a, b = case
    op = make(vc, a)
    x = xs(vc, 2)
    sub = getattr(op, f"_rewrite_{b}")()
    before = wrap(op)
    equal_graphs(vc, "replacement graph", before, sub, x)
    kinds = [type(o) for o in sub.operations if not isinstance(o, (so.Input, so.Output))]
    vc.prove("replacement consists of the requested operation", kinds == [getattr(co, b)])


@contract(P, "SFG.rewrite in context", cases=PAIRS, kind="shape", bound="graph with two rewritten operations and a delay loop; inputs, parameters and states symbolic",
          targets=["b_asic.sfg:SFG.rewrite", "b_asic.sfg:SFG.replace", "b_asic.sfg:SFG.connect_external_signals_to_components"])
def h_rewrite_ctx(vc, case):
    a, b = case
    i0, i1 = so.Input(), so.Input()
    d = so.Delay(initial_value=vc.real("s0"))
    o1 = make(vc, a)
    o1.input(0).connect(i0)
    o1.input(1).connect(d)
    o2 = make(vc, a)
    o2.input(0).connect(co.ConstantMultiplication(vc.real("k"), o1))
    o2.input(1).connect(i1)
    d.input(0).connect(o2)
    sfg = SFG([i0, i1], [so.Output(o1), so.Output(o2)])
    which = vc.choice("which", ["first", "all"])
    ids = [g.graph_id for g in sfg.find_by_type(getattr(co, a))]
    seqs = ref.seq(vc, 2, 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        new = sfg.rewrite(getattr(co, b), ids[0] if which == "first" else getattr(co, a))
    ref.same_function(vc, "rewritten graph", sfg, new, seqs)
    left = len(new.find_by_type(getattr(co, a)))
    vc.prove("target operations were rewritten", left == (1 if which == "first" else 0) and len(new.find_by_type(getattr(co, b))) == 2 - left)
    vc.prove("rewritten graph is consistently connected", not ref.consistent(new), lambda: str(ref.consistent(new)))


def csd_words(n):
    """All canonical signed-digit words with n digits and non-zero leading digit."""
    out = []
    for w in itertools.product((-1, 0, 1), repeat=n):
        if (w[0] != 0 or n == 1) and not any(a and b for a, b in zip(w, w[1:])):
            out.append(list(w))
    return out


@contract(P, "constant multiplication rewritten as shifts and adders (over the digit contract)", cases=[(t, n) for t in ("Shift", "ShiftAddSub") for n in range(1, 7)], kind="shape",
          bound="CSD words of 1..6 digits; position of the binary point and the input are symbolic",
          targets=[C + "ConstantMultiplication._rewrite_Shift", C + "ConstantMultiplication._rewrite_ShiftAddSub"])
def h_cmul_contract(vc, case):
    """float_to_csd is replaced by its contract: any CSD word with any number of fractional digits whose weighted sum is the value."""
    t, n = case
    word = vc.choice("word", csd_words(n))
    frac = vc.int("frac_bits", 0, None if vc.symbolic else 30)
    value = 0
    for i, dg in enumerate(word):
        if dg:
            value = value + dg * vc.pow2(n - 1 - i) / vc.pow2(frac)
    x = xs(vc, 1)
    op = co.ConstantMultiplication(value)
    saved = co.float_to_csd
    co.float_to_csd = lambda v, *a: (list(word), frac)
    try:
        g, err = vc.raises(getattr(op, f"_rewrite_{t}"), exc=ValueError)
    finally:
        co.float_to_csd = saved
    if err is not None:
        vc.prove("refused only for zero or when a negative shift would be needed", vc.or_(not any(word), vc.and_(frac < n - 1, t == "ShiftAddSub", sum(map(bool, word)) > 1)))
        return
    y = ref.run(vc, g, [x])[0]
    vc.prove("rewritten constant multiplication computes value * x", lambda: vc.eq(y[0], value * x[0]), f"{word} frac {frac}")
    vc.prove("no constant multiplication left", not g.find_by_type(co.ConstantMultiplication))


VALUES = sorted({k / 2 ** f for f in (0, 1, 2, 5) for k in range(-40, 41)})


@contract(P, "constant multiplication rewritten as shifts and adders (values)", cases=[(t, i) for t in ("Shift", "ShiftAddSub") for i in range(0, len(VALUES), 20)], kind="shape",
          bound=f"{len(VALUES)} dyadic coefficients in [-40, 40]; input symbolic",
          targets=[C + "ConstantMultiplication._rewrite_Shift", C + "ConstantMultiplication._rewrite_ShiftAddSub", "b_asic.sfg:SFG.rewrite"])
def h_cmul_values(vc, case):
    t, i = case
    x = xs(vc, 1)
    for v in VALUES[i:i + 20]:
        op = co.ConstantMultiplication(v)
        sfg = wrap(op)
        g, err = vc.raises(sfg.rewrite, getattr(co, t), "cmul0", exc=ValueError)
        if err is not None:
            vc.prove("refused only for zero or when a negative shift would be needed", v == 0 or (t == "ShiftAddSub" and abs(v) > 1))
            continue
        y = ref.run(vc, g, [x])[0]
        vc.prove("rewritten constant multiplication computes value * x", lambda: vc.eq(y[0], v * x[0]), f"value {v}")


@contract(P, "shift and adder sub-graph rewritten as ShiftAddSub", cases=list(itertools.product(("Addition", "Subtraction", "AddSub"), (0, 1), (0, 1))),
          targets=["b_asic.sfg:SFG._rewrite_ShiftAddSub"])
def h_sfg_sas(vc, case):
    cls, shifted_operand, shifted_input = case
    v = vc.int("value", None if vc.symbolic else -20, None if vc.symbolic else 20)
    i = [so.Input(), so.Input()]
    kw = {"mul_j": vc.bool("mul_j"), "shift_output": nn(vc, "shift_output")}
    if cls == "AddSub":
        kw["is_add"] = vc.bool("is_add")
    sh = co.Shift(v, i[shifted_input])
    src = [None, None]
    src[shifted_operand] = sh
    src[1 - shifted_operand] = i[1 - shifted_input]
    add = getattr(co, cls)(src0=src[0], src1=src[1], **kw)
    g = SFG(i, [so.Output(add)])
    x = xs(vc, 2)
    new, err = vc.raises(g._rewrite_ShiftAddSub, exc=(ValueError, TypeError))
    if err is not None:
        vc.prove("a shift of the second operand by a non-negative amount is accepted",
                 vc.or_(shifted_operand == 0, v < 0, kw["mul_j"], vc.not_(kw["shift_output"] == 0)), str(err))
        return
    equal_graphs(vc, "ShiftAddSub replacement", g, new, x)


@contract(P, "only one shift and one adder may become a ShiftAddSub", cases=["neg-shift", "shift-neg", "add-add", "shift-shift", "add-shift", "sub-shift", "neg-neg"],
          targets=["b_asic.sfg:SFG._rewrite_ShiftAddSub"])
def h_sfg_sas_refuse(vc, case):
    i = [so.Input(), so.Input()]
    x = xs(vc, 2)
    v = vc.int("value", 0, None if vc.symbolic else 20)
    if case == "neg-shift":
        outs = [so.Output(co.Negation(co.Shift(v, i[0]))), so.Output(i[1])]
    elif case == "shift-neg":
        outs = [so.Output(co.Shift(v, i[0])), so.Output(co.Negation(i[1]))]
    elif case == "add-add":
        outs = [so.Output(co.Addition(co.Addition(i[0], i[1]), i[0]))]
    elif case == "shift-shift":
        outs = [so.Output(co.Shift(v, i[0])), so.Output(co.Shift(v, i[1]))]
    elif case == "add-shift":
        outs = [so.Output(co.Shift(v, co.Addition(i[0], i[1])))]
    elif case == "sub-shift":
        outs = [so.Output(co.Shift(v, co.Subtraction(i[0], i[1])))]
    else:
        outs = [so.Output(co.Negation(i[0])), so.Output(co.Negation(i[1]))]
    g = SFG(i, outs)
    new, err = vc.raises(g._rewrite_ShiftAddSub, exc=(ValueError, TypeError))
    if err is not None:
        vc.prove("refused", True)
        return
    equal_graphs(vc, "ShiftAddSub replacement", g, new, x)


@contract(P, "imaginary multiplication joined into the following adder", cases=["Addition", "Subtraction", "AddSub", "ShiftAddSub"],
          targets=[C + "ImaginaryMultiplication._join", "b_asic.sfg:SFG.join", "b_asic.sfg:SFG.remove_operation"])
def h_join(vc, cls):
    port = vc.choice("port", [0, 1, "both"])
    op = make(vc, cls)
    i = [so.Input(), so.Input()]
    im = co.ImaginaryMultiplication(i[1])
    if port == "both":
        op.input(0).connect(im)
        op.input(1).connect(im)
    else:
        op.input(port).connect(im)
        op.input(1 - port).connect(i[0])
    outs = [so.Output(op)] + ([so.Output(i[0])] if port == "both" else [])
    g = SFG(i, outs)
    x = xs(vc, 2)
    new, err = vc.raises(g.join, "imul0", "forward", exc=(ValueError, TypeError, NotImplementedError))
    if err is not None:
        vc.prove("joining the second operand is accepted", port != 1, str(err))
        return
    equal_graphs(vc, "joined graph", g, new, x)
    if port == 1:
        vc.prove("multiplication removed", not new.find_by_type(co.ImaginaryMultiplication))


@contract(P, "joining with an operation that cannot absorb the factor is refused", cases=["Multiplication", "Negation", "fork"],
          targets=[C + "ImaginaryMultiplication._join", "b_asic.sfg:SFG.join"])
def h_join_refuse(vc, case):
    i = [so.Input(), so.Input()]
    im = co.ImaginaryMultiplication(i[1])
    if case == "Multiplication":
        outs = [so.Output(co.Multiplication(i[0], im))]
    elif case == "Negation":
        outs = [so.Output(co.Negation(im)), so.Output(i[0])]
    else:
        outs = [so.Output(co.Addition(i[0], im)), so.Output(co.Subtraction(i[0], im))]
    g = SFG(i, outs)
    x = xs(vc, 2)
    new, err = vc.raises(g.join, "imul0", "forward")
    if err is not None:
        vc.prove("refused", True)
        return
    equal_graphs(vc, "joined graph", g, new, x)


@contract(P, "shift combined with the following adder", cases=[("Addition", "Addition"), ("Subtraction", "Subtraction"), ("AddSub", "AddSub"), ("AddSub", "ShiftAddSub")],
          targets=[C + f"Shift._combine_{c}" for c in ("Addition", "Subtraction", "AddSub")])
def h_combine(vc, case):
    name, cls = case
    v = vc.int("value", None if vc.symbolic else -20, None if vc.symbolic else 20)
    i = [so.Input(), so.Input()]
    sh = co.Shift(v, i[1])
    op = make(vc, cls)
    op.input(0).connect(i[0])
    op.input(1).connect(sh)
    g = SFG(i, [so.Output(op)])
    x = xs(vc, 2)
    before = ref.run(vc, g, [x])[0][0]
    s = g.find_by_type(co.Shift)[0]
    plain = [op.param("mul_j"), vc.not_(op.param("shift_output") == 0)]
    new, err = vc.raises(getattr(s, f"_combine_{name}"), exc=(ValueError, TypeError))
    if err is not None:
        vc.prove("refused only when unsupported", vc.or_(v < 0, *plain, cls != "ShiftAddSub" and name == "AddSub"), str(err))
        return
    ids = {id(o): k for k, o in enumerate(g.input_operations)}
    src = [p.signals[0].source.operation for p in new.inputs]
    vc.prove("operands come from the two operands of the adder", all(id(s_) in ids for s_ in src), lambda: str([s_.type_name() for s_ in src]))
    a, b = [x[ids[id(s_)]] for s_ in src]
    got = ref.op_outputs(vc, new, [a, b])[0]
    vc.prove("combined operation computes the same value", lambda: vc.eq(got, before))


SWAP = ["Addition", "Subtraction", "AddSub", "ShiftAddSub", "Multiplication", "Division", "Min", "Max", "MAD", "MADS", "SymmetricTwoportAdaptor",
        "SeriesTwoportAdaptor", "ParallelTwoportAdaptor", "SeriesThreeportAdaptor", "ReflectionFreeSeriesThreeportAdaptor"]


def make_any(vc, cls):
    if cls in ("Addition", "Subtraction", "AddSub", "ShiftAddSub"):
        return make(vc, cls), "complex"
    if cls == "MAD":
        return co.MAD(do_add=vc.bool("do_add")), "complex"
    if cls == "MADS":
        return co.MADS(is_add=vc.bool("is_add"), do_addsub=vc.bool("do_addsub")), "complex"
    if cls == "SymmetricTwoportAdaptor":
        return wo.SymmetricTwoportAdaptor(vc.real("v", -1, 1)), "complex"
    if cls in ("SeriesTwoportAdaptor", "ParallelTwoportAdaptor"):
        return getattr(wo, cls)(vc.real("v", 0, 2)), "complex"
    if cls == "SeriesThreeportAdaptor":
        a, b = vc.real("v", 0, 2), vc.real("w", 0, 2)
        vc.assume(vc.and_(a + b <= 2, a + b >= 0))
        return wo.SeriesThreeportAdaptor((a, b)), "complex"
    if cls == "ReflectionFreeSeriesThreeportAdaptor":
        return wo.ReflectionFreeSeriesThreeportAdaptor(vc.real("v", 0, 1)), "complex"
    return getattr(co, cls)(), "real" if cls in ("Min", "Max") else "complex"


@contract(P, "swapping the inputs of a swappable operation", cases=SWAP,
          targets=["b_asic.operation:AbstractOperation.swap_io", C + "MAD.swap_io", C + "MADS.swap_io", "b_asic.sfg:SFG.swap_io_of_operation",
                   "b_asic.wdf_operations:SymmetricTwoportAdaptor.swap_io", "b_asic.wdf_operations:SeriesTwoportAdaptor.swap_io", "b_asic.wdf_operations:ParallelTwoportAdaptor.swap_io"]
          + [C + f"{c}.is_swappable" for c in SWAP[:10]])
def h_swap(vc, cls):
    op, dom = make_any(vc, cls)
    g = wrap(op)
    x = xs(vc, op.input_count, dom)
    if cls == "Division":
        vc.assume(vc.and_(vc.not_(x[0] == 0), vc.not_(x[1] == 0)))
    gop = [o for o in g.operations if o.type_name() == op.type_name()][0]
    before = ref.run(vc, g, [x])[0]
    times = vc.choice("times", [1, 2])
    _, err = vc.raises(g.swap_io_of_operation, gop.graph_id, exc=TypeError)
    if times == 2 and err is None:
        _, err = vc.raises(g.swap_io_of_operation, gop.graph_id, exc=TypeError)
    if err is not None:
        vc.prove("refused only for operations not declared swappable", not gop.is_swappable)
    vc.prove("ports numbered by position", all(p.index == k for k, p in enumerate(gop.inputs)) and all(p.index == k for k, p in enumerate(gop.outputs)))
    vc.prove("connections stay consistent", not ref.consistent(g), lambda: str(ref.consistent(g)))
    vc.known("series-twoport-swap", cls == "SeriesTwoportAdaptor")
    after = ref.run(vc, g, [x])[0]
    for k, (p, q) in enumerate(zip(before, after)):
        vc.prove(f"output {k} unchanged", lambda p=p, q=q: vc.eq(p, q))


EXPAND = ["Constant", "Negation", "Addition", "Subtraction", "AddSub", "ShiftAddSub", "Multiplication", "Division", "Min", "Max", "ComplexConjugate", "ImaginaryMultiplication",
          "ConstantMultiplication", "MAD", "MADS", "Reciprocal", "RightShift", "LeftShift", "Shift", "SquareRoot", "Absolute", "ReciprocalSquareRoot",
          "SymmetricTwoportAdaptor", "SeriesTwoportAdaptor", "ParallelTwoportAdaptor", "SeriesThreeportAdaptor", "ReflectionFreeSeriesThreeportAdaptor",
          "R2Butterfly", "R2DIFButterfly", "R2DITButterfly", "R2TFButterfly", "DontCare", "Sink"]


def make_exp(vc, cls):
    if cls in SWAP:
        return make_any(vc, cls)
    if cls == "Constant":
        return co.Constant(vc.real("k")), "complex"
    if cls == "ConstantMultiplication":
        return co.ConstantMultiplication(vc.real("k")), "complex"
    if cls in ("RightShift", "LeftShift", "Shift"):
        return getattr(co, cls)(nn(vc, "value")), "complex"
    if cls in ("R2DIFButterfly", "R2DITButterfly"):
        return getattr(ff, cls)(vc.complex("w")), "complex"
    if cls == "R2TFButterfly":
        return ff.R2TFButterfly(vc.complex("w0"), vc.complex("w1")), "complex"
    if hasattr(ff, cls):
        return getattr(ff, cls)(), "complex"
    if hasattr(uo, cls):
        return getattr(uo, cls)(), "complex"
    return getattr(co, cls)(), "real"


@contract(P, "decomposing one operation with to_sfg and split", cases=EXPAND,
          targets=["b_asic.operation:AbstractOperation.to_sfg", "b_asic.operation:AbstractOperation.split"])
def h_to_sfg(vc, cls):
    op, dom = make_exp(vc, cls)
    x = xs(vc, op.input_count, dom)
    if cls in ("Division", "Reciprocal", "ReciprocalSquareRoot"):
        vc.assume(vc.not_(x[-1] == 0))
    if cls in ("SquareRoot", "ReciprocalSquareRoot"):
        vc.assume(x[0] >= 0)
    g = vc.no_error("to_sfg", op.to_sfg)
    if cls in ("DontCare", "Sink"):
        vc.prove("ports kept", len(g.input_operations) == op.input_count and len(g.output_operations) == op.output_count)
        return
    want = ref.op_outputs(vc, op, x)
    got = ref.run(vc, g, [x])[0]
    vc.prove("same number of outputs", len(want) == len(got))
    for k, (p, q) in enumerate(zip(want, got)):
        vc.prove(f"output {k} equals the operation's", lambda p=p, q=q: vc.eq(p, q), f"{p!r} vs {q!r}")
    parts = list(op.split())
    vc.prove("split yields operations", len(parts) >= 1 and all(hasattr(o, "graph_id") for o in parts))


@contract(P, "expanding every composite operation of a graph", cases=[c for c in EXPAND if c not in ("DontCare", "Sink", "Constant")], kind="shape",
          bound="the operation inside a graph with a feedback delay; all values symbolic",
          targets=["b_asic.sfg:SFG.flatten", "b_asic.sfg:SFG.replace", "b_asic.operation:AbstractOperation.to_sfg"])
def h_expand(vc, cls):
    op, dom = make_exp(vc, cls)
    ins = [so.Input() for _ in range(op.input_count)]
    for k in range(1, op.input_count):
        op.input(k).connect(ins[k])
    d = so.Delay(initial_value=vc.real("s0"))
    if dom == "real" and cls in ("SquareRoot", "ReciprocalSquareRoot", "Absolute", "Division", "Reciprocal"):
        op.input(0).connect(ins[0])
        outs = [so.Output(op.output(0)), so.Output(co.Negation(op.output(0)))]
    else:
        op.input(0).connect(co.Addition(ins[0], d))
        d.input(0).connect(op.output(op.output_count - 1))
        outs = [so.Output(op.output(k)) for k in range(op.output_count)]
    g = SFG(ins, outs)
    n = 2 if dom == "real" and cls not in ("SquareRoot", "ReciprocalSquareRoot", "Absolute", "Division", "Reciprocal") or cls.endswith("Adaptor") else 1
    seqs = ref.seq(vc, op.input_count, n, dom="real")
    if cls in ("Division", "Reciprocal", "ReciprocalSquareRoot"):
        vc.assume(vc.not_(seqs[0][-1] == 0))
    if cls in ("SquareRoot", "ReciprocalSquareRoot"):
        vc.assume(seqs[0][0] >= 0)
    for expand in (True, False):
        f = vc.no_error("flatten", g.flatten, expand)
        ref.same_function(vc, f"flatten(expand={expand})", g, f, seqs)
        vc.prove("flattened graph is consistently connected", not ref.consistent(f), lambda: str(ref.consistent(f)))
