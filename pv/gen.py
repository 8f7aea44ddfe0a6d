"""Random signal flow graphs over the library's operation types, for bounded contracts."""
import b_asic.core_operations as co
import b_asic.fft_operations as fo
import b_asic.special_operations as so
import b_asic.utility_operations as uo
import b_asic.wdf_operations as wo
from b_asic.sfg import SFG


def num(r, cplx=False, zero=True):
    v = r.choice(([0] if zero else []) + [1, -1, 2, 3, -2, 0.5, -0.25, 0.75, -1.5])
    if cplx and r.random() < 0.4:
        v = complex(v, r.choice([1, -1, 0.5, 0, 2]))
    return v


B = lambda r: r.random() < 0.5
PARAMS = {
    co.Constant: lambda r: {"value": num(r, True)},
    co.Negation: lambda r: {},
    co.Addition: lambda r: {"mul_j": r.random() < 0.25, "shift_output": r.choice([0, 0, 1, 2])},
    co.Subtraction: lambda r: {"mul_j": r.random() < 0.25, "shift_output": r.choice([0, 0, 1, 2])},
    co.AddSub: lambda r: {"is_add": B(r), "mul_j": r.random() < 0.25, "shift_output": r.choice([0, 0, 1])},
    co.ShiftAddSub: lambda r: {"is_add": B(r), "shift": r.randint(0, 3), "mul_j": r.random() < 0.25, "shift_output": r.choice([0, 0, 1])},
    co.ConstantMultiplication: lambda r: {"value": num(r, True)},
    co.ImaginaryMultiplication: lambda r: {},
    co.ComplexConjugate: lambda r: {},
    co.Shift: lambda r: {"value": r.randint(-3, 3)},
    co.LeftShift: lambda r: {"value": r.randint(0, 3)},
    co.RightShift: lambda r: {"value": r.randint(0, 3)},
    co.Multiplication: lambda r: {},
    co.MAD: lambda r: {"do_add": B(r)},
    co.MADS: lambda r: {"is_add": B(r), "do_addsub": B(r)},
    fo.R2Butterfly: lambda r: {},
    fo.R2DIFButterfly: lambda r: {"w": num(r, True)},
    fo.R2DITButterfly: lambda r: {"w": num(r, True)},
    fo.R2TFButterfly: lambda r: {"w0": num(r, True), "w1": num(r, True)},
    fo.R4Butterfly: lambda r: {},
    wo.SymmetricTwoportAdaptor: lambda r: {"value": r.choice([0, 1, -1, 0.5, -0.25])},
    wo.SeriesTwoportAdaptor: lambda r: {"value": r.choice([0, 1, 2, 0.5, 1.25])},
    wo.ParallelTwoportAdaptor: lambda r: {"value": r.choice([0, 1, 2, 0.5, 1.25])},
    wo.SeriesThreeportAdaptor: lambda r: {"value": r.choice([(0.5, 0.5), (1, 0.5), (0.25, 0.75)])},
    wo.ReflectionFreeSeriesThreeportAdaptor: lambda r: {"value": r.choice([0, 1, 0.5, 0.25])},
}
REAL_ONLY = {
    co.Min: lambda r: {}, co.Max: lambda r: {},
    co.Division: lambda r: {}, co.SquareRoot: lambda r: {}, co.Reciprocal: lambda r: {},
    co.ReciprocalSquareRoot: lambda r: {"real_valued": r.choice([None, True, False])}, co.Absolute: lambda r: {},
    fo.R3Winograd: lambda r: {}, fo.R5Winograd: lambda r: {}, fo.R7Winograd: lambda r: {},
}
LINEAR = [co.Negation, co.Addition, co.Subtraction, co.AddSub, co.ShiftAddSub, co.ConstantMultiplication, co.Shift, co.LeftShift, co.RightShift,
          fo.R2Butterfly, fo.R2DIFButterfly, fo.R2DITButterfly, fo.R2TFButterfly, wo.SymmetricTwoportAdaptor, wo.SeriesTwoportAdaptor,
          wo.ParallelTwoportAdaptor]
SIMPLE = [co.Negation, co.Addition, co.Subtraction, co.ConstantMultiplication, co.AddSub]
EXACT = [c for c in PARAMS if c is not co.Constant]
ALL = EXACT + list(REAL_ONLY)
NAMES = ["", "", "", "a", "x y", "in0", "add0", 'q"uote', "it's", "back\\slash", "sfg"]


def params(r, cls, real=False):
    p = (PARAMS.get(cls) or REAL_ONLY[cls])(r)
    if real:
        p = {k: (v.real if isinstance(v, complex) else False if k == "mul_j" else v) for k, v in p.items()}
    return p


def graph(r, types=EXACT, n_ops=(1, 8), n_in=(1, 2), n_delays=(0, 3), constants=0.2, dontcare=0.0, sinks=0.0, names=False, latency=None,
          real=False, nested=None, name="", max_outputs=None, initial=True, override=None, dangling=0.0):
    """A random well-formed graph.  Every loop contains a delay.  latency: function(r, op) setting latencies."""
    nm = (lambda: r.choice(NAMES)) if names else (lambda: "")
    ins = [so.Input(name=nm()) for _ in range(r.randint(*n_in))]
    delays = [so.Delay(initial_value=(num(r, not real) if initial and B(r) else 0), name=nm()) for _ in range(r.randint(*n_delays))]
    if not ins and not delays:
        delays.append(so.Delay(initial_value=1))
    avail = [o.output(0) for o in ins + delays]
    used, ops = set(), []

    def pick():
        x = r.random()
        if x < constants:
            c = co.Constant(**params(r, co.Constant, real), name=nm())
            ops.append(c)
            return c.output(0)
        if x < constants + dontcare:
            c = uo.DontCare(name=nm())
            ops.append(c)
            return c.output(0)
        p = r.choice(avail if r.random() < 0.6 else avail[-4:])
        used.add(p)
        return p

    for _ in range(r.randint(*n_ops)):
        if nested is not None and r.random() < 0.25:
            op = nested(r)
        else:
            cls = r.choice(types)
            kw = params(r, cls, real)
            if override:
                kw = override(r, cls, kw)
            op = cls(**kw, name=nm())
        if latency:
            latency(r, op)
        for k, p in enumerate(op.inputs):
            p.connect(pick() if k else (r.choice([q for q in avail if q not in used] or avail)))
            used.add(p.signals[0].source)
        ops.append(op)
        avail.extend(op.outputs)
    for d in delays:
        p = r.choice(avail)
        d.input(0).connect(p)
        used.add(p)
    outs = []
    for p in avail:
        if p not in used:
            if dangling and r.random() < dangling and any(q in used for q in p.operation.outputs):
                continue
            if isinstance(p.operation, so.Input) or r.random() >= sinks:
                outs.append(so.Output(p, name=nm()))
                used.add(p)
            else:
                uo.Sink(name=nm()).input(0).connect(p)
    if not outs or (r.random() < 0.3 and max_outputs is None):
        extra = [p for p in avail if not any(isinstance(s.destination.operation, so.Output) for s in p.signals)]
        if extra:
            outs.append(so.Output(r.choice(extra), name=nm()))
    r.shuffle(outs)
    return SFG(ins, outs, name=name)


def sequence(r, n_in, length, cplx=False):
    return [[num(r, cplx) for _ in range(n_in)] for _ in range(length)]


def symbolic(vc, r, dom="complex", **kw):
    """A random graph whose coefficients and initial values are arbitrary numbers."""
    count = iter(range(10 ** 6))
    d = vc.complex if dom == "complex" else vc.real

    def override(r, cls, p):
        return {k: (d(f"coef{next(count)}") if k in ("value", "w", "w0", "w1") and not isinstance(v, (tuple, bool)) and cls not in (co.Shift, co.LeftShift, co.RightShift) and cls.__module__ != wo.__name__ else v)
                for k, v in p.items()}
    g = graph(r, override=override, **kw)
    for op in dict.fromkeys(g.operations):
        if op.type_name() == "c":
            op.value = d(f"const{next(count)}")
        if op.type_name() == "t":
            op.initial_value = d(f"state{next(count)}")
    return g
