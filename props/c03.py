"""C03: wave digital adaptors satisfy Kirchhoff's laws, are lossless and declare their dependencies."""
import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.wdf_operations as wo
from b_asic.sfg import SFG
from pv import ref
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("evaluate of every adaptor is executed on arbitrary complex waves and arbitrary admissible coefficients; the port "
               "voltages (a+b)/2 and currents (a-b)/(2R) it implies are proved to satisfy Kirchhoff's laws of the connection, "
               "losslessness, reflection-freeness and the declared input dependencies.")
P = "C03"
W = "b_asic.wdf_operations:"
ADAPTORS = ["SymmetricTwoportAdaptor", "SeriesTwoportAdaptor", "ParallelTwoportAdaptor", "SeriesThreeportAdaptor", "ReflectionFreeSeriesThreeportAdaptor"]


def make(vc, cls):
    """Adaptor and the list of per-port weights (resistances for series, conductances for parallel)."""
    if cls == "SymmetricTwoportAdaptor":
        v = vc.real("v", -1, 1)
        return wo.SymmetricTwoportAdaptor(v), [1 - v, 1 + v], "parallel"
    if cls == "SeriesTwoportAdaptor":
        v = vc.real("v", 0, 2)
        return wo.SeriesTwoportAdaptor(v), [v, 2 - v], "series"
    if cls == "ParallelTwoportAdaptor":
        v = vc.real("v", 0, 2)
        return wo.ParallelTwoportAdaptor(v), [v, 2 - v], "parallel"
    if cls == "SeriesThreeportAdaptor":
        v, w = vc.real("v", 0, 2), vc.real("w", 0, 2)
        vc.assume(v + w <= 2)
        return wo.SeriesThreeportAdaptor((v, w)), [v, w, 2 - v - w], "series"
    v = vc.real("v", 0, 1)
    return wo.ReflectionFreeSeriesThreeportAdaptor(v), [v, 1, 1 - v], "series"


def known(vc, cls, op, x):
    if cls == "SeriesTwoportAdaptor":
        vc.known("series-twoport-wave", vc.not_(vc.and_(vc.eq(op.value * x[1].real, 0), vc.eq(op.value * x[1].imag, 0))))


def voltage_law(vc, kind, a, b):
    n = len(a)
    if kind == "series":
        vc.prove("the port voltages sum to zero", lambda: vc.eq(sum(a) + sum(b), 0))
    else:
        for i in range(1, n):
            vc.prove(f"the voltages of port 0 and {i} are equal", lambda i=i: vc.eq(a[0] + b[0], a[i] + b[i]))


@contract(P, "Kirchhoff voltage law", cases=ADAPTORS, targets=[W + f"{c}.{m}" for c in ADAPTORS for m in ("evaluate", "__init__")])
def h_voltage(vc, cls):
    op, g, kind = make(vc, cls)
    a = [vc.complex(f"a{i}") for i in range(op.input_count)]
    b = list(op.evaluate(*a))
    vc.prove("one reflected wave per port", len(b) == len(a) == op.output_count)
    voltage_law(vc, kind, a, b)


@contract(P, "Kirchhoff current law and losslessness", cases=ADAPTORS, targets=[W + f"{c}.evaluate" for c in ADAPTORS])
def h_current(vc, cls):
    op, g, kind = make(vc, cls)
    n = op.input_count
    a = [vc.complex(f"a{i}") for i in range(n)]
    known(vc, cls, op, a)
    b = [op.evaluate_output(k, a) for k in range(n)]
    if kind == "series":
        for i in range(n):
            for j in range(i):
                vc.prove(f"the currents of ports {j} and {i} are equal", lambda i=i, j=j: vc.eq((a[i] - b[i]) * g[j], (a[j] - b[j]) * g[i]))
        # i = (a-b)/(2R): with (a_i-b_i) = g_i*s the wave equation fixes the common current
        for i in range(n):
            vc.prove(f"reflected wave {i} obeys the documented equation", lambda i=i: vc.eq(b[i], a[i] - g[i] * sum(a)))
    else:
        vc.prove("the currents sum to zero", lambda: vc.eq(sum((a[i] - b[i]) * g[i] for i in range(n)), 0))
        for i in range(n):
            vc.prove(f"reflected wave {i} obeys the documented equation", lambda i=i: vc.eq(b[i] + a[i], sum(a[j] * g[j] for j in range(n))))


@contract(P, "losslessness for real waves", cases=ADAPTORS, targets=[W + f"{c}.evaluate" for c in ADAPTORS])
def h_lossless(vc, cls):
    op, g, kind = make(vc, cls)
    n = op.input_count
    a = [vc.real(f"a{i}") for i in range(n)]
    known(vc, cls, op, a)
    b = op.evaluate(*a)
    p = 0
    for i in range(n):
        w = g[i]
        if kind == "series":
            w = 1
            for j in range(n):
                if j != i:
                    w = w * g[j]
        p = p + (a[i] * a[i] - b[i] * b[i]) * w
    vc.prove("the absorbed power is zero", lambda: vc.eq(p, 0))


@contract(P, "reflection-free port", cases=["ReflectionFreeSeriesThreeportAdaptor"], targets=[W + "ReflectionFreeSeriesThreeportAdaptor.evaluate"])
def h_reflection_free(vc, cls):
    op, g, kind = make(vc, cls)
    a = [vc.complex(f"a{i}") for i in range(3)]
    other = vc.complex("other")
    b = op.evaluate(*a)
    c = op.evaluate(a[0], other, a[2])
    vc.prove("the reflected wave of port 1 does not depend on its own incident wave", lambda: vc.eq(b[1], c[1]))
    full = wo.SeriesThreeportAdaptor((op.value, 1))
    for i, w in enumerate(full.evaluate(*a)):
        vc.prove(f"equals the general series adaptor on port {i}", lambda i=i, w=w: vc.eq(b[i], w))


@contract(P, "declared dependencies are exact", cases=ADAPTORS,
          targets=[W + "ReflectionFreeSeriesThreeportAdaptor.inputs_required_for_output", "b_asic.operation:AbstractOperation.inputs_required_for_output"])
def h_dependencies(vc, cls):
    op, g, kind = make(vc, cls)
    n = op.input_count
    a = [vc.complex(f"a{i}") for i in range(n)]
    for k in range(n):
        req = set(op.inputs_required_for_output(k))
        vc.prove(f"output {k}: only existing inputs are declared", req <= set(range(n)))
        for j in range(n):
            other = vc.complex(f"o{k}{j}")
            x = list(a)
            x[j] = other
            if j not in req:
                vc.prove(f"output {k} does not depend on undeclared input {j}", lambda: vc.eq(op.evaluate_output(k, a), op.evaluate_output(k, x)))
            else:
                probe = {"SymmetricTwoportAdaptor": 0.25, "SeriesTwoportAdaptor": 0.75, "ParallelTwoportAdaptor": 0.75,
                         "SeriesThreeportAdaptor": (0.25, 0.5), "ReflectionFreeSeriesThreeportAdaptor": 0.25}[cls]
                if cls == "SeriesTwoportAdaptor" and k == 0 and j == 1:
                    vc.known("series-twoport-wave", True)
                o2 = type(op)(probe)
                z = [0] * n
                u = [0] * n
                u[j] = 1
                vc.prove(f"output {k} depends on declared input {j}", o2.evaluate(*z)[k] != o2.evaluate(*u)[k])
    _, e1 = vc.raises(op.inputs_required_for_output, n)
    _, e2 = vc.raises(op.inputs_required_for_output, -1)
    vc.prove("no declaration for a port that does not exist", e1 is not None and e2 is not None)


@contract(P, "coefficient domain", cases=ADAPTORS, targets=[W + f"{c}.value" for c in ADAPTORS])
def h_domain(vc, cls):
    v = vc.real("any")
    if cls == "SeriesThreeportAdaptor":
        w = vc.real("any2")
        ok = vc.and_(v >= 0, w >= 0, v + w <= 2)
        val = (v, w)
    else:
        lo, hi = {"SymmetricTwoportAdaptor": (-1, 1), "ReflectionFreeSeriesThreeportAdaptor": (0, 1)}.get(cls, (0, 2))
        ok = vc.and_(v >= lo, v <= hi)
        val = v
    op, err = vc.raises(getattr(wo, cls), val, exc=ValueError)
    vc.prove("construction accepted exactly inside the domain", vc.and_(vc.implies(ok, err is None), vc.implies(vc.not_(ok), err is not None)))
    op = getattr(wo, cls)((0.5, 0.5) if cls == "SeriesThreeportAdaptor" else 0.5)
    _, err = vc.raises(setattr, op, "value", val, exc=ValueError)
    vc.prove("assignment accepted exactly inside the domain", vc.and_(vc.implies(ok, err is None), vc.implies(vc.not_(ok), err is not None)))
    if err is not None:
        vc.prove("refused assignment leaves the coefficient", op.value == ((0.5, 0.5) if cls == "SeriesThreeportAdaptor" else 0.5))
    else:
        vc.prove("coefficient stored", lambda: vc.and_(*[vc.eq(p, q) for p, q in zip(op.value, val)]) if isinstance(val, tuple) else vc.eq(op.value, val))


@contract(P, "port exchange keeps the adaptor's equations", cases=["SymmetricTwoportAdaptor", "ParallelTwoportAdaptor"],
          targets=[W + "SymmetricTwoportAdaptor.swap_io", W + "ParallelTwoportAdaptor.swap_io"])
def h_swap(vc, cls):
    op, g, kind = make(vc, cls)
    a = [vc.complex(f"a{i}") for i in range(2)]
    b = op.evaluate(*a)
    op.swap_io()
    c = op.evaluate(a[1], a[0])
    for i in range(2):
        vc.prove(f"wave {i} follows its port", lambda i=i: vc.eq(b[i], c[1 - i]))
