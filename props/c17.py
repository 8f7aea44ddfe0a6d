"""C17: saved graphs and schedules reload as they were."""
import os
import random
import tempfile

import b_asic
import b_asic.core_operations as co
import b_asic.special_operations as so
from b_asic.save_load_structure import python_to_sfg, schedule_to_python, sfg_to_python
from b_asic.schedule import Schedule
from b_asic.sfg import SFG
from pv import gen, ref, sched
from pv import sched as sc
from pv.vc import contract

LEVEL = "bounded"
EXPLANATION = ("the serialiser works on text and cannot run on symbolic numbers: the round-trip contract (reloaded graph equal to the saved one in every "
               "operation, parameter, name, latency, execution time, connection and computed value) is executed over random graphs of every operation type "
               "with every parameter drawn from values including zero, False and empty; recorded as bounded, not proved")
P = "C17"
M = "b_asic.save_load_structure:"


def reload(vc, code):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "g.py")
        with open(p, "w") as f:
            f.write(code)
        return vc.no_error("loading the saved text", python_to_sfg, p)


def latency(r, op):
    k = r.randrange(4)
    if k == 0 or isinstance(op, (co.Constant, b_asic.DontCare)):
        return
    if k == 1 and not isinstance(op, SFG):
        op.set_latency(r.choice([0, 0, 1, 3]))
    if k == 2:
        off = {f"in{i}": r.choice([0, 0, 1, 2]) for i in range(op.input_count)}
        off.update({f"out{i}": r.choice([0, 2, 3]) for i in range(op.output_count)})
        if r.random() < 0.2:
            off.pop(r.choice(list(off)))
        op.set_latency_offsets(off)
    if r.random() < 0.6:
        op.execution_time = r.choice([0, 0, 1, 4])


def text(v):
    """The value as text, with the sign of a zero part left out."""
    return repr(complex(v.real + 0.0, v.imag + 0.0) if isinstance(v, complex) else v + 0.0 if isinstance(v, float) else v)


def describe(sfg, nested=True):
    """Everything the property promises, independent of graph identifiers."""
    ops = list(dict.fromkeys(sfg.operations))
    known = {}

    def sig(op, depth):
        key = (op, depth)
        if key not in known:
            known[key] = (op.type_name(), str(op.name), tuple(sorted((k, type(v).__name__, text(v)) for k, v in op.params.items())),
                          tuple(sorted(op.latency_offsets.items())), op.execution_time, describe(op) if isinstance(op, SFG) else None,
                          () if depth == 0 else tuple((p.signals[0].source.index, sig(p.signals[0].source.operation, depth - 1)) for p in op.inputs),
                          () if depth == 0 else tuple(tuple(sorted(((s.destination.index, hash(sig(s.destination.operation, 0))) for s in p.signals))) for p in op.outputs))
        return known[key]
    return (str(sfg.name), tuple(sorted(hash(sig(o, 3)) for o in ops)), tuple(hash(sig(o, 2)) for o in sfg.input_operations), tuple(hash(sig(o, 4)) for o in sfg.output_operations))


def flat(sfg):
    return {o.graph_id: (o.type_name(), str(o.name), {k: (type(v).__name__, text(v)) for k, v in o.params.items()}, o.latency_offsets, o.execution_time,
                         [(p.signals[0].source.operation.graph_id, p.signals[0].source.index) for p in o.inputs],
                         flat(o) if isinstance(o, SFG) else None) for o in sfg.operations}


@contract(P, "saving and loading a graph", kind="bounded", bound="random graphs of 1-10 operations of every type, nesting depth up to 2, random names, latencies and execution times", n=3000, n_thorough=20000,
          targets=[M + "sfg_to_python", M + "python_to_sfg"])
def h_sfg(vc):
    r = random.Random(vc.seed("s"))
    nested = lambda q: gen.graph(q, gen.EXACT, (1, 3), (1, 2), (0, 1), names=True, latency=latency, name=q.choice(["", "sub", "in0"]),
                                 nested=(lambda z: gen.graph(z, gen.SIMPLE, (1, 2), (1, 1), (0, 1))))
    g = gen.graph(r, gen.ALL, (1, 10), (1, 3), (0, 3), names=True, latency=latency, nested=nested if r.random() < 0.3 else None, dontcare=0.05, sinks=0.2,
                  name=r.choice(["", "", "filter", "my filter", "a-b", "class", "in0", "prop", 'x"y', "it's", "back\\", '"""', "1st"]))
    before = describe(g)
    code = vc.no_error("saving", sfg_to_python, g)
    h, pos = reload(vc, code)
    vc.prove("a graph", isinstance(h, SFG) and pos == {})
    after = describe(h)
    vc.prove("name of the graph", str(h.name) == str(g.name) or (not g.name and str(h.name) == "sfg"), f"{g.name!r} -> {h.name!r}")
    vc.prove("same operations, parameters, names, latencies and connections", after[1:] == before[1:], lambda: diff(g, h))
    vc.prove("saving leaves the graph as it was", describe(g) == before)
    vc.prove("consistent connections", ref.consistent(h) == [])
    if not any(isinstance(o, tuple(gen.REAL_ONLY)) for o in g.operations) and not any(isinstance(o, b_asic.DontCare) for o in g.operations):
        seq = gen.sequence(r, g.input_count, 5)
        try:
            want = ref.run(vc, g, seq)
        except ref.Direct:
            return
        vc.prove("same behaviour", want == ref.run(vc, h, seq))


def diff(g, h):
    a, b = flat(g), flat(h)
    out = [f"{k}: {a.get(k)} -> {b.get(k)}" for k in sorted({*a, *b}) if a.get(k) != b.get(k)]
    return "; ".join(out)[:6000]


@contract(P, "every parameter value of every operation", kind="bounded", bound="one operation of each type with every combination of a value set including zero, False and empty", n=2500, n_thorough=6000,
          targets=[M + "sfg_to_python", M + "python_to_sfg"])
def h_params(vc):
    r = random.Random(vc.seed("s"))
    cls = r.choice(gen.ALL + [co.Constant])
    op = cls(**gen.params(r, cls), name=r.choice(gen.NAMES))
    latency(r, op)
    ins = [so.Input() for _ in op.inputs]
    for p, i in zip(op.inputs, ins):
        p.connect(i)
    g = SFG(ins, [so.Output(p) for p in op.outputs])
    h, _ = reload(vc, vc.no_error("saving", sfg_to_python, g))
    vc.prove("same operation, parameters, name and latencies", describe(h)[1:] == describe(g)[1:], lambda: diff(g, h))


@contract(P, "extra text and positions", kind="bounded", bound="random position dictionaries", n=40, targets=[M + "sfg_to_python", M + "python_to_sfg"])
def h_suffix(vc):
    r = random.Random(vc.seed("s"))
    g = gen.graph(r, gen.SIMPLE)
    pos = {o.graph_id: (r.randint(-50, 50), r.randint(0, 9)) for o in g.operations}
    h, p = reload(vc, sfg_to_python(g, suffix=f"positions = {dict(pos)}"))
    vc.prove("positions", p == pos)
    vc.prove("graph", describe(h)[1:] == describe(g)[1:], lambda: diff(g, h))
    vc.prove("only graphs are accepted", vc.raises(sfg_to_python, 3, exc=TypeError)[1] is not None and vc.raises(schedule_to_python, g, exc=TypeError)[1] is not None)
    vc.prove("a file without a graph is refused", vc.raises(lambda: reload_raw("x = 3\n"), exc=ValueError)[1] is not None)


def reload_raw(code):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "g.py")
        with open(p, "w") as f:
            f.write(code)
        return python_to_sfg(p)


def canonical(sch):
    """Start times and delays by structure: identifiers mapped through a walk from the outputs."""
    g = sc.graph(sch)
    return (sch.schedule_time, sch.cyclic, {o.graph_id: (flat(g)[o.graph_id], sch.start_times[o.graph_id]) for o in g.operations},
            sorted((s.source.operation.graph_id, s.source.index, s.destination.operation.graph_id, s.destination.index, sch.laps[s.graph_id]) for s in sched.signals(g)))


@contract(P, "saving and loading a schedule", kind="bounded", bound="random schedules: graph library with random laps, and scheduled random graphs with delays", n=1500, n_thorough=5000,
          targets=[M + "schedule_to_python"])
def h_schedule(vc):
    r = random.Random(vc.seed("s"))
    if r.random() < 0.5:
        sch = sched.random_schedule(r, r.choice(list(sched.SHAPES)), r.randint(1, 8), cyclic=r.random() < 0.5)
        if r.random() < 0.5:
            sc.graph(sch).name = r.choice(["x", "my schedule", "in0"])
    else:
        def lat(q, op):
            op.set_latency(q.randint(0, 3))
            op.execution_time = q.randint(0, 2)
        g = gen.graph(r, gen.LINEAR, (1, 8), (1, 2), (0, 3), latency=lat, constants=0.1, names=True, name=r.choice(["", "flt", "a b"]))
        try:
            g.get_precedence_list()
            sch = Schedule(g, cyclic=r.random() < 0.5)
        except (ValueError, TypeError):
            vc.assume(False)
    before = canonical(sch)
    code = vc.no_error("saving", schedule_to_python, sch)
    space = {}
    vc.no_error("running the saved text", exec, compile(code, "saved", "exec"), space)
    found = [v for v in space.values() if isinstance(v, Schedule)]
    vc.prove("exactly one schedule", len(found) == 1)
    vc.prove("same start times, delays, schedule time, cyclicity and operations", canonical(found[0]) == before, lambda: f"{before} ---- {canonical(found[0])}")
    vc.prove("saving leaves the schedule as it was", canonical(sch) == before)
