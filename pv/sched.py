"""Schedules with symbolic start times, latencies and laps, and an independent meaning of them.

A signal carries D = laps + [the value becomes available after the period boundary] whole periods of delay, and its
slack is  usage + D*T - available.  All specifications below use these definitions only.
"""
import sys

import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.utility_operations as uo
import b_asic.wdf_operations as wo
from b_asic.schedule import Schedule
from b_asic.sfg import SFG


def chain():
    a = so.Input()
    x = co.ConstantMultiplication(0.5, a)
    y = co.Negation(x)
    return SFG([a], [so.Output(y)])


def fork():
    """One value read by three operations."""
    a = so.Input()
    x = co.Negation(a)
    y = co.ConstantMultiplication(2, x)
    z = co.Addition(x, y)
    return SFG([a], [so.Output(z), so.Output(x)])


def loop():
    a = so.Input()
    x = co.Addition(a)
    y = co.ConstantMultiplication(0.5, x)
    x.input(1).connect(y)
    return SFG([a], [so.Output(x)])


def selfloop():
    a = so.Input()
    x = co.Addition(a)
    x.input(1).connect(x)
    return SFG([a], [so.Output(x)])


def twoport():
    a, b = so.Input(), so.Input()
    x = wo.SymmetricTwoportAdaptor(0.5, a, b)
    y = co.Negation(x.output(0))
    return SFG([a, b], [so.Output(y), so.Output(x.output(1))])


def square():
    """Both operands of one operation come from the same port."""
    a = so.Input()
    x = co.Negation(a)
    y = co.Multiplication(x, x)
    return SFG([a], [so.Output(y)])


def special():
    a, b = so.Input(), uo.DontCare()
    x = wo.SymmetricTwoportAdaptor(0.5, a, b)
    return _sink(a, b, x)


def _sink(a, b, x):
    s = so.Output(x.output(0))
    k = uo.Sink()
    k.input(0).connect(x.output(1))
    return SFG([a], [s])


SHAPES = {f.__name__: f for f in (chain, fork, loop, selfloop, twoport, square, special)}


def signals(sfg):
    return [s for op in sfg.operations for p in op.inputs for s in p.signals]


def avail(sch, sig):
    return sch.start_times[sig.source.operation.graph_id] + sig.source.latency_offset


def usage(sch, sig):
    return sch.start_times[sig.destination.operation.graph_id] + sig.destination.latency_offset


def periods(vc, sch, sig):
    return sch.laps[sig.graph_id] + vc.ite(avail(sch, sig) > sch.schedule_time, 1, 0)


def slack(vc, sch, sig):
    return usage(sch, sig) + periods(vc, sch, sig) * sch.schedule_time - avail(sch, sig)


def graph(sch):
    """The very graph of a schedule (sch.sfg is a copy of it)."""
    g = getattr(sch, "_sfg", None)
    return g if g is not None else next(v for v in vars(sch).values() if isinstance(v, SFG))


def ops(sch):
    return [graph(sch).find_by_id(i) for i in sch.start_times]


def ins(op):
    return [s for p in op.inputs for s in p.signals]


def outs(op):
    return [s for p in op.outputs for s in p.signals]


def draw_raw(vc, shape, T, hi=12):
    sfg = SHAPES[shape]()
    H = None if vc.symbolic else hi
    for op in sfg.operations:
        if isinstance(op, (so.Input, so.Output, uo.DontCare, uo.Sink)):
            continue
        off = {f"in{k}": vc.int(f"{op.graph_id}.in{k}", 0, H) for k in range(op.input_count)}
        off.update({f"out{k}": vc.int(f"{op.graph_id}.out{k}", 0, H) for k in range(op.output_count)})
        op.set_latency_offsets(off)
    start = {op.graph_id: vc.int(f"start({op.graph_id})", 0, T) for op in sfg.operations}
    laps = {s.graph_id: vc.int(f"laps({s.graph_id})", 0, None if vc.symbolic else 2) for s in signals(sfg)}
    return sfg, start, laps


def raw_slack(vc, s, start, laps, T):
    a = start[s.source.operation.graph_id] + s.source.latency_offset
    u = start[s.destination.operation.graph_id] + s.destination.latency_offset
    return u + (laps[s.graph_id] + vc.ite(a > T, 1, 0)) * T - a


def draw(vc, shape, T, cyclic=True, hi=12):
    """An arbitrary valid schedule of the graph: any latencies, start times in the period, any laps, no slack negative."""
    sfg, start, laps = draw_raw(vc, shape, T, hi)
    for s in signals(sfg):
        sl = raw_slack(vc, s, start, laps, T)
        vc.assume(vc.and_(sl >= 0, sl < sys.maxsize, start[s.destination.operation.graph_id] + s.destination.latency_offset < sys.maxsize))
    return vc.no_error("constructing a valid schedule", Schedule, sfg, schedule_time=T, cyclic=cyclic, start_times=start, laps=laps)


def random_schedule(rng, shape, T, cyclic=True, offsets=True):
    """A valid schedule with random latencies, start times and (just enough, or more) laps."""
    sfg = SHAPES[shape]()
    for op in sfg.operations:
        if isinstance(op, (so.Input, so.Output, uo.DontCare, uo.Sink)):
            continue
        off = {f"in{k}": rng.randint(0, T) if offsets else 0 for k in range(op.input_count)}
        off.update({f"out{k}": rng.randint(0, T) for k in range(op.output_count)})
        op.set_latency_offsets(off)
    start = {op.graph_id: rng.randint(0, T if isinstance(op, (so.Output, uo.Sink)) else T - 1) for op in sfg.operations}
    laps = {}
    for s in signals(sfg):
        a = start[s.source.operation.graph_id] + s.source.latency_offset
        u = start[s.destination.operation.graph_id] + s.destination.latency_offset
        need = max(0, -((u - a) // T) - (1 if a > T else 0))
        laps[s.graph_id] = need + rng.choice([0, 0, 0, 1, 2])
    return Schedule(sfg, schedule_time=T, cyclic=cyclic, start_times=start, laps=laps)
