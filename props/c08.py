"""C08: edits of a whole schedule."""
import random
import sys

import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.utility_operations as uo
from b_asic.schedule import Schedule
from pv import sched as sc
from pv.vc import contract
from props.c07 import CASES, MORE, totals

LEVEL = "proof"
EXPLANATION = ""
P = "C08"
B = "b_asic.schedule:Schedule."
BOUND = "graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7); latencies, start times and laps arbitrary"


def real(sch):
    """Signals that carry a value (a don't-care is available at any time)."""
    return [s for s in sc.signals(sc.graph(sch)) if not isinstance(s.source.operation, uo.DontCare)]


def state(vc, sch):
    return {"start": dict(sch.start_times), "laps": {s.graph_id: sch.laps[s.graph_id] for s in sc.signals(sc.graph(sch))}, "T": sch.schedule_time,
            "slack": {s.graph_id: sc.slack(vc, sch, s) for s in real(sch)}, "periods": {s.graph_id: sc.periods(vc, sch, s) for s in real(sch)},
            "offsets": {op.graph_id: dict(op.latency_offsets) for op in sc.ops(sch)}, "totals": totals(vc, sch)}


def label(s):
    return f"{s.source.operation.graph_id}->{s.destination.operation.graph_id}"


def show(sch, old):
    return lambda: f"T={old['T']} -> {sch.schedule_time} start {old['start']} -> {dict(sch.start_times)} laps {old['laps']} -> {dict(sch.laps)}"


def valid(vc, sch, old, offsets=False):
    """Every data dependency satisfied, start times within the period, no value read in a period before the one in which it is computed."""
    for op in sc.ops(sch):
        t = sch.start_times[op.graph_id]
        if not isinstance(op, uo.DontCare):
            vc.prove("start times stay in the period", lambda: vc.and_(t >= 0, t <= sch.schedule_time), show(sch, old))
    for s in real(sch):
        vc.prove(f"dependency {label(s)} satisfied", lambda: sc.slack(vc, sch, s) >= 0, show(sch, old))
        if not offsets:
            vc.prove(f"{label(s)}: no negative number of periods", lambda: sc.periods(vc, sch, s) >= 0, show(sch, old))


def loops_kept(vc, sch, old):
    for k, v in totals(vc, sch).items():
        vc.prove("total delay of every loop unchanged", lambda: vc.eq(v, old["totals"][k]), show(sch, old))


def unchanged(vc, sch, old, label="refused: nothing changes"):
    vc.prove(label, lambda: vc.and_(vc.eq(sch.schedule_time, old["T"]), *[vc.eq(sch.start_times[k], v) for k, v in old["start"].items()], *[vc.eq(sch.laps[k], v) for k, v in old["laps"].items()],
                                    *[vc.eq(op.latency_offsets[p], v) for op in sc.ops(sch) for p, v in old["offsets"][op.graph_id].items()]))


def end_time(vc, sch, skip=(so.Output, uo.Sink)):
    return [sch.start_times[op.graph_id] for op in sc.ops(sch) if isinstance(op, (so.Output, uo.Sink)) and not skip] + \
        [sch.start_times[op.graph_id] + p.latency_offset for op in sc.ops(sch) for p in op.outputs]


@contract(P, "maximum end times", cases=CASES, more_cases=MORE, kind="shape", n=20, n_thorough=200, bound=BOUND, targets=[B + "get_max_end_time", B + "get_max_non_io_end_time"])
def h_end(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    vc.prove("latest end of any operation", lambda: vc.eq(sch.get_max_end_time(), vc.max([0, *end_time(vc, sch, ())])))
    vc.prove("latest end of any operation but the outputs", lambda: vc.eq(sch.get_max_non_io_end_time(), vc.max([0, *end_time(vc, sch)])))


@contract(P, "changing the schedule time", cases=CASES, more_cases=MORE, kind="shape", n=40, n_thorough=400, bound=BOUND + "; the new schedule time arbitrary", targets=[B + "set_schedule_time"])
def h_time(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    new = vc.int("new", *((None, None) if vc.symbolic else (0, 30)))
    least = vc.max([0, *end_time(vc, sch, ())])
    old = state(vc, sch)
    r, err = vc.raises(sch.set_schedule_time, new, exc=ValueError)
    if err is not None:
        vc.prove("refused only below the latest end time", lambda: new < least)
        unchanged(vc, sch, old)
        return
    vc.prove("returns the schedule", r is sch)
    vc.prove("refused below the latest end time", lambda: new >= least)
    vc.prove("the new schedule time", lambda: vc.eq(sch.schedule_time, new))
    vc.prove("start times unchanged", lambda: vc.and_(*[vc.eq(sch.start_times[k], v) for k, v in old["start"].items()]))
    for s in real(sch):
        vc.prove(f"{label(s)}: same number of periods", lambda: vc.eq(sc.periods(vc, sch, s), old["periods"][s.graph_id]), show(sch, old))
    valid(vc, sch, old)


@contract(P, "rotating a schedule", cases=CASES, more_cases=MORE, kind="shape", n=60, n_thorough=600, bound=BOUND, targets=[B + "rotate_forward", B + "rotate_backward"])
def h_rotate(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    forward = vc.choice("forward", [True, False])
    old = state(vc, sch)
    r, err = vc.raises(sch.rotate_forward if forward else sch.rotate_backward, exc=ValueError)
    if err is not None:
        # an operand read after the period ends may belong to the period before the one of its source
        vc.prove("refused only when an operand is read later than its operation starts",
                 lambda: vc.or_(*[i.latency_offset > 0 for op in sc.ops(sch) for i in op.inputs]), show(sch, old))
        unchanged(vc, sch, old)
        return
    vc.prove("returns the schedule", r is sch)
    step = 1 if forward else -1
    for op in sc.ops(sch):
        g = op.graph_id
        vc.prove(f"{g}: start time moved by one, modulo the period", lambda: vc.eq((old["start"][g] + step - sch.start_times[g]) % T, 0), show(sch, old))
    for s in real(sch):
        vc.prove(f"{label(s)}: same slack", lambda: vc.eq(sc.slack(vc, sch, s), old["slack"][s.graph_id]), show(sch, old))
    valid(vc, sch, old)
    loops_kept(vc, sch, old)


@contract(P, "only cyclic schedules are rotated", cases=("chain", "loop"), n=10, targets=[B + "rotate_forward", B + "rotate_backward"])
def h_no_rotate(vc, shape):
    sch = sc.draw(vc, shape, 3, cyclic=False)
    old = state(vc, sch)
    for f in (sch.rotate_forward, sch.rotate_backward):
        vc.prove("refused", isinstance(vc.raises(f)[1], ValueError))
    unchanged(vc, sch, old)


def give_execution_times(vc, sch):
    for op in sc.ops(sch):
        if not isinstance(op, (so.Input, so.Output, uo.DontCare, uo.Sink)):
            op.execution_time = vc.int(f"ex({op.graph_id})", 1, None if vc.symbolic else 9) if vc.choice(f"has execution time {op.graph_id}", [True, False] if op.graph_id.endswith("0") else [True]) else None


def times(sch):
    return {op.graph_id: (op.execution_time, *op.latency_offsets.values()) for op in sc.ops(sch)}


IO = (so.Input, so.Output, uo.DontCare, uo.Sink)


@contract(P, "raising the time resolution", cases=CASES, more_cases=MORE, kind="shape", n=30, n_thorough=300, bound=BOUND + "; the factor arbitrary", targets=[B + "increase_time_resolution", "b_asic.operation:AbstractOperation._increase_time_resolution"])
def h_increase(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    give_execution_times(vc, sch)
    before, old = times(sch), state(vc, sch)
    k = vc.int("factor", -1, None if vc.symbolic else 5)
    r, err = vc.raises(sch.increase_time_resolution, k, exc=ValueError)
    if err is not None:
        vc.prove("refused only for factors that are not positive", lambda: k < 1)
        unchanged(vc, sch, old)
        return
    vc.prove("factors that are not positive are refused", lambda: k >= 1)
    vc.prove("returns the schedule", r is sch)
    vc.prove("schedule time scaled", lambda: vc.eq(sch.schedule_time, k * T))
    for g, v in old["start"].items():
        vc.prove(f"{g}: start time scaled", lambda: vc.eq(sch.start_times[g], k * v))
    for op in sc.ops(sch):
        if isinstance(op, IO):
            continue
        for a, b in zip(times(sch)[op.graph_id], before[op.graph_id]):
            vc.prove(f"{op.graph_id}: latencies and execution time scaled", (a is None) == (b is None) and (a is None or vc.eq(a, k * b)), lambda: f"{b} -> {a}")
    for s in real(sch):
        vc.prove(f"{label(s)}: same number of periods", lambda: vc.eq(sch.laps[s.graph_id], old["laps"][s.graph_id]))
        vc.prove(f"{label(s)}: slack scaled", lambda: vc.eq(sc.slack(vc, sch, s), k * old["slack"][s.graph_id]), show(sch, old))


@contract(P, "lowering the time resolution", kind="bounded", n=200, n_thorough=3000, bound="random schedules of the library of shapes, schedule times up to 24",
          targets=[B + "decrease_time_resolution", B + "get_possible_time_resolution_decrements", B + "_get_all_times", B + "increase_time_resolution", "b_asic.operation:AbstractOperation._decrease_time_resolution"])
def h_decrease(vc):
    r = random.Random(vc.seed("s"))
    sch = sc.random_schedule(r, r.choice(list(sc.SHAPES)), r.randint(1, 8))
    for op in sc.ops(sch):
        if not isinstance(op, IO):
            op.execution_time = r.choice([None, 1, 2, 3])
    f = r.randint(1, 6)
    t0, s0 = times(sch), state(vc, sch)
    sch.increase_time_resolution(f)
    every = [sch.schedule_time, *sch.start_times.values(), *[x for op in sc.ops(sch) if not isinstance(op, IO) for x in times(sch)[op.graph_id] if x is not None]]
    possible = [k for k in range(1, sch.schedule_time + 1) if all(x % k == 0 for x in every)]
    vc.prove("possible factors are the common divisors of all times", sch.get_possible_time_resolution_decrements() == possible, lambda: f"{sch.get_possible_time_resolution_decrements()} {possible} {every}")
    k = r.choice([f, r.randint(1, 7)])
    t1, s1 = times(sch), state(vc, sch)
    _, err = vc.raises(sch.decrease_time_resolution, k)
    vc.prove("refused exactly when a time is not a multiple", (err is None) == (k in possible) and (err is None or isinstance(err, ValueError)), lambda: f"{k} {possible} {err!r}")
    if err is not None:
        unchanged(vc, sch, s1)
        return
    valid(vc, sch, s1)
    for s in real(sch):
        vc.prove("slacks scaled", sc.slack(vc, sch, s) * k == s1["slack"][s.graph_id] and sch.laps[s.graph_id] == s1["laps"][s.graph_id])
    if k == f:
        vc.prove("raising and lowering restores the schedule", times(sch) == t0 and sch.start_times == s0["start"] and sch.schedule_time == s0["T"], lambda: f"{t0} {times(sch)}")
    else:
        sch.increase_time_resolution(k)
        vc.prove("lowering and raising restores the schedule", times(sch) == t1 and sch.start_times == s1["start"] and sch.schedule_time == s1["T"])


WHAT = ["name", "id", "type", "absent"]


@contract(P, "changing latencies", cases=CASES, more_cases=MORE, kind="shape", n=60, n_thorough=600, bound=BOUND + "; the new latency arbitrary", targets=[B + "set_latency_of_type_name", B + "set_latency_of_type"])
def h_latency(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    what = vc.choice("what", WHAT)
    op = vc.choice("operation", [o for o in sc.ops(sch) if not isinstance(o, IO)])
    lat = vc.int("latency", -1, None if vc.symbolic else 12)
    old = state(vc, sch)
    if what == "type":
        hit = [o for o in sc.ops(sch) if isinstance(o, type(op))]
        _, err = vc.raises(sch.set_latency_of_type, type(op), lat, exc=ValueError)
    elif what == "absent":
        hit = []
        _, err = vc.raises(sch.set_latency_of_type_name, "nosuch", lat, exc=ValueError)
        _, err = vc.raises(sch.set_latency_of_type, co.Absolute, lat, exc=ValueError) if err is None else (None, err)
    else:
        hit = [o for o in sc.ops(sch) if o.type_name() == op.type_name()] if what == "name" else [op]
        _, err = vc.raises(sch.set_latency_of_type_name, op.type_name() if what == "name" else op.graph_id, lat, exc=ValueError)
    vc.prove("start times unchanged", lambda: vc.and_(*[vc.eq(sch.start_times[k], v) for k, v in old["start"].items()]))
    if err is not None:
        unchanged(vc, sch, old)
        # what the new latencies would make of the schedule, with the same delays
        bad = [lat < 0]
        for s in real(sch):
            a = sch.start_times[s.source.operation.graph_id] + (lat if s.source.operation in hit else s.source.latency_offset)
            u = sch.start_times[s.destination.operation.graph_id] + (0 if s.destination.operation in hit else s.destination.latency_offset)
            d = old["periods"][s.graph_id]
            bad += [u + d * T < a]
        vc.prove("refused only when a dependency would be violated", lambda: vc.or_(*bad), show(sch, old))
        return
    for o in sc.ops(sch):
        want = {p: ((0 if p.startswith("in") else lat) if o in hit else v) for p, v in old["offsets"][o.graph_id].items()}
        vc.prove(f"{o.graph_id}: latency", lambda: vc.and_(*[vc.eq(o.latency_offsets[p], v) for p, v in want.items()]))
    for s in real(sch):
        vc.prove(f"{label(s)}: same number of periods", lambda: vc.eq(sc.periods(vc, sch, s), old["periods"][s.graph_id]), show(sch, old))
    valid(vc, sch, old)


@contract(P, "changing execution times", cases=CASES, kind="shape", n=20, bound=BOUND, targets=[B + "set_execution_time_of_type_name", B + "set_execution_time_of_type", "b_asic.sfg:SFG.set_execution_time_of_type_name", "b_asic.sfg:SFG.set_execution_time_of_type"])
def h_execution(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    op = vc.choice("operation", [o for o in sc.ops(sch) if not isinstance(o, IO)])
    by_name = vc.choice("by name", [True, False])
    ex = vc.int("ex", 0, None if vc.symbolic else 9)
    old = state(vc, sch)
    before = {o: o.execution_time for o in sc.ops(sch)}
    if by_name:
        vc.no_error("setting the execution time", sch.set_execution_time_of_type_name, op.type_name(), ex)
    else:
        vc.no_error("setting the execution time", sch.set_execution_time_of_type, type(op), ex)
    unchanged(vc, sch, old, "nothing else changes")
    for o in sc.ops(sch):
        hit = o.type_name() == op.type_name()
        vc.prove(f"{o.graph_id}: execution time", lambda: vc.eq(o.execution_time, ex) if hit else o.execution_time is before[o])


@contract(P, "moving Y positions", kind="bounded", n=200, n_thorough=4000, bound="random schedules of the library of shapes, histories of 12 moves", targets=[B + "move_y_location", B + "get_y_location", B + "set_y_location", B + "sort_y_locations_on_start_times", B + "reset_y_locations"])
def h_y(vc):
    r = random.Random(vc.seed("s"))
    sch = sc.random_schedule(r, r.choice(list(sc.SHAPES)), r.randint(1, 8))
    old = state(vc, sch)
    sch.sort_y_locations_on_start_times()
    ids = list(sch.start_times)
    for _ in range(12):
        ys = {g: sch.get_y_location(g) for g in ids}
        vc.prove("positions are consecutive", set(ys.values()) == set(range(max(ys.values()) + 1)), lambda: f"{ys}")
        g, y, ins = r.choice(ids), r.randint(0, len(ids)), r.random() < 0.7
        vc.no_error("moving", sch.move_y_location, g, y, ins)
        new = {k: sch.get_y_location(k) for k in ids}
        others = [k for k in ids if k != g]
        for a in others:
            for b in others:
                vc.prove("the others keep their order", (ys[a] < ys[b]) == (new[a] < new[b]) and (ys[a] == ys[b]) == (new[a] == new[b]), lambda: f"{g} to {y}, insert {ins}: {ys} -> {new}")
        for a in others:
            if ins:
                vc.prove("the moved one is placed before those at its position and after the others", (new[g] < new[a]) == (ys[a] >= y) and new[g] != new[a], lambda: f"{g} to {y}: {ys} -> {new}")
            else:
                vc.prove("the moved one shares the position", (new[g] < new[a]) == (y < ys[a]) and (new[g] == new[a]) == (ys[a] == y), lambda: f"{g} to {y}: {ys} -> {new}")
    unchanged(vc, sch, old, "start times and delays unaffected")
    k = r.choice(ids)
    sch.set_y_location(k, 77)
    vc.prove("set and get", sch.get_y_location(k) == 77)


@contract(P, "latency from inputs to outputs", kind="bounded", n=150, n_thorough=2000, bound="random schedules of the library of shapes, schedule times up to 8", targets=[B + "get_io_latency"])
def h_io(vc):
    r = random.Random(vc.seed("s"))
    T = r.randint(1, 8)
    sch = sc.random_schedule(r, r.choice(list(sc.SHAPES)), T)
    got = vc.no_error("input to output latency", sch.get_io_latency)
    best = {}
    for op in sc.ops(sch):
        if isinstance(op, so.Input):
            d = {op: 0}
            todo = [op]
            while todo:
                x = todo.pop()
                for s in sc.outs(x):
                    n = d[x] + sc.periods(vc, sch, s)
                    y = s.destination.operation
                    if n < d.get(y, 10 ** 9):
                        d[y] = n
                        todo.append(y)
            for y, n in d.items():
                if isinstance(y, so.Output):
                    best.setdefault(op.graph_id, {})[y.graph_id] = n * T + sch.start_times[y.graph_id] - sch.start_times[op.graph_id]
    vc.prove("fewest periods on a path, and the difference of the start times", got == best, lambda: f"{got} should be {best}")


@contract(P, "histories of edits", kind="bounded", n=400, n_thorough=20000, bound="random histories of 10 edits of random schedules of the library of shapes", targets=[B + m for m in ("rotate_forward", "rotate_backward", "set_schedule_time", "increase_time_resolution", "set_latency_of_type_name", "move_operation")])
def h_history(vc):
    r = random.Random(vc.seed("s"))
    # with operands read later than the start of their operation, a value may have to be read in the period before it is computed: moves then
    # may leave a negative number of periods (the history ends), and rotations may be refused
    offsets = r.random() < 0.3
    sch = sc.random_schedule(r, r.choice(list(sc.SHAPES)), r.randint(1, 8), offsets=offsets)
    for _ in range(10):
        old = state(vc, sch)
        k = r.randrange(6)
        what = None
        if k < 2:
            what = "rotate"
            _, err = vc.raises(sch.rotate_forward if k else sch.rotate_backward)
            vc.prove("rotations are not refused", err is None or offsets and isinstance(err, ValueError), lambda: repr(err))
        elif k == 2:
            what = "schedule time"
            _, err = vc.raises(sch.set_schedule_time, max(1, sch.schedule_time + r.randint(-3, 3)))
            vc.prove("refused properly", err is None or isinstance(err, ValueError))
        elif k == 3 and sch.schedule_time < 40:
            what = "resolution"
            vc.no_error("raising the resolution", sch.increase_time_resolution, r.randint(1, 3))
        elif k == 4:
            op = r.choice(sc.ops(sch))
            if not isinstance(op, IO):
                what = "latency"
                _, err = vc.raises(sch.set_latency_of_type_name, op.type_name(), r.randint(0, 6))
                vc.prove("refused properly", err is None or isinstance(err, ValueError))
        else:
            op = r.choice([o for o in sc.ops(sch) if not isinstance(o, uo.DontCare)])
            lo, hi = sch.slacks(op.graph_id)
            if -min(lo, 9) <= min(hi, 9):
                what = "move"
                vc.no_error("moving", sch.move_operation, op.graph_id, r.randint(-min(lo, 9), min(hi, 9)))
        valid(vc, sch, old, offsets)
        loops_kept(vc, sch, old)
        if offsets and any(sc.periods(vc, sch, s) < 0 for s in real(sch)):
            return  # cannot be written as delays: not a valid schedule to start from
        if what in ("rotate", "move", "latency"):
            vc.prove("schedule time unchanged", sch.schedule_time == old["T"])
        if what in ("rotate", "schedule time", "latency"):
            for s in real(sch):
                if what != "rotate":
                    vc.prove("same number of periods", sc.periods(vc, sch, s) == old["periods"][s.graph_id], show(sch, old))
                if what == "rotate":
                    vc.prove("same slack", sc.slack(vc, sch, s) == old["slack"][s.graph_id], show(sch, old))
