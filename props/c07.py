"""C07: slacks and single-operation moves."""
import random
import sys

import b_asic.special_operations as so
import b_asic.utility_operations as uo
from b_asic.schedule import Schedule
from pv import sched as sc
from pv.vc import contract

LEVEL = "proof"
P = "C07"
B = "b_asic.schedule:Schedule."
EXPLANATION = ""

CASES = [(s, t) for s in sc.SHAPES for t in (1, 3)] + [(s, 4) for s in ("fork", "loop", "selfloop")]
MORE = [(s, t) for s in sc.SHAPES for t in (1, 2, 3, 4, 5, 7) if (s, t) not in CASES]


def spec_forward(vc, sch, op):
    return vc.min([sys.maxsize] + [sc.slack(vc, sch, s) for s in sc.outs(op)])


def spec_backward(vc, sch, op):
    xs = []
    for s in sc.ins(op):
        if not isinstance(s.source.operation, uo.DontCare):
            xs.append(sc.slack(vc, sch, s))
        else:
            xs.append(sc.usage(sch, s))       # a don't-care value is available from time zero
    return vc.min([sys.maxsize] + xs)


@contract(P, "slacks", cases=CASES, more_cases=MORE, kind="shape", n=20, n_thorough=200, bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7); latencies, start times and laps arbitrary",
          targets=[B + m for m in ("forward_slack", "backward_slack", "slacks", "_forward_slacks", "_backward_slacks", "_output_slacks", "_input_slacks", "__init__", "_validate_slacks", "_validate_start_times", "_validate_laps")])
def h_slacks(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    for op in sc.ops(sch):
        f, b = spec_forward(vc, sch, op), spec_backward(vc, sch, op)
        vc.prove(f"forward slack of {op.graph_id}", lambda: vc.eq(sch.forward_slack(op.graph_id), f))
        vc.prove(f"backward slack of {op.graph_id}", lambda: vc.eq(sch.backward_slack(op.graph_id), b))


def snapshot(vc, sch):
    return (dict(sch.start_times), {s.graph_id: sch.laps[s.graph_id] for s in sc.signals(sc.graph(sch))},
            {s.graph_id: (sc.slack(vc, sch, s), sc.periods(vc, sch, s)) for s in sc.signals(sc.graph(sch))})


def totals(vc, sch):
    """Delays around each loop; from each input and to each output, counting the whole periods the start times carry."""
    sfg, res = sc.graph(sch), {}

    def walk(op, path, first):
        for s in outs_(op):
            nxt = s.destination.operation
            if nxt is first:
                res["loop " + "-".join(x.graph_id for x in [*path, s])] = [*path, s]
            elif nxt not in [x.source.operation for x in path] and nxt is not op:
                walk(nxt, [*path, s], first)
    for op in sc.ops(sch):
        walk(op, [], op)
    return {k: sum(sc.periods(vc, sch, s) for s in v) for k, v in res.items()}


outs_ = sc.outs


def check_move(vc, sch, op, old, time):
    """op moved by time: start time congruent and within the period, its signals' slacks changed by time, nothing else changed."""
    T = sch.schedule_time
    st, laps, sl = old
    g = op.graph_id
    new = sch.start_times[g]
    vc.prove(f"{g}: start time stays in the period", lambda: vc.and_(new >= 0, new <= T))
    vc.prove(f"{g}: start time moved by the amount, modulo the period", lambda: vc.eq((st[g] + time - new) % T, 0), f"{st[g]} + {time} -> {new}")
    vc.prove(f"{g}: other start times unchanged", lambda: vc.and_(*[vc.eq(sch.start_times[k], v) for k, v in st.items() if k != g]))
    own = {s.graph_id for s in sc.ins(op) + sc.outs(op)}
    for s in sc.signals(sc.graph(sch)):
        i = s.graph_id
        if i not in own:
            vc.prove(f"{g}: delays of other signals unchanged", lambda: vc.eq(sch.laps[i], laps[i]))
            continue
        d = (time if s.destination.operation is op else 0) - (time if s.source.operation is op else 0)
        if isinstance(s.source.operation, uo.DontCare):
            continue
        vc.prove(f"{g}: slack and delay of the signal {s.source.operation.graph_id}->{s.destination.operation.graph_id} follow the move",
                 lambda: vc.eq(sc.slack(vc, sch, s), sl[i][0] + d),
                 lambda: f"T={T} start {st} -> {sch.start_times}, laps {laps} -> {dict(sch.laps)}, slack {sl[i][0]} -> {sc.slack(vc, sch, s)} expected {sl[i][0] + d}")
        vc.prove(f"{g}: no value is read in a period before the one in which it is computed",
                 lambda: vc.implies(vc.and_(vc.eq(s.destination.latency_offset, 0), sl[i][1] >= 0), sch.laps[i] >= 0), lambda: f"T={T} start {st} -> {sch.start_times}, laps {laps} -> {dict(sch.laps)}")


@contract(P, "moving an operation", cases=CASES, more_cases=MORE, kind="shape", n=60, n_thorough=600, bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7); latencies, start times, laps and the amount arbitrary",
          targets=[B + "move_operation"])
def h_move(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    op = vc.choice("operation", sc.ops(sch))
    if isinstance(op, uo.DontCare):
        return
    time = vc.int("time", *((None, None) if vc.symbolic else (-12, 12)))
    f, b = spec_forward(vc, sch, op), spec_backward(vc, sch, op)
    old, tot = snapshot(vc, sch), totals(vc, sch)
    _, err = vc.raises(sch.move_operation, op.graph_id, time, exc=ValueError)
    if err is not None:
        vc.prove("a move is refused only outside the slacks", lambda: vc.or_(time > f, time < -b))
        vc.prove("a refused move changes nothing", lambda: vc.and_(*[vc.eq(sch.start_times[k], v) for k, v in old[0].items()], *[vc.eq(sch.laps[k], v) for k, v in old[1].items()]))
        return
    vc.prove("a move outside the slacks is refused", lambda: vc.or_(vc.eq(time, 0), vc.and_(time <= f, time >= -b)))
    check_move(vc, sch, op, old, time)
    new = totals(vc, sch)
    vc.prove("total delay of every loop unchanged", lambda: vc.and_(*[vc.eq(new[k], v) for k, v in tot.items()]))


@contract(P, "moving as late and as soon as possible", cases=CASES, more_cases=MORE, kind="shape", n=60, n_thorough=600, bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7); latencies, start times and laps arbitrary",
          targets=[B + "move_operation_alap", B + "move_operation_asap"])
def h_extreme(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    op = vc.choice("operation", sc.ops(sch))
    late = vc.choice("late", [True, False])
    if isinstance(op, uo.DontCare):
        return
    f, b = spec_forward(vc, sch, op), spec_backward(vc, sch, op)
    old = snapshot(vc, sch)
    st = old[0][op.graph_id]
    if late:
        time = f if sc.outs(op) else T - st
        if not sc.outs(op):
            vc.prove("an operation without consumers has unlimited slack", lambda: vc.eq(sch.forward_slack(op.graph_id), sys.maxsize))
        r = vc.no_error("move as late as possible", sch.move_operation_alap, op.graph_id)
    else:
        time = -b if sc.ins(op) else -st
        r = vc.no_error("move as soon as possible", sch.move_operation_asap, op.graph_id)
    vc.prove("returns the schedule", r is sch)
    check_move(vc, sch, op, old, time)
    own = [s for s in (sc.outs(op) if late else sc.ins(op)) if s.source.operation is not s.destination.operation]
    loops = [s for s in sc.outs(op) if s.destination.operation is op]
    if own and not loops and not any(isinstance(x.source.operation, uo.DontCare) for x in own):
        vc.prove("the whole slack is used", lambda: vc.eq(sch.forward_slack(op.graph_id) if late else sch.backward_slack(op.graph_id), 0))


@contract(P, "histories of moves", kind="bounded", bound="random histories of 12 moves on random graphs of the library, schedule times 1-12", n=150, n_thorough=3000,
          targets=[B + "move_operation", B + "move_operation_alap", B + "move_operation_asap", B + "__str__"])
def h_history(vc):
    rng = random.Random(vc.seed("history"))
    shape, T = rng.choice(list(sc.SHAPES)), rng.randint(1, 12)
    sch = sc.random_schedule(rng, shape, T)
    for _ in range(12):
        op = rng.choice([o for o in sc.ops(sch) if not isinstance(o, uo.DontCare)])
        old = snapshot(vc, sch)
        f, b = spec_forward(vc, sch, op), spec_backward(vc, sch, op)
        vc.prove("slacks", (sch.forward_slack(op.graph_id), sch.backward_slack(op.graph_id)) == (f, b))
        lo, hi = -min(b, 2 * T), min(f, 2 * T)
        kind = rng.randrange(3)
        if kind == 0 and lo <= hi:
            t = rng.randint(lo, hi)
            vc.no_error("a move inside the slacks", sch.move_operation, op.graph_id, t)
        elif kind == 1:
            t = f if sc.outs(op) else T - sch.start_times[op.graph_id]
            vc.no_error("as late as possible", sch.move_operation_alap, op.graph_id)
        else:
            t = -b if sc.ins(op) else -sch.start_times[op.graph_id]
            vc.no_error("as soon as possible", sch.move_operation_asap, op.graph_id)
        check_move(vc, sch, op, old, t)
        for o in sc.ops(sch):
            if isinstance(o, uo.DontCare):
                continue
            vc.prove("no slack is negative", sch.forward_slack(o.graph_id) >= 0 and sch.backward_slack(o.graph_id) >= 0)
            vc.prove("start time accessor", sch.start_time_of_operation(o.graph_id) == sch.start_times[o.graph_id])
            vc.prove("slacks() pairs", sch.slacks(o.graph_id) == (sch.backward_slack(o.graph_id), sch.forward_slack(o.graph_id)))
    for call in (sch.forward_slack, sch.backward_slack, sch.slacks, sch.start_time_of_operation, sch.move_operation_alap, sch.move_operation_asap, lambda g: sch.move_operation(g, 0)):
        vc.prove("unknown operation refused", vc.raises(call, "nosuch0", exc=ValueError)[1] is not None)
    rows = {l.split("|")[0].strip(): [x.strip() for x in l.split("|")[1:]] for l in str(sch).splitlines()[2:]}
    for o in sc.ops(sch):
        show = lambda x: "oo" if x >= sys.maxsize else str(x)
        vc.prove("printed table", rows[o.graph_id] == [str(sch.start_times[o.graph_id]), show(sch.backward_slack(o.graph_id)), show(sch.forward_slack(o.graph_id))])


@contract(P, "invalid schedules are refused", cases=CASES, more_cases=MORE, kind="shape", n=30, n_thorough=300, bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7); everything else arbitrary",
          targets=[B + "__init__", B + "_validate_slacks", B + "_validate_start_times", B + "_validate_laps"])
def h_invalid(vc, case):
    shape, T = case
    sfg, start, laps = sc.draw_raw(vc, shape, T)
    need = vc.and_(*[sc.raw_slack(vc, s, start, laps, T) >= 0 for s in sc.signals(sfg) if not isinstance(s.source.operation, uo.DontCare)])
    ok = vc.and_(*[sc.raw_slack(vc, s, start, laps, T) >= 0 for s in sc.signals(sfg)])
    _, err = vc.raises(Schedule, sfg, schedule_time=T, start_times=start, laps=laps, cyclic=True, exc=ValueError)
    if err is None:
        vc.prove("accepted only when every dependency is satisfied", lambda: need)
    else:
        vc.prove("refused only when a dependency is violated", lambda: vc.not_(ok))


@contract(P, "start times outside the schedule are refused", cases=CASES, more_cases=MORE, kind="shape", n=10, n_thorough=100, bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7); everything else arbitrary",
          targets=[B + "__init__", B + "_validate_start_times"])
def h_outside(vc, case):
    shape, T = case
    sfg, start, laps = sc.draw_raw(vc, shape, T)
    op = vc.choice("operation", sorted(start))
    t = vc.int("its start", None if vc.symbolic else -3, None if vc.symbolic else T + 4)
    vc.assume(vc.or_(t < 0, t > T))
    if isinstance(sfg.find_by_id(op), uo.DontCare):
        vc.assume(t < 0)
    _, err = vc.raises(Schedule, sfg, schedule_time=T, start_times={**start, op: t}, laps={k: v + 9 for k, v in laps.items()}, cyclic=True, exc=ValueError)
    vc.prove("refused", err is not None, lambda: f"{op} at {t}")
