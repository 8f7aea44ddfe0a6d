"""C09: schedulers give feasible schedules within all limits."""
import collections
import inspect
import random

import b_asic.core_operations as co
import b_asic.fft_operations as fo
import b_asic.special_operations as so
import b_asic.utility_operations as uo
import b_asic.wdf_operations as wo
import pulp
from b_asic.list_schedulers import EarliestDeadlineScheduler, HybridScheduler, LeastSlackTimeScheduler, MaxFanOutScheduler
from b_asic.schedule import Schedule
from b_asic.scheduler import ALAPScheduler, ASAPScheduler, ILPScheduler, ListScheduler, RecursiveListScheduler
from b_asic.sfg import SFG
from pv import gen
from pv import sched as sc
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ""
P = "C09"
B = "b_asic.schedule:Schedule."
S = "b_asic.scheduler:"
IO = (so.Input, so.Output, co.Constant, uo.DontCare, uo.Sink)


# --- graphs with delays ------------------------------------------------------------------------------------------


def iir():
    a = so.Input()
    x = co.Addition(a)
    y = co.ConstantMultiplication(0.5, so.Delay(x))
    x.input(1).connect(y)
    return SFG([a], [so.Output(x)])


def iir2():
    """Two delays in series, both read."""
    a = so.Input()
    x = co.Addition(a)
    d1 = so.Delay(x)
    d2 = so.Delay(d1)
    y = co.Addition(co.Negation(d1), d2)
    x.input(1).connect(y)
    return SFG([a], [so.Output(y)])


def fir():
    a = so.Input()
    d = so.Delay(a)
    return SFG([a], [so.Output(co.Addition(co.Negation(a), d)), so.Output(d)])


def ahead():
    """A delay whose input is computed late and whose output is used early, in a feed-forward graph."""
    a = so.Input()
    x = co.Negation(co.Absolute(a))
    y = co.Addition(a, so.Delay(x))
    return SFG([a], [so.Output(y), so.Output(x)])


def ring():
    """Two delays in a loop through two operations, no input inside."""
    a = so.Input()
    x = co.Addition(a)
    y = co.Negation(so.Delay(x))
    x.input(1).connect(so.Delay(y))
    return SFG([a], [so.Output(y)])


def pair():
    a, b = so.Input(), so.Input()
    x = co.Addition(a, b)
    return SFG([a, b], [so.Output(x), so.Output(co.Negation(a))])


def constant():
    a, c = so.Input(), co.Constant(3)
    x = co.Multiplication(a, c)
    return SFG([a], [so.Output(co.Addition(x, c))])


FREE = {k: sc.SHAPES[k] for k in ("chain", "fork", "twoport", "square", "special")} | {"constant": constant, "pair": pair}
DELAYED = {f.__name__: f for f in (iir, iir2, fir, ahead, ring)}
SHAPES = FREE | DELAYED


def structure(sfg):
    """(consumer, input) -> (producer, output, number of delays), read from the graph's own signals."""
    res = {}
    for op in sfg.operations:
        if isinstance(op, so.Delay):
            continue
        for p in op.inputs:
            s, d = p.signals[0].source, 0
            while isinstance(s.operation, so.Delay):
                d += 1
                s = s.operation.input(0).signals[0].source
            res[op.graph_id, p.index] = (s.operation.graph_id, s.index, d)
    return res


def give_latencies(vc, sfg, full=True, H=9, causal=False):
    for op in sfg.operations:
        if isinstance(op, (*IO, so.Delay)):
            continue
        off = {f"in{k}": vc.int(f"{op.graph_id}.in{k}", 0, None if vc.symbolic else 3) if full or (k and k == op.input_count - 1) else 0 for k in range(op.input_count)}
        off.update({f"out{k}": vc.int(f"{op.graph_id}.out{k}", 0, None if vc.symbolic else H) for k in range(op.output_count)})
        vc.assume(vc.and_(*[v < 2**40 for v in off.values()]))
        if causal:  # no operand may be used after the results are there
            vc.assume(vc.and_(*[off[f"in{i}"] <= off[f"out{k}"] for i in range(op.input_count) for k in range(op.output_count)]))
        op.set_latency_offsets(off)


class Graph:
    """The graph as the scheduler got it."""

    def __init__(self, sfg):
        self.edges = structure(sfg)
        self.ops = {op.graph_id: op for op in sfg.operations if not isinstance(op, so.Delay)}
        self.loops = bool(sfg.loops)

    def inn(self, g, k):
        return self.ops[g].input(k).latency_offset

    def out(self, g, k):
        return self.ops[g].output(k).latency_offset

    def order(self):
        """Operations after the sources they read without delay."""
        done = []
        while len(done) < len(self.ops):
            for g in self.ops:
                if g not in done and all(s in done for (h, _), (s, _, d) in self.edges.items() if h == g and not d):
                    done.append(g)
        return done


def feasible(vc, g, sch):
    """The schedule is one of the given graph: same connections; a real start time for every operation; every value available before
    it is used; and every signal delayed by its delays up to a change of the operations' iteration (so all paths keep their delay)."""
    T, start = sch.schedule_time, sch.start_times
    show = lambda: f"T={T} start={dict(start)} laps={dict(sch.laps)}"
    vc.prove("exactly the operations of the graph", set(start) == set(g.ops) == {op.graph_id for op in sc.graph(sch).operations})
    for op, t in start.items():
        if not isinstance(g.ops[op], uo.DontCare):
            vc.prove("start times in the period", lambda: vc.and_(t >= 0, t <= T), show)
    edges = []
    for op in sc.graph(sch).operations:
        for p in op.inputs:
            sig = p.signals[0]
            src, k, d = g.edges[op.graph_id, p.index]
            vc.prove("same connections", (sig.source.operation.graph_id, sig.source.index) == (src, k))
            if isinstance(g.ops[src], uo.DontCare):
                continue
            vc.prove(f"{op.graph_id} starts no earlier than {src} is available", lambda: sc.slack(vc, sch, sig) >= 0, show)
            D = sc.periods(vc, sch, sig)
            vc.prove("no value read before its period", lambda: D >= 0, show)
            edges.append((src, op.graph_id, D - d))
    pot = {}
    for x in start:
        if x in pot:
            continue
        pot[x], todo = 0, [x]
        while todo:
            y = todo.pop()
            for a, b, w in edges:
                for z, v in ((b, pot[y] + w),) * (a == y) + ((a, pot[y] - w),) * (b == y):
                    if z not in pot:
                        pot[z] = v
                        todo.append(z)
                    else:
                        vc.prove("all paths keep their delay", lambda: vc.eq(pot[z], v), show)
    return pot


def earliest(vc, g, given):
    """The earliest start times that the undelayed connections allow."""
    t = {}
    for x in g.order():
        if x in given:
            t[x] = given[x]
        else:
            t[x] = vc.max([0, *[t[s] + g.out(s, k) - g.inn(x, i) for (y, i), (s, k, d) in g.edges.items() if y == x and not d and not isinstance(g.ops[s], uo.DontCare)]])
    return t


TS = ("none", 1, 4)
# full: every operand has a latency offset; otherwise only the last operand of operations with several
CASES = tuple((s, T, s in ("square", "chain", "constant")) for s in SHAPES for T in ("none", "given"))
MORE = tuple((s, T, True) for s in SHAPES for T in ("none", "given") if s not in ("square", "chain", "constant"))


def given_time(vc, T):
    return None if T == "none" else vc.int("T", 1, 2**40 if vc.symbolic else 25)


@contract(P, "as soon as possible", cases=CASES, more_cases=MORE, kind="shape", n=40, n_thorough=400, bound="the listed graphs; all latencies and schedule times",
          targets=[S + "ASAPScheduler.apply_scheduling", S + "Scheduler._place_outputs_asap", S + "Scheduler._handle_utility_operations", B + "remove_delays", B + "__init__"])
def h_asap(vc, case):
    shape, T, full = case
    sfg = SHAPES[shape]()
    give_latencies(vc, sfg, full)
    g = Graph(sfg)
    T = given_time(vc, T)
    ref = earliest(vc, g, {})
    ends = [ref[x] if isinstance(o, (so.Output, uo.Sink)) else ref[x] + p.latency_offset for x, o in g.ops.items() for p in (o.outputs or [None]) if not isinstance(o, uo.Sink)]
    least = vc.max([0, *ends])
    vc.assume(least > 0)
    sch, err = vc.raises(Schedule, sfg, ASAPScheduler(), schedule_time=T, cyclic=vc.choice("cyclic", [False, True]), exc=ValueError)
    if err is not None:
        vc.prove("refused only below the critical path", T is not None and (lambda: T < least))
        return
    vc.prove("schedule time", lambda: vc.eq(sch.schedule_time, least) if T is None else vc.and_(vc.eq(sch.schedule_time, T), T >= least))
    for x in g.ops:
        if not isinstance(g.ops[x], (uo.DontCare, uo.Sink)):
            vc.prove(f"{x}: earliest start time", lambda: vc.eq(sch.start_times[x], ref[x]))
    feasible(vc, g, sch)


def latest(vc, g, sch, pot, given):
    """Every operation starts as late as the consumers of its results allow: undelayed consumers where they are, delayed ones at their
    earliest start time; outputs at the end of the schedule."""
    T = sch.schedule_time
    outs = [x for x, o in g.ops.items() if isinstance(o, so.Output)]
    asap = earliest(vc, g, given)
    t = {x: sch.start_times[x] + (pot[x] - pot[outs[0]]) * T for x in g.ops}
    for x, o in g.ops.items():
        if isinstance(o, (uo.DontCare, uo.Sink)) or x in given:
            continue
        if isinstance(o, so.Output):
            vc.prove("outputs at the end", lambda: vc.eq(t[x], T))
            continue
        bounds = [(asap[y] + d * T if d else t[y]) + g.inn(y, i) - g.out(s, k) for (y, i), (s, k, d) in g.edges.items() if s == x and not isinstance(g.ops[y], uo.Sink)]
        bounds += [T + g.inn(y, i) - g.out(s, k) for (y, i), (s, k, d) in g.edges.items() if s == x and isinstance(g.ops[y], uo.Sink)]
        vc.prove(f"{x}: latest start time", lambda: t[x] >= vc.min(bounds), lambda: f"T={T} start {dict(sch.start_times)} unwrapped {t} asap {asap}")


LATE = tuple((s, T, s in ("square", "chain", "constant")) for s in SHAPES for T in (1, 3, "none"))
LATE_MORE = tuple((s, T, True) for s in SHAPES for T in (2, 4))


@contract(P, "as late as possible", cases=LATE, more_cases=LATE_MORE, kind="shape", n=40, n_thorough=400, bound="the listed graphs; schedule times 1, 3 (thorough also 2, 4) and (for up to 2 time units of latency) the shortest; all latencies",
          targets=[S + "ALAPScheduler.apply_scheduling", B + "move_operation_alap", B + "move_operation"])
def h_alap(vc, case):
    shape, T, full = case
    sfg = SHAPES[shape]()
    if T == "none" and vc.symbolic:  # the schedule time becomes the largest end time: latencies must be numbers
        for op in sfg.operations:
            if not isinstance(op, (*IO, so.Delay)):
                op.set_latency_offsets({f"out{k}": vc.choice(f"{op.graph_id}.out{k}", [0, 1, 2]) for k in range(op.output_count)} | {f"in{k}": 0 for k in range(op.input_count)})
    else:
        give_latencies(vc, sfg, full, T if T != "none" else 9, causal=True)
    g = Graph(sfg)
    ref = earliest(vc, g, {})
    ends = [ref[x] if isinstance(o, (so.Output, uo.Sink)) else ref[x] + p.latency_offset for x, o in g.ops.items() for p in (o.outputs or [None]) if not isinstance(o, uo.Sink)]
    least = vc.max([0, *ends])
    vc.assume(least > 0)
    sch, err = vc.raises(Schedule, sfg, ALAPScheduler(), schedule_time=None if T == "none" else T, cyclic=vc.choice("cyclic", [False, True]), exc=ValueError)
    if err is not None:
        vc.known("alap-operand-offsets", "Negative lap" in str(err) and any(o.input(k).latency_offset for o in g.ops.values() for k in range(o.input_count)))
        vc.prove("refused only below the critical path", T != "none" and (lambda: T < least))
        return
    vc.prove("schedule time", lambda: vc.eq(sch.schedule_time, least) if T == "none" else vc.and_(vc.eq(sch.schedule_time, T), T >= least))
    pot = feasible(vc, g, sch)
    latest(vc, g, sch, pot, {})


TIMES = tuple((s, n, T, i, o) for n in ("ASAP", "ALAP") for i in (False, True) for o in (False, True) for s, T in (("pair" if n == "ASAP" and not i else "chain", 3), ("iir", 3), ("fir", 2), ("fir", 5)) if (i or o) and (n, o) != ("ALAP", True))
TIMES_MORE = tuple((s, n, T, i, o) for n in ("ASAP", "ALAP") for i in (False, True) for o in (False, True) for s, T in (("pair", 3), ("pair", 1), ("iir", 1), ("iir", 6), ("fir", 1), ("twoport", 3), ("fork", 4), ("ahead", 3)) if (i or o) and (n, o) != ("ALAP", True))


@contract(P, "requested input and output times", cases=TIMES, more_cases=TIMES_MORE,
          kind="shape", n=60, n_thorough=600, bound="the listed graphs; schedule times 2, 3, 5 (thorough also 1, 4, 6); all latencies, input times and output delta times",
          targets=[S + "ASAPScheduler.apply_scheduling", S + "ALAPScheduler.apply_scheduling", S + "Scheduler._place_inputs_on_given_times", S + "Scheduler._place_outputs_on_given_times"])
def h_io(vc, case):
    io(vc, case)


@contract(P, "as late as possible with requested output times", cases=tuple((s, "ALAP", None, i, True) for s in SHAPES if s != "special" for i in (False, True)), kind="bounded", n=30, n_thorough=300, bound="the listed graphs; schedule times up to 12; latencies, input times and output delta times up to 4",
          targets=[S + "ALAPScheduler.apply_scheduling", S + "Scheduler._place_outputs_on_given_times"])
def h_io_alap(vc, case):
    io(vc, case)


def io(vc, case):
    shape, name, T, input_given, outputs_given = case
    if T is None:
        T = vc.int("T", 1, 12)
    sfg = SHAPES[shape]()
    give_latencies(vc, sfg, False, 3, causal=True)
    g = Graph(sfg)
    ins, outs = ([x for x, o in g.ops.items() if isinstance(o, t)] for t in (so.Input, so.Output))
    hi = None if vc.symbolic else 4
    given = {ins[-1]: vc.int("input time", 0, hi)} if input_given else {}
    delta = {x: vc.int(f"delta {x}", 0, hi) for x in outs} if outputs_given else {}
    cyclic = vc.choice("cyclic", [False, True])
    vc.assume(vc.and_(*[v < 2**40 for v in (*given.values(), *delta.values())]))
    ref = earliest(vc, g, given)
    ends = [ref[x] if isinstance(o, so.Output) else ref[x] + p.latency_offset for x, o in g.ops.items() for p in (o.outputs or [None])]
    least = vc.max([0, *ends])
    vc.assume(least > 0)
    sch, err = vc.raises(Schedule, sfg, (ASAPScheduler if name == "ASAP" else ALAPScheduler)(input_times=given or None, output_delta_times=delta or None), schedule_time=T, cyclic=cyclic, exc=ValueError)
    if err is not None:
        vc.prove("refused only if the outputs end too late", lambda: T < least + vc.max([0, *delta.values()]), lambda: f"{err} least {least} given {given} delta {delta}")
        return
    show = lambda: f"T={T} start {dict(sch.start_times)} given {given} delta {delta}"
    pot = feasible(vc, g, sch)
    for x, v in given.items():
        vc.prove("input at the requested time", lambda: vc.eq(sch.start_times[x], v), show)
    t = {x: sch.start_times[x] + (pot[x] - pot[outs[0]]) * T for x in g.ops}
    for a, b in zip(outs, outs[1:]):
        if delta:
            vc.prove("outputs at the requested distance", lambda: vc.eq((t[a] - t[b] - delta[a] + delta[b]) % T, 0) if cyclic else vc.eq(t[a] - t[b], delta[a] - delta[b]), show)
    if name == "ASAP":
        for x, o in g.ops.items():
            if not (isinstance(o, so.Output) and delta):
                vc.prove(f"{x}: earliest start time", lambda: vc.eq(sch.start_times[x], ref[x]), show)
    elif not delta:
        latest(vc, g, sch, pot, given)


# --- list, recursive and integer linear programming schedulers ----------------------------------------------------------------------


class Endless(Exception):
    """The limits cannot be met: the scheduler would try ever later times."""


def random_graph(rng, loops=True, positive=False):
    types = [co.Negation, co.Addition, co.Subtraction, co.ConstantMultiplication, co.AddSub, co.MAD, fo.R2Butterfly, wo.SymmetricTwoportAdaptor]
    while True:
        g = gen.graph(rng, types=types, dontcare=0.05, sinks=0.3 if rng.random() < 0.3 else 0, n_ops=(1, 9), n_in=(1, 2), n_delays=(0, 3) if rng.random() < 0.7 else (0, 0), constants=0.05, real=True, initial=False)
        if g.loops and not loops:
            continue
        if all(d < 20 for d in delays(g)):
            break
    offsets = rng.random() < 0.2
    for op in g.operations:
        if isinstance(op, (*IO, so.Delay)):
            continue
        low = 1 if positive or offsets else 0
        lat = rng.randint(low, 4)
        off = {f"in{k}": rng.randint(0, 1) if offsets else 0 for k in range(op.input_count)}
        off.update({f"out{k}": rng.randint(low, 5) if op.output_count > 1 or offsets else lat for k in range(op.output_count)})
        op.set_latency_offsets(off)
        op.execution_time = rng.randint(1, 3) if rng.random() < 0.5 else 1
    if all(p.latency_offset in (0, None) for op in g.operations for p in op.outputs):  # a schedule takes time
        return random_graph(rng, loops, positive)
    return g


def delays(sfg):
    """Number of delays before each operand (a ring of delays without operations counts as endless)."""
    for op in sfg.operations:
        for p in op.inputs:
            s, d = p.signals[0].source, 0
            while isinstance(s.operation, so.Delay) and d < 20:
                s, d = s.operation.input(0).signals[0].source, d + 1
            yield d


def executing(sch):
    """How many operations of each type execute in each time step of the period."""
    c = collections.Counter()
    for x, t in sch.start_times.items():
        op = sc.graph(sch).find_by_id(x)
        for i in range(op.execution_time or 0):
            c[op.type_name(), (t + i) % sch.schedule_time] += 1
    return c


def accesses(vc, sch, period):
    """Variables read from storage (values used when available are not) and results written in each time step of the period."""
    T, rd, wr = period, collections.defaultdict(set), collections.Counter()
    for op in sc.graph(sch).operations:
        if isinstance(op, uo.DontCare):
            continue
        for p in op.outputs:
            a = sch.start_times[op.graph_id] + p.latency_offset
            slacks = [sc.slack(vc, sch, q) for q in p.signals]
            for s in slacks:
                if s > 0:
                    rd[(a + s) % T].add(p)
            wr[a % T] += bool(slacks)
    return max([len(v) for v in rd.values()], default=0), max(wr.values(), default=0)


def run(make, sfg, T, cyclic):
    """Schedule, giving up when the scheduler tries far more time steps than any schedule of the graph needs."""
    real, n = ListScheduler._get_priority_table, 0

    def counted(self, ids):
        nonlocal n
        n += 1
        if n > 2000:
            raise Endless
        return real(self, ids)

    ListScheduler._get_priority_table = counted
    try:
        return Schedule(sfg, make(), schedule_time=T, cyclic=cyclic), None
    except (ValueError, Endless) as e:
        return None, e
    finally:
        ListScheduler._get_priority_table = real


def honoured(vc, g, sch, given, delta, show):
    T = sch.schedule_time
    for x, v in given.items():
        vc.prove("input at the requested time", (sch.start_times[x] - v) % T == 0, show)
    o = list(delta)
    for a, b in zip(o, o[1:]):
        vc.prove("outputs at the requested distance", (sch.start_times[a] - sch.start_times[b] - delta[a] + delta[b]) % T == 0, show)


def limits(vc, sch, resources, reads=None, writes=None, period=None):
    for (name, t), n in executing(sch).items():
        if name not in ("dontcare", "sink"):
            vc.prove("no more operations of a type execute at once than allowed", n <= resources.get(name, 1), lambda: f"{name} at {t}: {n} of {resources} T={sch.schedule_time} start {dict(sch.start_times)}")
    if reads or writes:
        r, w = accesses(vc, sch, period or 10**6)   # a schedule time found by the scheduler is not known to it when it counts
        vc.prove("no more reads in a time step than allowed", not reads or r <= reads, lambda: f"{r} of {reads}")
        vc.prove("no more writes in a time step than allowed", not writes or w <= writes, lambda: f"{w} of {writes}")


LIST = {"deadline": EarliestDeadlineScheduler, "slack": LeastSlackTimeScheduler, "fan-out": MaxFanOutScheduler, "hybrid": HybridScheduler, "recursive": RecursiveListScheduler}


@contract(P, "list schedulers", cases=("deadline", "slack", "fan-out", "hybrid", "list", "reads and writes"), kind="bounded", n=400, n_thorough=2500,
          bound="random graphs of up to 9 operations and 3 delays, latencies up to 5, execution times up to 3, one to three units of each kind",
          targets=[S + "ListScheduler.apply_scheduling", S + "ListScheduler._initialize_scheduler", S + "ListScheduler._schedule_nonrecursive_ops", S + "ListScheduler._validate_constraints", S + "ListScheduler._get_priority_table", B + "_place_operation"])
def h_list(vc, name):
    rng = random.Random(vc.seed("s"))
    sfg = random_graph(rng)
    g = Graph(sfg)
    cyclic = rng.random() < 0.6
    T = rng.choice([None, None, rng.randint(5, 25), rng.randint(100, 120)])
    used = [t for t in sfg.get_used_type_names() if t not in ("t", "dontcare", "sink")]
    resources = {t: rng.randint(1, 3) for t in used if rng.random() < 0.5 or t in ("in", "out")}
    given = {x: rng.randint(0, 5) for x, o in g.ops.items() if isinstance(o, so.Input) and rng.random() < 0.5}
    delta = {x: rng.randint(0, 4) for x, o in g.ops.items() if isinstance(o, so.Output) and rng.random() < 0.5}
    reads = writes = None
    if name == "reads and writes":
        reads, writes, given, delta = rng.choice([None, 3, 4, 5, 6]), rng.choice([None, 4, 3, 2]), {}, {}
        make = lambda: HybridScheduler(max_resources=dict(resources), max_concurrent_reads=reads, max_concurrent_writes=writes)
    elif name == "list":
        order = tuple((rng.randint(1, 4), rng.random() < 0.5) for _ in range(rng.randint(1, 3)))
        make = lambda: ListScheduler(order, max_resources=dict(resources), input_times=given, output_delta_times=delta)
    else:
        make = lambda: LIST[name](max_resources=dict(resources), input_times=given, output_delta_times=delta)
    sch, err = run(make, sfg, T, cyclic)
    if T and T >= 100 and not (given or delta or reads or writes):
        vc.prove("with enough time and no times requested there is a schedule", err is None, lambda: f"{err} T={T} cyclic={cyclic} resources={resources}")
    if err is not None or sch.schedule_time == 0:
        vc.assume(False)
    show = lambda: f"T={T}->{sch.schedule_time} start {dict(sch.start_times)} given {given} delta {delta}"
    feasible(vc, g, sch)
    limits(vc, sch, resources, reads, writes, T)
    vc.prove("the schedule time requested", T is None or sch.schedule_time == T, show)
    honoured(vc, g, sch, given, delta, show)


@contract(P, "list scheduling with limited memory accesses", cases=("reads", "writes", "both"), kind="bounded", n=500, n_thorough=6000,
          bound="random graphs of up to 9 negations, additions and subtractions and up to 2 delays, latencies 1 to 5, cyclic schedules with a given schedule time of 4 to 16",
          targets=[S + "ListScheduler._op_satisfies_concurrent_writes", S + "ListScheduler._op_satisfies_concurrent_reads", S + "ListScheduler._update_port_reads"])
def h_accesses(vc, what):
    rng = random.Random(vc.seed("s"))
    while True:
        sfg = gen.graph(rng, types=[co.Negation, co.Negation, co.Addition, co.Subtraction], n_ops=(2, 9), n_in=(1, 2), n_delays=(0, 2) if rng.random() < 0.5 else (0, 0), dontcare=0, sinks=0, constants=0, real=True, initial=False)
        if all(d < 20 for d in delays(sfg)):
            break
    for t in ("neg", "add", "sub"):
        if t in sfg.get_used_type_names():
            sfg.set_latency_of_type_name(t, rng.randint(1, 5))
            sfg.set_execution_time_of_type_name(t, 1)
    T = rng.randint(4, 16)
    resources = {t: rng.randint(1, 3) for t in sfg.get_used_type_names() if t != "t"} | {"out": 9, "in": 2}
    reads = rng.choice([2, 2, 3]) if what != "writes" else None
    writes = rng.choice([1, 1, 2]) if what != "reads" else None
    sch, err = run(lambda: HybridScheduler(max_resources=dict(resources), max_concurrent_reads=reads, max_concurrent_writes=writes), sfg, T, True)
    vc.assume(err is None)
    feasible(vc, Graph(sfg), sch)
    limits(vc, sch, resources, reads, writes, T)


@contract(P, "recursive list scheduler", kind="bounded", n=600, n_thorough=3000, bound="random graphs of up to 9 operations and 3 delays, latencies 1 to 5, execution times up to 3, one to three units of each kind",
          targets=[S + "RecursiveListScheduler.apply_scheduling", S + "RecursiveListScheduler._retime_ops", S + "RecursiveListScheduler._align_laps", S + "RecursiveListScheduler._schedule_recursive_ops"])
def h_recursive(vc):
    rng = random.Random(vc.seed("s"))
    sfg = random_graph(rng, positive=True)
    g = Graph(sfg)
    used = [t for t in sfg.get_used_type_names() if t not in ("t", "dontcare", "sink")]
    resources = {t: rng.randint(1, 3) for t in used if rng.random() < 0.5 or t in ("in", "out")}
    given = {x: rng.randint(0, 5) for x, o in g.ops.items() if isinstance(o, so.Input) and rng.random() < 0.3}
    delta = {x: rng.randint(0, 4) for x, o in g.ops.items() if isinstance(o, so.Output) and rng.random() < 0.3}
    order = ((rng.randint(1, 4), rng.random() < 0.7),)
    sch, err = run(lambda: RecursiveListScheduler(order, max_resources=dict(resources), input_times=given, output_delta_times=delta), sfg, rng.choice([None, None, rng.randint(5, 25)]), True)
    if err is not None or sch.schedule_time == 0:
        vc.assume(False)
    feasible(vc, g, sch)
    limits(vc, sch, resources)
    honoured(vc, g, sch, given, delta, lambda: f"T={sch.schedule_time} start {dict(sch.start_times)} given {given} delta {delta}")


@contract(P, "integer linear programming scheduler", kind="bounded", n=80, n_thorough=600, bound="random graphs of up to 9 operations and 3 delays", targets=[S + "ILPScheduler.apply_scheduling"])
def h_ilp(vc):
    rng = random.Random(vc.seed("s"))
    sfg = random_graph(rng)
    g = Graph(sfg)
    T = rng.randint(5, 20)
    given = {x: rng.randint(0, 5) for x, o in g.ops.items() if isinstance(o, so.Input)} if rng.random() < 0.3 else {}
    delta = {x: rng.randint(0, 4) for x, o in g.ops.items() if isinstance(o, so.Output)} if rng.random() < 0.3 else {}
    sch, err = run(lambda: ILPScheduler(pulp.PULP_CBC_CMD(msg=0, threads=1), input_times=given or None, output_delta_times=delta or None, max_time=None if rng.random() < 0.7 else T + rng.randint(0, 5)), sfg, T, rng.random() < 0.6)
    if err is not None or sch.schedule_time == 0:
        vc.assume(False)
    feasible(vc, g, sch)
    vc.prove("the schedule time requested", sch.schedule_time == T)
    honoured(vc, g, sch, given, delta, lambda: f"T={sch.schedule_time} start {dict(sch.start_times)} given {given} delta {delta}")


# --- the steps of the list schedulers ------------------------------------------------------------------------------------------------
# The invariant kept by placing operations one by one: every connection between placed operations, counted through its delays, has as many laps
# as the iterations (op_laps) of its ends differ, less one when the value becomes available after the period.  Contracts on internal functions are
# only stated while these exist with their present parameters; the contracts above hold the schedulers to the same guarantees from outside.


def has(cls, name, *parameters):
    f = getattr(cls, name, None)
    return f is not None and tuple(inspect.signature(f).parameters) == ("self", *parameters)


INTERNAL = has(Schedule, "_place_operation", "op", "time", "op_laps") and has(ListScheduler, "_op_satisfies_data_dependencies", "op", "schedule_time")
STEP = tuple((s, T) for s in ("fork", "twoport", "iir", "iir2", "fir", "ahead", "ring") for T in (1, 3))
STEP_MORE = tuple((s, T) for s in ("fork", "twoport", "iir", "iir2", "fir", "ahead", "ring", "pair", "constant") for T in (2, 4, 5))


def iterations(vc, sch, op_laps, source, destination, k):
    a = sch._start_times[source] + k.latency_offset
    return op_laps[destination] - op_laps[source] - vc.ite(a > sch._schedule_time, 1, 0)


def partial(vc, shape, T):
    """Some of the operations placed at any time in any iteration, such that the invariant holds."""
    sfg = SHAPES[shape]()
    for op in sfg.operations:
        if not isinstance(op, (*IO, so.Delay)):
            op.set_latency_offsets({f"in{k}": 0 for k in range(op.input_count)} | {f"out{k}": 1 for k in range(op.output_count)})
    sch = Schedule(sfg, ASAPScheduler(), schedule_time=20, cyclic=True)
    give_latencies(vc, sfg)
    g = Graph(sfg)
    sch._sfg, sch._schedule_time, sch._start_times = sfg, T, {}
    sch._laps.clear()
    op_laps = {}
    names = sorted(g.ops)
    subsets = [[x for i, x in enumerate(names) if m >> i & 1] for m in range(2 ** len(names) - 1)]
    placed = vc.choice("placed", [p for p in subsets if all(d or s in p for (y, _), (s, _, d) in g.edges.items() if y in p)])
    for x in placed:
        sch._start_times[x] = vc.int(f"start {x}", 0, T - 1)
        op_laps[x] = vc.int(f"iteration {x}", 0, None if vc.symbolic else 3)
    for (y, i), (s, k, d) in g.edges.items():
        if y in placed and s in placed:
            sch._laps[g.ops[y].input(i).signals[0].graph_id] = iterations(vc, sch, op_laps, s, y, g.ops[s].output(k))
    rest = [x for x in names if x not in placed]
    return sch, g, op_laps, vc.choice("operation", rest)


if INTERNAL:

    @contract(P, "placing an operation keeps all paths aligned", cases=STEP, more_cases=STEP_MORE, kind="shape", n=60, n_thorough=600, bound="the listed graphs, schedule times 1 and 3 (thorough also 2, 4, 5); any placed operations, times, iterations and latencies",
              targets=[B + "_place_operation", B + "_update_laps", S + "ListScheduler._op_satisfies_data_dependencies"])
    def h_place(vc, case):
        shape, T = case
        sch, g, op_laps, x = partial(vc, shape, T)
        now = vc.int("now", 0, None if vc.symbolic else 12)
        old = dict(sch._start_times)
        lists = ListScheduler.__new__(ListScheduler)
        lists._schedule, lists._op_laps, lists._current_time = sch, op_laps, now
        lists._remaining_ops = [y for y in g.ops if y not in old]
        lists._remaining_ops_set = set(lists._remaining_ops)
        ready = lists._op_satisfies_data_dependencies(g.ops[x], T)
        before = {(x, i): (s, k, d) for (y, i), (s, k, d) in g.edges.items() if y == x}
        known = all(s in old or d for s, k, d in before.values())
        met = [old[s] + op_laps[s] * T + g.out(s, k) - d * T <= now + g.inn(x, i) for (_, i), (s, k, d) in before.items() if s in old]
        vc.prove("ready exactly when all undelayed operands are computed and no operand comes too late", lambda: vc.and_(*met) if ready and known else vc.or_(not known, *[vc.not_(m) for m in met]) if not ready else False)
        if not known:
            return
        sch._place_operation(g.ops[x], now, op_laps)
        show = lambda: f"T={T} placed {old} {x} at {now} start {dict(sch._start_times)} iterations {op_laps} laps {dict(sch._laps)}"
        t = sch._start_times[x]
        vc.prove("placed in the time step", lambda: vc.and_(t >= 0, t <= T, vc.eq((now - t) % T, 0), t < T if not isinstance(g.ops[x], so.Output) else True), show)
        vc.prove("nothing else moves", lambda: vc.and_(set(sch._start_times) == {*old, x}, *[vc.eq(sch._start_times[y], v) for y, v in old.items()]))
        at = dict(op_laps)
        at[x] = (now - t) // T
        for (y, i), (s, k, d) in g.edges.items():
            if s in sch._start_times and y in sch._start_times:
                p = g.ops[s].output(k)
                laps = sch._laps[g.ops[y].input(i).signals[0].graph_id]
                vc.prove(f"{s}->{y}: laps", lambda: vc.eq(laps, iterations(vc, sch, at, s, y, p)), show)
                if ready and y == x:
                    a, u = sch._start_times[s] + p.latency_offset, t + g.inn(x, i)
                    vc.prove(f"{s}->{y}: available in time", lambda: u + (laps + d + vc.ite(a > T, 1, 0)) * T >= a, show)


if has(Schedule, "_execution_times_in_time", "op_type", "time"):

    @contract(P, "executions at once are counted across the period", cases=tuple((s, T) for s in ("chain", "loop") for T in (1, 3)), more_cases=tuple((s, T) for s in ("chain", "fork", "loop", "twoport") for T in (2, 4, 5)), kind="shape", n=40, n_thorough=400,
              bound="the listed graphs, schedule times 1 and 3 (thorough also 2, 4, 5); any start times, execution times up to three periods", targets=[B + "_execution_times_in_time"])
    def h_executions(vc, case):
        shape, T = case
        sch = sc.draw(vc, shape, T)
        for op in sc.ops(sch):
            op.execution_time = vc.int(f"execution time {op.graph_id}", 0, 3 * T)
        at = vc.int("time", 0, T - 1)
        for kind in {type(op) for op in sc.ops(sch)}:
            count = sum(vc.ite(vc.and_(k < op.execution_time, vc.eq((sch.start_times[op.graph_id] + k - at) % T, 0)), 1, 0) for op in sc.ops(sch) if isinstance(op, kind) for k in range(3 * T))
            vc.prove("number of executions in a time step", lambda: vc.eq(sch._execution_times_in_time(kind, at), count), lambda: f"{kind} at {at} T={T} start {dict(sch.start_times)} { {op.graph_id: op.execution_time for op in sc.ops(sch)} }")


if has(ListScheduler, "_op_satisfies_resource_constraints", "op") and {"_cached_execution_times_in_time", "_remaining_resources", "_current_time"} <= set(ListScheduler.__slots__):

    @contract(P, "an operation is only ready when a unit is free while it executes", cases=((1, 1), (1, 3), (3, 1), (3, 3), (3, 5), (None, 1), (None, 4)), kind="shape", n=30, n_thorough=300, bound="schedule times 1, 3 and none; execution times up to 5; any usage and number of units",
              targets=[S + "ListScheduler._op_satisfies_resource_constraints"])
    def h_free(vc, case):
        T, execution = case
        sfg = SHAPES["chain"]()
        op = next(o for o in sfg.operations if isinstance(o, co.Negation))
        op.execution_time = execution
        lists = ListScheduler.__new__(ListScheduler)
        lists._schedule = Schedule.__new__(Schedule)
        lists._schedule._schedule_time = T
        now = vc.choice("now", [0, 1, 2, 7])
        slots = [(now + k) % T if T else now + k for k in range(execution)]
        used = {t: vc.int(f"used {t}", 0, None if vc.symbolic else 3) for t in sorted(set(slots))}
        lists._cached_execution_times_in_time = collections.defaultdict(lambda: collections.defaultdict(int))
        lists._cached_execution_times_in_time[co.Negation].update(used)
        units = vc.int("units", 1, None if vc.symbolic else 3)
        lists._remaining_resources = {co.Negation: units}
        lists._current_time = now
        free = lists._op_satisfies_resource_constraints(op)
        vc.prove("free exactly when every time step has a unit left", lambda: vc.and_(*[n < units for n in used.values()]) if free else vc.or_(*[n >= units for n in used.values()]))
