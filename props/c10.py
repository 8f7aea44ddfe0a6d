"""C10: memory variables and operator processes of a schedule, and splitting of memory variables."""
import random

import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.utility_operations as uo
from b_asic.process import MemoryInputPort, MemoryOutputPort, MemoryVariable, OperatorProcess, PlainMemoryVariable, Process
from b_asic.resources import ProcessCollection
from pv import sched as sc
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("start times, latencies, laps, execution times, lifetimes and the split length are arbitrary integers; the graph, the schedule time and (for chains) the maximum length are fixed per "
               "case, and chains are unrolled to a stated number of segments")
P = "C10"
S = "b_asic.schedule:Schedule."
C = "b_asic.resources:ProcessCollection."
M = "b_asic.process:"

CASES = [(s, t) for s in sc.SHAPES for t in (1, 3)] + [(s, 4) for s in ("fork", "loop", "selfloop")]
MORE = [(s, t) for s in sc.SHAPES for t in (1, 2, 3, 4, 5, 7, 8) if (s, t) not in CASES]


def observed(sig):
    """Is the signal a stored value's read: not the value of a don't-care, not read by a sink."""
    return not isinstance(sig.source.operation, uo.DontCare) and not isinstance(sig.destination.operation, uo.Sink)


@contract(P, "memory variables of a schedule", cases=CASES, more_cases=MORE, kind="shape", n=40, n_thorough=400,
          bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7, 8); latencies, start times and laps arbitrary",
          targets=[S + "get_memory_variables", S + "_get_memory_variables_list", S + "_forward_slacks", S + "_output_slacks", M + "MemoryVariable.__init__", M + "MemoryProcess.__init__",
                   M + "MemoryProcess.read_times", M + "MemoryVariable.reads", M + "MemoryVariable.read_ports", M + "MemoryVariable.write_port"])
def h_variables(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T, cyclic=vc.choice("cyclic", [True, False]))
    before = (dict(sch.start_times), dict(sch.laps))
    col = vc.no_error("extracting the memory variables", sch.get_memory_variables)
    if col is None:
        return
    vc.prove("schedule time of the collection", col.schedule_time == T)
    by_port = {}
    for v in col:
        by_port.setdefault(v.write_port, []).append(v)
    for op in sc.ops(sch):
        for p in op.outputs:
            sigs = [s for s in p.signals if observed(s)]
            vs = by_port.pop(p, [])
            if isinstance(op, uo.DontCare) or not sigs:
                vc.prove(f"at most one variable for {p.name}", len(vs) <= 1)
                continue
            vc.prove(f"exactly one variable for {p.name}", len(vs) == 1)
            if len(vs) != 1:
                continue
            v = vs[0]
            a = sc.avail(sch, sigs[0])
            vc.prove(f"{p.name}: named after the port", v.name == p.name)
            vc.prove(f"{p.name}: starts in the period", lambda: vc.and_(v.start_time >= 0, v.start_time < T))
            vc.prove(f"{p.name}: starts when the value becomes available", lambda: vc.eq((v.start_time - a) % T, 0), lambda: f"{v.start_time} {a} T={T}")
            reads = {q: t for q, t in v.reads.items() if not isinstance(q.operation, uo.Sink)}
            vc.prove(f"{p.name}: read by exactly the readers of the port", set(reads) == {s.destination for s in sigs} and list(v.reads) == v.read_ports)
            for s in sigs:
                vc.prove(f"{p.name}: the read of {s.destination.operation.graph_id} ends when it is used", lambda: vc.eq(v.reads[s.destination], sc.slack(vc, sch, s)),
                         lambda: f"{v.reads[s.destination]} {sc.slack(vc, sch, s)}")
            lives = [sc.slack(vc, sch, s) for s in p.signals]
            vc.prove(f"{p.name}: lasts until the last read", lambda: vc.eq(v.execution_time, vc.max(lives)))
            vc.prove(f"{p.name}: lifetimes are those of the reads", lambda: vc.and_(len(v.life_times) == len(v.reads), *[vc.eq(x, y) for x, y in zip(v.life_times, v.reads.values())]))
            vc.symbolic_keys()
            rt = v.read_times
            vc.prove(f"{p.name}: read times", lambda: vc.and_(*[vc.or_(*[vc.eq(t, v.start_time + x) for t in rt]) for x in lives], *[vc.or_(*[vc.eq(t, v.start_time + x) for x in lives]) for t in rt]))
    vc.prove("no variable without a port of the schedule", not by_port)
    vc.prove("the schedule is left alone", lambda: vc.and_(*[vc.eq(sch.start_times[k], x) for k, x in before[0].items()], *[vc.eq(sch.laps[k], x) for k, x in before[1].items()]))


@contract(P, "operator processes of a schedule", cases=CASES, more_cases=MORE, kind="shape", n=30, n_thorough=300,
          bound="graphs of the library of shapes, schedule times 1, 3, 4 (thorough: 1-5, 7, 8); latencies, execution times, start times and laps arbitrary",
          targets=[S + "get_operations", M + "OperatorProcess.__init__", C + "get_by_type_name", C + "split_on_type_name", C + "from_name"])
def h_operators(vc, case):
    shape, T = case
    sch = sc.draw(vc, shape, T)
    ex = {}
    for op in sc.ops(sch):
        ex[op] = vc.int(f"execution({op.graph_id})", 0, None if vc.symbolic else 9)
        op.execution_time = ex[op]
    col = vc.no_error("extracting the operator processes", sch.get_operations)
    if col is None:
        return
    want = [op for op in sc.ops(sch) if not isinstance(op, (uo.DontCare, uo.Sink))]
    got = {}
    for p in col:
        got.setdefault(p.operation, []).append(p)
    vc.prove("exactly one process per executed operation", set(got) == set(want) and all(len(x) == 1 for x in got.values()), lambda: f"{col!r}")
    vc.prove("schedule time of the collection", col.schedule_time == T)
    for op in want:
        for p in got.get(op, ())[:1]:
            vc.prove(f"{op.graph_id}: starts when the operation starts", lambda: vc.eq((p.start_time - sch.start_times[op.graph_id]) % T, 0))
            vc.prove(f"{op.graph_id}: lasts the execution time", lambda: vc.eq(p.execution_time, ex[op]))
            vc.prove(f"{op.graph_id}: name and type", p.name == (op.name or op.graph_id) and p.type_name == op.type_name())
            vc.prove(f"{op.graph_id}: found by name", [q for q in col if q.name == p.name] != [p] or col.from_name(p.name) is p)
    types = {op.type_name() for op in want}
    vc.prove("grouped by type", {t: {p.operation for p in g} for t, g in col.split_on_type_name().items()} == {t: {o for o in want if o.type_name() == t} for t in types})
    vc.prove("selected by type", all({p.operation for p in col.get_by_type_name(t)} == {o for o in want if o.type_name() == t} for t in types))


@contract(P, "an operation without execution time", n=1, targets=[S + "get_operations", M + "OperatorProcess.__init__"])
def h_no_execution_time(vc):
    sch = sc.draw(vc, "chain", 3)
    for op in sc.ops(sch):
        op.execution_time = vc.int(f"execution({op.graph_id})", 0, 3) if isinstance(op, (so.Input, so.Output)) else None
    _, err = vc.raises(sch.get_operations, exc=ValueError)
    vc.prove("refused", err is not None)


# ------------------------------------------------------------------ splitting
def variable(vc, tag, n, T, plain=False, hi=None, zero=True):
    """A memory variable with n reads of arbitrary lifetimes."""
    start = vc.int(f"{tag}.start", 0, T)
    lives = [vc.int(f"{tag}.life{k}", 0, hi if hi is not None else (None if vc.symbolic else 12)) for k in range(n)]
    if plain:
        return PlainMemoryVariable(start, 0, dict(enumerate(lives)), tag)
    x = so.Input(tag)
    readers = [co.Negation(x) for _ in range(n)]
    return MemoryVariable(start, x.output(0), {r.input(0): t for r, t in zip(readers, lives)}, tag)


@contract(P, "splitting one variable by lifetime", cases=[(n, plain) for n in (1, 2, 3) for plain in (False, True)], n=60,
          targets=[M + "MemoryProcess.split_on_length", M + "MemoryVariable.split_on_length", M + "PlainMemoryVariable.split_on_length"])
def h_split_one(vc, case):
    n, plain = case
    v = variable(vc, "v", n, 8, plain)
    length = vc.int("length", *((None, None) if vc.symbolic else (-2, 13)))
    orig = dict(v.reads)
    short, long = v.split_on_length(length)
    vc.prove("the variable is left alone", lambda: vc.and_(list(v.reads) == list(orig), *[vc.eq(v.reads[k], t) for k, t in orig.items()]))
    check_split(vc, v, orig, [short] if short else [], [long] if long else [], length)


def check_split(vc, v, orig, short, long, length):
    for parts, name in ((short, "short"), (long, "long")):
        vc.prove(f"at most one {name} part", len(parts) <= 1)
        for q in parts:
            vc.prove(f"{name} part keeps the start time, write port and name", lambda: vc.and_(vc.eq(q.start_time, v.start_time), q.write_port is v.write_port or q.write_port == v.write_port, q.name == v.name, type(q) is type(v)))
            vc.prove(f"{name} part is not empty and lasts until its last read", lambda: vc.and_(len(q.reads) > 0, vc.eq(q.execution_time, vc.max(list(q.reads.values())))))
            vc.prove(f"{name} part respects the length", lambda: vc.and_(*[(t <= length) if parts is short else (t > length) for t in q.reads.values()]), lambda: f"{q!r} length {length}")
            vc.prove(f"{name} part keeps lifetimes", lambda: vc.and_(*[(k in orig) and vc.eq(orig[k], t) for k, t in q.reads.items()]))
    ports = [k for q in short + long for k in q.reads]
    vc.prove("every read is in exactly one part", len(ports) == len(orig) and set(ports) == set(orig), lambda: f"{v!r} -> {short} {long}")


@contract(P, "splitting a collection by lifetime", cases=[(1, 2), (2, 2), (3, 1)], more_cases=[(3, 3), (4, 2)], n=60, n_thorough=400, max_paths=4000,
          targets=[C + "split_on_length", M + "MemoryProcess.split_on_length"])
def h_split_collection(vc, case):
    a, b = case
    T = 8
    vs = [variable(vc, "v", a, T), variable(vc, "w", b, T, plain=True)]
    ops = [Process(vc.int("p.start", 0, T), vc.int("p.execution", 0, None if vc.symbolic else 9), "p")]
    col = ProcessCollection([*vs, *ops], T, True)
    length = vc.int("length", *((None, None) if vc.symbolic else (-2, 13)))
    short, long = col.split_on_length(length)
    vc.prove("schedule time kept", short.schedule_time == T and long.schedule_time == T)
    vc.prove("collection left alone", list(col) == [*vs, *ops])
    for v in vs:
        check_split(vc, v, dict(v.reads), [q for q in short if q.name == v.name], [q for q in long if q.name == v.name], length)
    for p in ops:
        vc.prove("a process is in the part its length says", lambda: vc.ite(p.execution_time <= length, 1, 0) == (1 if p in short else 0))
        vc.prove("a process is in one part", [*short, *long].count(p) == 1)
    vc.prove("nothing else", len(short) + len(long) <= 2 * len(vs) + len(ops))


CH = [(T, m, n) for T, m in ((4, 4), (4, 2), (5, 3), (3, 5), (6, 1)) for n in (1, 2)] + [(4, None, 2)]
CHM = [(T, m, n) for T in (1, 2, 4, 6, 7) for m in (1, 2, 3, 4, 7, None) for n in (1, 2, 3)]


@contract(P, "splitting into chains", cases=CH, more_cases=[c for c in CHM if c not in CH], kind="shape", n=60, n_thorough=200, max_paths=4000,
          bound="schedule time and maximum length fixed per case, 1-3 reads, lifetimes up to 3.. segments; start times and lifetimes arbitrary",
          targets=[C + "split_into_chains", M + "MemoryProcess.root_write_port", M + "MemoryOutputPort.__init__", M + "MemoryInputPort.__init__"])
def h_chains(vc, case):
    T, m, n = case
    length = T if m is None else m
    v = variable(vc, "v", n, T, hi=3 * length + 1)
    w = variable(vc, "w", 1, T, hi=length)
    p = Process(vc.int("p.start", 0, T), vc.int("p.execution", 0, None if vc.symbolic else 9), "p")
    orig = dict(v.reads)
    col = ProcessCollection([v, w, p], T, True)
    out = vc.no_error("splitting into chains", lambda: col.split_into_chains() if m is None else col.split_into_chains(m))
    if out is None:
        return
    vc.prove("collection left alone", lambda: vc.and_(list(col) == [v, w, p], list(v.reads) == list(orig), *[vc.eq(v.reads[k], t) for k, t in orig.items()]))
    vc.prove("schedule time kept", out.schedule_time == T)
    vc.prove("processes that need no chain are kept", list(out).count(w) == 1 and list(out).count(p) == 1)
    chain = [q for q in out if q is not w and q is not p]
    first = [q for q in chain if not isinstance(q.write_port, MemoryOutputPort)]
    vc.prove("one segment starts at the port", len(first) == 1 and first[0].write_port is v.write_port, lambda: f"{chain}")
    if len(first) != 1:
        return
    vc.prove("the segments have distinct names", len({q.name for q in out}) == len(out))
    seg, age, seen, reads = first[0], 0, [], []
    vc.prove("the first segment starts when the variable does", lambda: vc.eq((seg.start_time - v.start_time) % T, 0))
    while seg is not None:
        seen.append(seg)
        vc.prove("segment starts when the previous one hands over, in the period", lambda: vc.and_(vc.eq((seg.start_time - v.start_time - age) % T, 0), seg.start_time >= 0, vc.or_(seg.start_time < T, seg is v)),
                 lambda: f"{v!r} -> {chain}")
        vc.prove("segment respects the length", lambda: vc.and_(*[vc.and_(t <= length, t >= 0) for t in seg.reads.values()], seg.execution_time <= length), lambda: f"{v!r} -> {chain}")
        vc.prove("segment comes from the port", seg.root_write_port is v.write_port)
        relays = [(k, t) for k, t in seg.reads.items() if isinstance(k, MemoryInputPort)]
        reads += [(k, t + age) for k, t in seg.reads.items() if not isinstance(k, MemoryInputPort)]
        vc.prove("at most one hand-over", len(relays) <= 1)
        if not relays:
            break
        k, t = relays[0]
        nxt = k.destination_variable
        vc.prove("the next segment is written by this one", nxt in chain and nxt not in seen and isinstance(nxt.write_port, MemoryOutputPort) and nxt.write_port.source_variable is seg, lambda: f"{v!r} -> {chain}")
        if nxt in seen or nxt not in chain:
            return
        seg, age = nxt, age + t
    vc.prove("every segment is in the chain", len(seen) == len(chain))
    vc.prove("every read is in exactly one segment", len(reads) == len(orig) and {k for k, _ in reads} == set(orig), lambda: f"{v!r} -> {chain}")
    for k, t in reads:
        if k in orig:
            vc.prove("every read happens at its original time", lambda: vc.eq(t, orig[k]), lambda: f"{v!r} -> {chain}")


@contract(P, "a plain variable cannot be chained", n=30, targets=[C + "split_into_chains"])
def h_plain_chain(vc):
    v = variable(vc, "v", 2, 4, plain=True)
    col = ProcessCollection([v], 4)
    out, err = vc.raises(col.split_into_chains, exc=TypeError)
    vc.prove("refused exactly when too long", lambda: vc.implies(v.execution_time > 4, err is not None) if err is None else v.execution_time > 4)
    vc.prove("otherwise kept", err is not None or list(out) == [v])


# ------------------------------------------------------------------ whole schedules, concrete
@contract(P, "values are in storage exactly between writing and reading", cases=[(s, t) for s in sc.SHAPES for t in (2, 5)], more_cases=[(s, t) for s in sc.SHAPES for t in (1, 3, 8)],
          kind="bounded", n=20, n_thorough=300, bound="random schedules of the library of shapes; three periods are unrolled and every consumption is looked up in the variables' lifetimes",
          targets=[S + "get_memory_variables", C + "split_into_chains", C + "split_on_length", C + "total_execution_times"])
def h_unrolled(vc, case):
    shape, T = case
    rng = random.Random(vc.seed("schedule"))
    sch = sc.random_schedule(rng, shape, T)
    col = sch.get_memory_variables()
    m = rng.choice([None, 1, 2, T, T + 1])
    length = rng.randint(-1, 2 * T)
    short, long = col.split_on_length(length)
    for name, parts in (("unsplit", [col]), ("chained", [col.split_into_chains(m)]), ("split by length", [short, long])):
        reads = {}
        for part in parts:
            for v in part:
                if isinstance(v.write_port, MemoryOutputPort):
                    continue
                seg, age = v, 0
                while seg is not None:
                    nxt = None
                    for q, t in seg.reads.items():
                        if isinstance(q, MemoryInputPort):
                            nxt = (q.destination_variable, age + t)
                        else:
                            reads.setdefault(q, []).append((v.write_port, v.start_time, age + t))
                    seg, age = nxt if nxt else (None, 0)
        for s in sc.signals(sc.graph(sch)):
            if not observed(s):
                continue
            got = reads.get(s.destination, [])
            vc.prove(f"{name}: one entry per read", len(got) == 1 and got[0][0] is s.source, lambda: f"{s.destination.name}: {got}")
            for _, start, age in got:
                vc.prove(f"{name}: read when the consumer reads it", (start + age - sc.usage(sch, s)) % T == 0, lambda: f"{start}+{age} {sc.usage(sch, s)} T={T}")
        total = {t: 0 for t in range(T)}
        for part in parts:
            for v in part:
                for k in range(v.execution_time):
                    total[(v.start_time + k) % T] += 1
            vc.prove(f"{name}: numbers of variables alive", part.total_execution_times() == {t: c for t, c in sorted({t: sum(1 for v in part for k in range(v.execution_time) if (v.start_time + k) % T == t) for t in range(T)}.items()) if c})
