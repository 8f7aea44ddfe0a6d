"""C19: architectures: assignment of operations and variables to resources, acceptance, interconnect and changes."""
import collections
import itertools
import random

import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.utility_operations as uo
import pulp
from b_asic.architecture import Architecture, Memory, ProcessingElement
from b_asic.process import MemoryOutputPort, MemoryVariable, OperatorProcess
from b_asic.resource_assigner import assign_processing_elements_and_memories
from b_asic.resources import ProcessCollection
from b_asic.schedule import Schedule
from b_asic.scheduler import ASAPScheduler
from b_asic.list_schedulers import HybridScheduler
from props import c09, c11
from pv import sched as sc
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ""
P = "C19"
A = "b_asic.architecture:"
R = "b_asic.resource_assigner:"
IGNORED = (uo.DontCare, uo.Sink)


# --- what an architecture has to do, read from the schedule's graph ----------------------------------------------


def values(vc, sch):
    """(producer, output) -> {(consumer, input): time units between availability and use}."""
    res = {}
    for op in sc.graph(sch).operations:
        if isinstance(op, IGNORED):
            continue
        for p in op.outputs:
            res[op.graph_id, p.index] = {(s.destination.operation.graph_id, s.destination.index): sc.slack(vc, sch, s) for s in p.signals if not isinstance(s.destination.operation, uo.Sink)}
    return {k: v for k, v in res.items() if v}


def key(port):
    return port.operation.graph_id, port.index


def real_reads(v):
    """Reads by operations (not by a following variable of a chain, not by a sink)."""
    return {p: t for p, t in v.reads.items() if hasattr(p, "operation") and not isinstance(p.operation, uo.Sink)}


def next_reads(v):
    return {p: t for p, t in v.reads.items() if not hasattr(p, "operation")}


def stored(v):
    """Is the variable a value of the architecture (not a don't care)?"""
    return not isinstance(v.root_write_port.operation, uo.DontCare)


def elements_serve(vc, sch, pes):
    T = sch.schedule_time
    want = collections.Counter(x for x in sch.start_times if not isinstance(sc.graph(sch).find_by_id(x), IGNORED))
    vc.prove("every operation is in exactly one processing element", collections.Counter(p.operation.graph_id for e in pes for p in e.collection) == want)
    for e in pes:
        vc.prove("the period of the schedule", e.schedule_time == T)
        ops = [sc.graph(sch).find_by_id(p.operation.graph_id) for p in e.collection]
        vc.prove("one type of operation per processing element", len({type(o) for o in ops}) == 1 and e.operation_type == type(ops[0]) and (e.input_count, e.output_count) == (ops[0].input_count, ops[0].output_count))
        busy = collections.Counter((sch.start_times[o.graph_id] + i) % T for o in ops for i in range(o.execution_time or 0))
        vc.prove("one operation at a time", max(busy.values(), default=0) <= 1, lambda: str(busy))
        vc.prove("start times", all(p.start_time == sch.start_times[p.operation.graph_id] for p in e.collection))


def memories_serve(vc, sch, mems, direct):
    """Every read of every value is served once, at its time: directly, or from a memory (possibly through a chain)."""
    T = sch.schedule_time
    direct = list(direct or [])
    where = {id(v): m for m in mems for v in m.collection}
    got = {}
    for v in [v for m in mems for v in m.collection] + direct:
        if not stored(v):
            continue
        first, before = v, 0
        while isinstance(first.write_port, MemoryOutputPort):
            s = first.write_port.source_variable
            vc.prove("a chain continues a stored variable", id(s) in where)
            hand = [t for p, t in next_reads(s).items() if p.destination_variable is first]
            vc.prove("the next memory takes the value when the previous one gives it", len(hand) == 1 and (s.start_time + hand[0] - first.start_time) % T == 0)
            first, before = s, before + hand[0]
        k = key(v.root_write_port)
        op = sc.graph(sch).find_by_id(k[0])
        a = sch.start_times[k[0]] + op.outputs[k[1]].latency_offset
        vc.prove("a variable starts when its value is available", (first.start_time - a) % T == 0)
        for p, t in real_reads(v).items():
            vc.prove("each read is served once", (k, key(p)) not in got)
            got[k, key(p)] = before + t
        if id(v) not in where:
            vc.prove("direct interconnect only for values used when available", all(t == 0 for t in v.reads.values()))
        else:
            vc.prove("memories hold values that are not used when available", all(t > 0 for t in v.reads.values()))
            vc.prove("no value is stored longer than the period", all(t <= T for t in v.reads.values()))
        for p, t in next_reads(v).items():
            vc.prove("the following variable of a chain is stored", id(p.destination_variable) in where and p.destination_variable.write_port.source_variable is v)
    want = {(k, r): t for k, v in values(vc, sch).items() for r, t in v.items()}
    vc.prove("every read of every value is served when the value is needed", got == want, lambda: f"{got} instead of {want}")


def within_ports(vc, T, variables, read=None, write=None, total=None):
    w = collections.Counter(v.start_time % T for v in variables)
    r = collections.Counter(t % T for v in variables for t in {v.start_time + x for x in v.reads.values()})
    for t in range(T):
        vc.prove("no more writes than ports", write is None or w[t] <= write, lambda: f"{w[t]} at {t}")
        vc.prove("no more reads than ports", read is None or r[t] <= read, lambda: f"{r[t]} at {t}")
        vc.prove("no more accesses than ports", total is None or w[t] + r[t] <= total, lambda: f"{w[t]}+{r[t]} at {t}")


def connections(arch):
    """Connections between ports of resources and how many values use each; computed from the processes alone."""
    pe = {p.operation.graph_id: e for e in arch.processing_elements for p in e.collection}
    use = collections.defaultdict(set)
    for m in arch.memories:
        for v in m.collection:
            if not stored(v):
                continue
            if isinstance(v.write_port, MemoryOutputPort):
                s = v.write_port.source_variable
                src, = [n for n in arch.memories if any(x is s for x in n.collection)]
                use[src, 0, m, 0].add(("chain", id(v)))
            else:
                k = key(v.write_port)
                use[pe[k[0]], k[1], m, 0].add(("write", k, id(v)))
            for p in real_reads(v):
                use[m, 0, pe[p.operation.graph_id], p.index].add(("read", key(p)))
    for v in arch.direct_interconnects or []:
        if stored(v):
            for p in real_reads(v):
                k = key(v.write_port)
                use[pe[k[0]], k[1], pe[p.operation.graph_id], p.index].add(("direct", k, key(p)))
    return use


def interconnect(vc, arch):
    use = connections(arch)
    elements, mems = arch.processing_elements, arch.memories
    for e in elements:
        i, o = vc.no_error("connections of a processing element", arch.get_interconnects_for_pe, e)
        vc.prove("by name", arch.get_interconnects_for_pe(e.entity_name) == (i, o))
        vc.prove("one entry per port", len(i) == e.input_count and len(o) == e.output_count)
        for n in range(e.input_count):
            vc.prove("sources of each input and how often they are used", i[n] == {(s, a): len(u) for (s, a, d, b), u in use.items() if d is e and b == n}, lambda: f"{e.entity_name} in{n} {i[n]}")
        for n in range(e.output_count):
            want = {(d, b): len({x[1] for x in u}) for (s, a, d, b), u in use.items() if s is e and a == n}
            vc.prove("destinations of each output and how often they are used", o[n] == want, lambda: f"{e.entity_name} out{n} {o[n]}")
    for m in mems:
        i, o = vc.no_error("connections of a memory", arch.get_interconnects_for_memory, m)
        vc.prove("by name", arch.get_interconnects_for_memory(m.entity_name) == (i, o))
        want_in, want_out = collections.Counter(), collections.Counter()
        for (s, a, d, b), u in use.items():
            if d is m:
                want_in[s] += len(u)
            if s is m and isinstance(d, ProcessingElement):
                want_out[d] += len(u)
        vc.prove("what writes to a memory, and how often", i == dict(want_in), lambda: f"{m.entity_name} {i}")
        vc.prove("what reads from a memory, and how often", {k: n for k, n in o.items() if isinstance(k, ProcessingElement)} == dict(want_out), lambda: f"{m.entity_name} {o}")
    fan = collections.Counter((d, b) for s, a, d, b in use)
    vc.prove("multiplexer inputs", arch.get_multiplexer_input_count() == sum(fan.values()))
    vc.prove("inputs of multiplexers proper", arch.get_multiplexer_input_count(multiplexed_only=True) == sum(n for n in fan.values() if n > 1))


# --- automatic assignment ----------------------------------------------------------------------------------------


def random_schedule(r):
    while True:
        g = c09.random_graph(r)
        same = {}
        for op in g.operations:  # operations of a type share their timing, as one processing element needs
            if isinstance(op, (*c09.IO, so.Delay)):
                continue
            off, ex = same.setdefault(type(op), ({f"in{p.index}": p.latency_offset for p in op.inputs} | {f"out{p.index}": p.latency_offset for p in op.outputs}, op.execution_time))
            op.set_latency_offsets(dict(off))
            op.execution_time = ex
        if all(p.latency_offset in (0, None) for op in g.operations for p in op.outputs):
            continue
        sch, err = c09.run(lambda: HybridScheduler() if r.random() < 0.5 else ASAPScheduler(), g, r.choice([None, None, r.randint(3, 25)]), r.random() < 0.8)
        if sch is not None and sch.schedule_time:
            return sch


def ports(r):
    return r.choice([{"memory_read_ports": 1, "memory_write_ports": 1}, {"memory_read_ports": 1, "memory_write_ports": 1, "memory_total_ports": r.choice([1, 2])}, {"memory_total_ports": 1}])


STRATEGIES = ("left_edge", "greedy_graph_color", "ilp_graph_color", "ilp_min_mux", "ilp_min_mux limited")


@contract(P, "automatic assignment", cases=STRATEGIES, kind="bounded", n=400, n_thorough=3000, bound="random schedules of up to 9 operations and 3 delays; one or two ports per memory",
          targets=[R + "assign_processing_elements_and_memories", R + "_split_operations_and_variables", R + "_ilp_coloring", R + "_ilp_min_mux", R + "_get_assignment_from_coloring", A + "Architecture.__init__",
                   A + "Architecture.validate_ports", A + "Architecture._build_dicts", A + "Architecture.get_interconnects_for_pe", A + "Architecture.get_interconnects_for_memory", A + "Architecture.get_multiplexer_input_count"])
def h_assign(vc, strategy):
    r = random.Random(vc.seed("s"))
    sch = random_schedule(r)
    kw = ports(r)
    total = kw.get("memory_total_ports")
    groups = collections.Counter(sc.graph(sch).find_by_id(x).type_name() for x in sch.start_times if not isinstance(sc.graph(sch).find_by_id(x), IGNORED))
    given = {}
    if r.random() < 0.3:
        n = r.choice(list(groups))
        given["resources"] = {n: r.randint(0, 3)}
    if r.random() < 0.2:
        given["max_mems"] = r.randint(0, 4)
    if strategy == "ilp_min_mux" and r.random() < 0.3:
        given["max_mux_size"] = r.randint(1, 4)
    if strategy == "ilp_min_mux limited":  # few memories, written from several processing elements
        strategy = "ilp_min_mux"
        given |= {"max_mux_size": r.randint(1, 3), "max_mems": r.randint(1, 2)}
    if strategy.startswith("ilp"):
        given["solver"] = pulp.PULP_CBC_CMD(msg=0, threads=1, timeLimit=20)
    res, err = vc.raises(assign_processing_elements_and_memories, sch, strategy=strategy, memory_type=r.choice(["RAM", "register"]), **kw, **given)
    show = lambda: f"T={sch.schedule_time} start={dict(sch.start_times)} {kw} {given} {err!r}"
    if err is not None:
        vc.prove("refused with a reason", isinstance(err, ValueError), show)
        hard = total == 1 or given.keys() & {"resources", "max_mems", "max_mux_size"} or any((op.execution_time or 0) > sch.schedule_time for op in sc.graph(sch).operations)
        vc.prove("refused only if limits are given or an operation executes too long", bool(hard) or any(len({t % sch.schedule_time for t in m.read_times}) < len(m.read_times) for m in sch.get_memory_variables()), show)
        return
    pes, mems, direct = res
    elements_serve(vc, sch, pes)
    memories_serve(vc, sch, mems, direct)
    for m in mems:
        wraps = any(t >= sch.schedule_time for v in m.collection for t in v.read_times)  # see C11's known finding
        within_ports(vc, sch.schedule_time, list(m.collection), 1, 1, None if strategy == "left_edge" and wraps else total)
    for n, k in given.get("resources", {}).items():
        vc.prove("no more processing elements than allowed", strategy == "left_edge" or sum(e.operation_type.type_name() == n for e in pes) <= k, show)
    if "max_mems" in given:
        vc.prove("no more memories than allowed", strategy == "left_edge" or len(mems) <= given["max_mems"], show)
    arch = vc.no_error("architecture of an automatic assignment", Architecture, pes, mems, direct_interconnects=direct)
    interconnect(vc, arch)
    if "max_mux_size" in given:
        fan = collections.Counter((d, b) for s, a, d, b in connections(arch))
        vc.prove("no larger multiplexer than allowed", max(fan.values(), default=0) <= given["max_mux_size"], show)


# --- resources on their own --------------------------------------------------------------------------------------


@contract(P, "processing element of a few operations", kind="shape", cases=[1, 2], more_cases=[3], n=100, targets=[A + "ProcessingElement.__init__", A + "ProcessingElement.assign", A + "Resource.__init__"],
          bound="up to two (thorough: three) operations of one type with arbitrary start and execution times, arbitrary period")
def h_element(vc, n):
    vc.split_quotients(0, 1)
    T = vc.int("T", 1, None if vc.symbolic else 9)
    ps = []
    for k in range(n):
        op = co.Addition(latency=1, execution_time=1)
        op._execution_time = vc.int(f"execution{k}", 1, None if vc.symbolic else 10)
        start = vc.int(f"start{k}", 0, None if vc.symbolic else T - 1)
        vc.assume(start < T)
        ps.append(OperatorProcess(start, op, f"p{k}"))
    e, err = vc.raises(ProcessingElement, ProcessCollection(ps, T), "element")
    clash = vc.or_(*[p.execution_time > T for p in ps], *[c11.overlap(vc, a, b, T) for a, b in itertools.combinations(ps, 2)])
    if err is not None:
        vc.prove("refused only when operations execute at once or too long", isinstance(err, ValueError), lambda: repr(err))
        vc.prove("operations execute at once", clash)
        return
    vc.prove("operations that execute at once are refused", vc.not_(clash))
    vc.prove("the element holds the operations", {id(p) for p in e.processes} == {id(p) for p in ps} and len(e.processes) == n)
    vc.prove("ports of the operations", (e.input_count, e.output_count) == (2, 1) and e.operation_type is co.Addition)


@contract(P, "memory of a few variables", kind="shape", cases=[(1, 1), (2, 1), (1, 2)], n=100, targets=[A + "Memory.__init__", A + "Memory._validate_ports_in_bounds"],
          bound="up to two variables with one read, or one with two, at arbitrary times, arbitrary period and numbers of ports")
def h_memory(vc, case):
    n, reads = case
    vc.symbolic_keys()
    vc.split_quotients(0, 1)
    T, ps = c11.draw(vc, n, reads, full=True)
    r, w, t = (vc.int(k, 1, None if vc.symbolic else 4) for k in ("read", "write", "total"))
    vc.assume(vc.and_(t >= r, t >= w, t <= r + w))
    m, err = vc.raises(Memory, ProcessCollection(ps, T), "RAM", "memory", r, w, t)
    over = []
    one = lambda c: vc.ite(c, 1, 0)
    for x in [p.start_time % T for p in ps] + [q % T for p in ps for q in p.read_times]:
        nw = sum(one(vc.eq(p.start_time % T, x)) for p in ps)
        nr = sum(one(vc.eq(q % T, x)) for p in ps for q in p.read_times)
        over += [nw > w, nr > r, nw + nr > t]
    if err is not None:
        vc.prove("refused only when ports are missing", isinstance(err, ValueError), lambda: repr(err))
        vc.prove("ports are missing", vc.or_(*over))
        return
    vc.prove("too few ports are refused", vc.not_(vc.or_(*over)))
    vc.prove("ports as declared", vc.and_(vc.eq(m.input_count, w), vc.eq(m.output_count, r)))
    vc.prove("the memory holds the variables", {id(p) for p in m} == {id(p) for p in ps})


# --- given partitions: acceptance, interconnect, changes ---------------------------------------------------------


def divide(r, items, k):
    """A partition of the items into up to k non-empty parts."""
    parts = collections.defaultdict(list)
    for x in items:
        parts[r.randrange(k)].append(x)
    return list(parts.values())


def resources(vc, r, sch):
    """An arbitrary conflict-free partition of operations and an arbitrary one of variables."""
    T = sch.schedule_time
    vc.assume(all((op.execution_time or 0) <= T for op in sc.graph(sch).operations))
    pes, n = [], itertools.count()
    for name, group in sch.get_operations().split_on_type_name().items():
        parts = []
        for p in sorted(group, key=lambda p: (p.start_time, p.name)):
            busy = {(p.start_time + i) % T for i in range(p.execution_time)}
            free = [q for q in parts if not any((x.start_time + i) % T in busy for x in q for i in range(x.execution_time))]
            if free and r.random() < 0.6:
                r.choice(free).append(p)
            else:
                parts.append([p])
        pes += [ProcessingElement(ProcessCollection(q, T), entity_name=f"pe{next(n)}") for q in parts]
    direct, stored_ = sch.get_memory_variables().split_on_length()
    keep = [v for v in stored_ if not isinstance(v.write_port.operation, uo.DontCare)]
    if r.random() < 0.2:  # one value in two memories, each giving some of its reads
        for v in list(keep):
            cut = r.randint(1, T)
            if any(t <= cut for t in v.reads.values()) and any(t > cut for t in v.reads.values()):
                keep.remove(v)
                keep += [MemoryVariable(v.start_time, v.write_port, {p: t for p, t in v.reads.items() if (t > cut) is b}, f"{v.name}.{b}") for b in (False, True)]
    keep.sort(key=lambda v: v.name)
    if any(v.execution_time > T for v in keep):
        keep = sorted(ProcessCollection(keep, T).split_into_chains(), key=lambda v: v.name)
    mems = [Memory(ProcessCollection(q, T), entity_name=f"mem{i}") for i, q in enumerate(divide(r, keep, r.randint(1, 4)))]
    return pes, mems, direct


ARCH = [A + "Architecture." + m for m in ("__init__", "validate_ports", "_build_dicts", "_check_and_get_schedule_time", "get_interconnects_for_pe", "get_interconnects_for_memory", "get_multiplexer_input_count", "_build_interconnect_edges", "resource_from_name", "_resolve_resource")]


@contract(P, "given partitions", kind="bounded", n=1200, n_thorough=12000, bound="random schedules of up to 9 operations and 3 delays, any partition into processing elements and up to four memories", targets=ARCH)
def h_given(vc):
    r = random.Random(vc.seed("s"))
    sch = random_schedule(r)
    pes, mems, direct = resources(vc, r, sch)
    elements_serve(vc, sch, pes)
    memories_serve(vc, sch, mems, direct)
    pick = r.choice(["lists", "iterators", "single"])
    if pick == "single" and len(mems) == 1:
        arch = vc.no_error("architecture with a single memory", Architecture, pes, mems[0], direct_interconnects=direct)
    elif pick == "iterators":
        arch = vc.no_error("architecture of iterators", Architecture, iter(pes), iter(mems), direct_interconnects=direct)
    else:
        arch = vc.no_error("architecture", Architecture, pes, mems, direct_interconnects=direct)
    vc.prove("resources as given", list(arch.processing_elements) == pes and list(arch.memories) == mems and arch.schedule_time == sch.schedule_time)
    interconnect(vc, arch)


@contract(P, "incomplete or conflicting partitions are refused", cases=("operation", "operation twice", "variable", "variable twice", "read", "direct", "direct twice", "period", "name"), kind="bounded", n=150, n_thorough=1500,
          bound="random schedules of up to 9 operations and 3 delays, any partition with one fault", targets=ARCH[:4])
def h_refused(vc, fault):
    r = random.Random(vc.seed("s"))
    sch = random_schedule(r)
    T = sch.schedule_time
    pes, mems, direct = resources(vc, r, sch)
    col = lambda xs: ProcessCollection(xs, T)
    stored_ = [v for m in mems for v in m.collection]
    dir_ = [v for v in direct if stored(v) and real_reads(v)]
    used = lambda op: any(s.destination for p in op.outputs for s in p.signals if not isinstance(s.destination.operation, uo.Sink)) or any(not isinstance(p.connected_source.operation, uo.DontCare) for p in op.inputs)
    if fault.startswith("operation"):
        e = r.choice(pes)
        p = r.choice([q for q in e.collection])
        vc.assume(used(p.operation))
        if fault == "operation":
            rest = [q for q in e.collection if q is not p]
            pes = [x for x in pes if x is not e] + ([ProcessingElement(col(rest), "rest")] if rest else [])
        else:
            pes = [*pes, ProcessingElement(col([OperatorProcess(p.start_time, p.operation)]), "again")]
    elif fault.startswith("variable"):
        vc.assume(any(real_reads(v) for v in stored_))
        v = r.choice([v for v in stored_ if real_reads(v)])
        if fault == "variable":
            mems = [Memory(col([x for x in m.collection if x is not v]), entity_name=m.entity_name) for m in mems if any(x is not v for x in m.collection)]
        else:
            mems = [*mems, Memory(col([v]), entity_name="again")]
    elif fault == "read":
        many = [v for v in stored_ if len(real_reads(v)) > 1]
        vc.assume(many)
        v = r.choice(many)
        p = r.choice(list(real_reads(v)))
        w = MemoryVariable(v.start_time, v.write_port, {q: t for q, t in v.reads.items() if q is not p}, v.name)
        vc.assume(not next_reads(v))
        mems = [Memory(col([w if x is v else x for x in m.collection]), entity_name=m.entity_name) for m in mems]
    elif fault.startswith("direct"):
        vc.assume(dir_)
        v = r.choice(dir_)
        if fault == "direct":
            direct = col([x for x in direct if x is not v])
        else:
            mems = [*mems, Memory(col([MemoryVariable(v.start_time, v.write_port, dict(v.reads), "again")]), entity_name="again")]
    elif fault == "period":
        e = r.choice(pes)
        pes = [x if x is not e else ProcessingElement(ProcessCollection(list(e.collection), T + r.randint(1, 3)), e.entity_name) for x in pes]
        vc.assume(len(pes) + len(mems) > 1 or direct is not None)
    else:
        same = r.choice([pes, mems])
        vc.assume(len(same) > 1)
        a, b = r.sample(same, 2)
        a.set_entity_name(b.entity_name)
    _, err = vc.raises(Architecture, pes, mems, direct_interconnects=direct)
    vc.prove("refused", isinstance(err, ValueError), lambda: f"{fault}: {err!r}")


@contract(P, "moving, adding and removing processes", kind="bounded", n=1200, n_thorough=12000, bound="random schedules of up to 9 operations and 3 delays, up to eight moves",
          targets=[A + "Architecture.move_process", A + "Architecture.remove_resource", A + "Architecture.add_resource", A + "Resource.add_process", A + "Resource.remove_process", A + "Memory.assign", A + "ProcessingElement.assign"])
def h_move(vc):
    r = random.Random(vc.seed("s"))
    sch = random_schedule(r)
    T = sch.schedule_time
    pes, mems, direct = resources(vc, r, sch)
    # register files: refused where the forward-backward allocation does not succeed
    kinds = {m.entity_name: r.choice(["RAM", "RAM", "register"]) for m in mems}
    mems = [Memory(m.collection, kinds[m.entity_name], m.entity_name, w := m.output_count + r.randrange(2), x := m.input_count + r.randrange(2), w + x) for m in mems]
    arch = Architecture(pes, mems, direct_interconnects=direct)
    files = lambda *rs: any(kinds.get(x.entity_name) == "register" for x in rs)
    cells = lambda: {id(x): None if x.assignment is None else sorted(sorted(map(id, c)) for c in x.assignment) for x in (*arch.processing_elements, *arch.memories)}
    holds = lambda: {id(x): [id(p) for p in sorted(x.collection, key=lambda p: p.name)] for x in (*arch.processing_elements, *arch.memories)}
    for _ in range(r.randint(1, 8)):
        everything = [*arch.processing_elements, *arch.memories]
        src, dst = r.choice(everything), r.choice(everything)
        if not len(src.collection):
            continue
        p = r.choice(sorted(src.collection, key=lambda p: p.name))
        before, assigned, assign = holds(), cells(), r.random() < 0.5
        proc, s, d = (p.name if r.random() < 0.5 else p), (src.entity_name if r.random() < 0.5 else src), (dst.entity_name if r.random() < 0.5 else dst)
        wrong = r.random() < 0.1
        if wrong:
            proc = r.choice(["no such process", next((q for q in dst.collection if q not in src.collection), "no such process")])
        _, err = vc.raises(arch.move_process, proc, s, d, assign=assign)
        show = lambda: f"{p} from {src} to {dst}: {err!r}"
        fits = type(src) is type(dst) and (isinstance(src, Memory) or src.operation_type == dst.operation_type)
        if err is not None:
            vc.prove("refused with a reason", isinstance(err, (ValueError, KeyError, TypeError)), show)
            vc.prove("a refused move changes nothing", holds() == before, show)
            vc.prove("a refused move leaves the assignments", cells() == assigned, show)
            if wrong or not fits or src is dst or files(src, dst):
                continue
            busy = [(q.start_time + i) % T for q in (*dst.collection, p) for i in range(q.execution_time)]
            over = len(busy) != len(set(busy)) if isinstance(dst, ProcessingElement) else \
                dst.input_count < ProcessCollection([*dst.collection, p], T).write_ports_bound() or dst.output_count < ProcessCollection([*dst.collection, p], T).read_ports_bound()
            vc.prove("refused only where the process does not fit", assign and over, show)
            continue
        vc.prove("moves that cannot be are refused", not wrong and fits, show)
        after = dict(before)
        if src is not dst:
            after[id(src)] = [x for x in before[id(src)] if x != id(p)]
            now = holds()
            vc.prove("the process leaves one resource and enters the other", now[id(src)] == after[id(src)] and sorted(now[id(dst)]) == sorted([*before[id(dst)], id(p)])
                     and all(now[k] == v for k, v in before.items() if k not in (id(src), id(dst))), show)
        vc.prove("assigned when asked", not assign or (dst.is_assigned and (src.is_assigned or not len(src.collection))), show)
        vc.prove("otherwise no longer assigned", assign or not (dst.is_assigned or src.is_assigned), show)
        if assign and isinstance(dst, Memory):
            part = [id(q) for c in dst.assignment for q in c]
            vc.prove("the assignment holds the variables", sorted(part) == sorted(id(q) for q in dst.collection))
    x = r.choice([*arch.processing_elements, *arch.memories])
    if len(x.collection) > 1 and r.random() < 0.5:  # a process taken out and put back
        p = r.choice(sorted(x.collection, key=lambda p: p.name))
        x.remove_process(p)
        vc.prove("a process taken out", p not in x.collection and not x.is_assigned)
        x.add_process(p)
        vc.prove("a process put back", p in x.collection and not x.is_assigned)
    for x in list((*arch.processing_elements, *arch.memories)):
        _, err = vc.raises(arch.remove_resource, r.choice([x, x.entity_name]))
        vc.prove("only empty resources are removed", (err is None) == (not len(x.collection)) and (err is None) == (x not in (*arch.processing_elements, *arch.memories)))
    gone = [x for x in (*pes, *mems) if not len(x.collection)]
    if gone:  # back in again, and in use
        x = r.choice(gone)
        vc.no_error("adding a resource", arch.add_resource, x)
        vc.prove("the resource is in the architecture", any(y is x for y in (*arch.processing_elements, *arch.memories)) and vc.no_error("found by name", arch.resource_from_name, x.entity_name) is x)
        src = [y for y in (*arch.processing_elements, *arch.memories) if len(y.collection) and type(y) is type(x) and y.operation_type == x.operation_type]
        if src:
            y = r.choice(src)
            vc.no_error("moving a process to it", arch.move_process, r.choice(sorted(y.collection, key=lambda p: p.name)), y, x)
    _, err = vc.raises(arch.add_resource, direct)
    vc.prove("only resources are added", isinstance(err, ValueError))
    memories_serve(vc, sch, arch.memories, direct)
    vc.prove("every operation is still in one processing element", sorted(p.operation.graph_id for e in arch.processing_elements for p in e.collection) == sorted(x for x in sch.start_times if not isinstance(sc.graph(sch).find_by_id(x), IGNORED)))
    interconnect(vc, arch)
