"""C11: exclusion graphs, cell assignments and port-limited splits."""
import itertools
import random
import warnings
from collections import Counter

import b_asic.resources as res
from b_asic.process import OperatorProcess, PlainMemoryVariable, Process
from b_asic.resources import ProcessCollection
from pv import sched
from pv import sched as sc
from pv.vc import contract

LEVEL = "bounded"
EXPLANATION = ("pairs (and triples) of processes with arbitrary integer start times, execution and read times and an arbitrary schedule time are proved symbolically: a part accepts a process "
               "by a conjunction over the processes already in it, so the pairwise obligations carry the argument; colouring back ends (networkx, CBC) are outside the verifier, so their "
               "results are checked over bounded collections")
P = "C11"
C = "b_asic.resources:ProcessCollection."


# ------------------------------------------------------------------ definitions
def busy(p, T):
    return {(p.start_time + k) % T for k in range(p.execution_time)}


def overlap(vc, a, b, T):
    """Do [start, start + execution) overlap modulo T, for 0 <= start < T and execution <= T."""
    sa, ea, sb, eb = a.start_time, a.start_time + a.execution_time, b.start_time, b.start_time + b.execution_time
    def meet(s1, e1, s2, e2):
        return vc.and_(s1 < e2, s2 < e1, s1 < e1, s2 < e2)
    return vc.or_(meet(sa, ea, sb, eb), meet(sa + T, ea + T, sb, eb), meet(sa, ea, sb + T, eb + T))


def partition(vc, parts, col):
    ids = Counter(id(p) for part in parts for p in part)
    vc.prove("every process is in exactly one part", ids == Counter(id(p) for p in col) and all(len(part) for part in parts),
             lambda: f"{col!r} -> {parts!r}")
    vc.prove("parts keep the schedule time", all(part.schedule_time == col.schedule_time for part in parts))


def no_overlap(vc, parts, T):
    for part in parts:
        for a, b in itertools.combinations(part, 2):
            vc.prove("no two processes of a part overlap", not (busy(a, T) & busy(b, T)), lambda: f"{a!r} {b!r} T={T}")


def accesses(part, T):
    """time -> (writing processes, reading processes), one entry per access."""
    w, r = {}, {}
    for p in part:
        w.setdefault(p.start_time % T, []).append(p)
        for t in p.read_times:
            r.setdefault(t % T, []).append(p)
    return w, r


def ports_respected(vc, parts, T, read, write, total):
    wrapped = None
    for part in parts:
        w, r = accesses(part, T)
        for t in range(T):
            ws, rs = w.get(t, []), r.get(t, [])
            several = lambda ps: len(set(map(id, ps))) > 1     # a process that needs more on its own is accepted where no other one makes that kind of access
            vc.prove("writes within the write ports", len(ws) <= write or not several(ws), lambda: f"{part!r} at {t}: {ws}")
            vc.prove("reads within the read ports", len(rs) <= read or not several(rs), lambda: f"{part!r} at {t}: {rs}")
            if several(ws + rs) and len(ws) + len(rs) > total and any(x >= T and x % T == t for p in rs for x in p.read_times):
                wrapped = (part, t)
            else:
                vc.prove("accesses within the total ports", len(ws) + len(rs) <= total or not several(ws + rs), lambda: f"{part!r} at {t}: writes {ws}, reads {rs}")
    if wrapped:
        vc.known("total-ports-wrap", True)
        vc.fail("accesses within the total ports when reads wrap around the period", f"{wrapped[0]!r} at {wrapped[1]}")


# ------------------------------------------------------------------ symbolic pairs
@contract(P, "port options", targets=["b_asic.resources:_sanitize_port_option"], cases=list(itertools.product((0, 1), repeat=3)))
def h_sanitize(vc, given):
    r, w, t = (vc.int(n) if g else None for n, g in zip("rwt", given))
    got, err = vc.raises(res._sanitize_port_option, r, w, t)
    if t is None and (r is None or w is None):
        vc.prove("refused", isinstance(err, ValueError))
        return
    er = r if r is not None else t
    ew = w if w is not None else t
    et = t if t is not None else r + w
    bad = vc.or_(et < er, et < ew)
    if err is None:
        vc.prove("ports as given, or derived", vc.and_(vc.eq(got[0], er), vc.eq(got[1], ew), vc.eq(got[2], et)))
        vc.prove("consistent", vc.not_(bad))
    else:
        vc.prove("refused only when inconsistent", isinstance(err, ValueError))
        vc.prove("inconsistent", bad)


def draw(vc, n, reads=1, full=False):
    """n processes with arbitrary times in an arbitrary period."""
    hi = None if vc.symbolic else 9
    T = vc.int("T", 1, hi)
    ps = []
    for k in range(n):
        s = vc.int(f"start{k}", 0, T - 1 if not vc.symbolic else None)
        vc.assume(s < T)
        ls = [vc.int(f"life{k}.{j}", 0, None if vc.symbolic else 2 * T) for j in range(reads)]
        if full:
            vc.assume(vc.and_(*[l <= T for l in ls]))
        ps.append(PlainMemoryVariable(s, 0, dict(enumerate(ls)), f"v{k}"))
    return T, ps


class Interval:
    """A symbolic range, and unions of such."""

    def __init__(self, *parts):
        self.parts = parts

    def union(self, other):
        return Interval(*self.parts, *other.parts)
    __or__ = union

    def intersection(self, other):
        return Interval(*((max_(a, c), min_(b, d)) for a, b in self.parts for c, d in other.parts))
    __and__ = intersection

    def isdisjoint(self, other):
        return not self.intersection(other)

    def __bool__(self):
        return any(bool(a < b) for a, b in self.parts)


def max_(a, b):
    return a if a >= b else b


def min_(a, b):
    return a if a <= b else b


def s_range(*a):
    from pv.sym import is_sym
    if not any(is_sym(x) for x in a):
        return range(*a)
    return Interval((0, a[0]) if len(a) == 1 else a)


class s_set(set):
    def __new__(cls, *a):
        return a[0] if a and isinstance(a[0], Interval) else set(*a)


@contract(P, "execution time exclusion of two processes", targets=[C + "exclusion_graph_from_execution_time"], kind="shape", bound="two processes with arbitrary times (execution at most the schedule time), arbitrary schedule time")
def h_exec_pair(vc):
    T, (a, b) = draw(vc, 2, full=True)
    d = vars(res)
    saved = {k: d.get(k) for k in ("set", "range")}
    if vc.symbolic:
        d.update(set=s_set, range=s_range)
    try:
        g = ProcessCollection([a, b], T).exclusion_graph_from_execution_time()
    finally:
        for k, v in saved.items():
            d.pop(k, None) if v is None else d.__setitem__(k, v)
    vc.prove("the processes are the nodes", len(g) == 2 and a in g and b in g)
    vc.prove("joined exactly when they overlap", vc.eq(g.has_edge(a, b), overlap(vc, a, b, T)))


@contract(P, "port exclusion of two processes", targets=[C + "exclusion_graph_from_ports"], kind="shape", bound="two processes with arbitrary write times and up to two arbitrary reads each, arbitrary schedule time",
          cases=[(1, 1), (1, 2), (2, 1), (2, 2)])
def h_port_pair(vc, case):
    reads, total = case
    vc.symbolic_keys()
    T, (a, b) = draw(vc, 2, reads)
    W = [p.start_time % T for p in (a, b)]
    R = [[t % T for t in p.read_times] for p in (a, b)]
    same = lambda x, ys: vc.or_(*[vc.eq(x, y) for y in ys])
    alone = vc.or_(*[vc.or_(*[vc.and_(vc.eq(x, y), vc.not_(vc.eq(p.read_times[i], p.read_times[j]))) for (i, x), (j, y) in itertools.combinations(list(enumerate(r)), 2)]) for p, r in zip((a, b), R)])
    if total == 1:
        alone = vc.or_(alone, *[same(w, r) for w, r in zip(W, R)])
    g, err = vc.raises(ProcessCollection([a, b], T).exclusion_graph_from_ports, 1, 1, total)
    if err is not None:
        vc.prove("refused only when a process alone needs more ports", isinstance(err, ValueError), lambda: repr(err))
        vc.prove("a process alone needs more", alone)
        return
    vc.prove("refused when a process alone needs more ports", vc.not_(alone))
    want = vc.or_(vc.eq(W[0], W[1]), *[same(x, R[1]) for x in R[0]])
    if total == 1:
        want = vc.or_(want, same(W[0], R[1]), same(W[1], R[0]))
    vc.prove("the processes are the nodes", len(g) == 2 and a in g and b in g)
    vc.prove("joined exactly when accesses coincide", vc.eq(g.has_edge(a, b), want))


@contract(P, "left-edge assignment of a few processes", targets=[C + "split_on_execution_time", C + "_left_edge_assignment", "b_asic.process:Process.__lt__"], kind="shape", cases=[2], more_cases=[3],
          bound="two (thorough: three) processes with arbitrary times, arbitrary schedule time")
def h_left_edge(vc, n):
    vc.split_quotients(0, 1)
    T, ps = draw(vc, n)
    col = ProcessCollection(ps, T)
    long = vc.or_(*[p.execution_time > T for p in ps])
    parts, err = vc.raises(col.split_on_execution_time, "left_edge")
    if err is not None:
        vc.prove("refused only if a process exceeds the schedule time", isinstance(err, ValueError), lambda: repr(err))
        vc.prove("a process exceeds the schedule time", long)
        return
    vc.prove("processes exceeding the schedule time are refused", vc.not_(long))
    vc.prove("every process is in exactly one part", Counter(id(p) for part in parts for p in part) == Counter(map(id, ps)))
    for part in parts:
        for a, b in itertools.combinations(part, 2):
            vc.prove("no two processes of a part overlap", vc.not_(overlap(vc, a, b, T)))


@contract(P, "sequential port split of a few processes", targets=[C + "split_ports_sequentially", C + "_ports_collide", C + "write_port_accesses", C + "read_port_accesses"], kind="shape", cases=[2], more_cases=[3],
          bound="two (thorough: three) processes with one read each, arbitrary times, arbitrary schedule time and port numbers (reads beyond the period left to the bounded checks)")
def h_sequential(vc, n):
    vc.symbolic_keys()
    vc.split_quotients(0, 1)
    T, ps = draw(vc, n)
    r, w, t = (vc.int(k, 1, None if vc.symbolic else 3) for k in ("read", "write", "total"))
    vc.assume(vc.and_(t >= r, t >= w))
    parts = vc.no_error("split", ProcessCollection(ps, T).split_ports_sequentially, r, w, t, ps)
    vc.prove("every process is in exactly one part", Counter(id(p) for part in parts for p in part) == Counter(map(id, ps)))
    for part in parts:
        procs = list(part)
        if len(procs) < 2:
            continue
        for p in procs:
            for time, what in ((p.start_time % T, "written"), (p.read_times[0] % T, "read")):
                writes = [vc.ite(vc.eq(q.start_time % T, time), 1, 0) for q in procs]
                reads = [vc.ite(vc.eq(q.read_times[0] % T, time), 1, 0) for q in procs]
                several = vc.or_(*[vc.and_(vc.or_(vc.eq(writes[i], 1), vc.eq(reads[i], 1)), vc.or_(vc.eq(writes[j], 1), vc.eq(reads[j], 1))) for i in range(len(procs)) for j in range(i)])
                inside = vc.and_(*[q.read_times[0] < T for q in procs])
                nw, nr = sum(writes), sum(reads)
                vc.prove("writes within the write ports", vc.implies(several, nw <= w))
                vc.prove("reads within the read ports", vc.implies(several, nr <= r))
                vc.prove("accesses within the total ports", vc.implies(vc.and_(several, inside), nw + nr <= t))


# ------------------------------------------------------------------ exhaustive pairs
@contract(P, "every pair of processes over a short period", targets=[C + "exclusion_graph_from_execution_time", C + "exclusion_graph_from_ports", C + "_left_edge_assignment", C + "total_execution_times"], kind="shape",
          cases=[1, 2, 3], more_cases=[4, 5], bound="every pair with start times in the period and execution times up to the period plus one (left-edge: up to the period)")
def h_every_pair(vc, T):
    both = [PlainMemoryVariable(s, 0, {0: l}, f"{s}+{l}") for s in range(T) for l in range(T + 2)]
    for a, b in itertools.product(both, repeat=2):
        b = PlainMemoryVariable(b.start_time, 0, {0: b.execution_time}, "b")
        col = ProcessCollection([a, b], T)
        g = col.exclusion_graph_from_execution_time()
        vc.prove("joined exactly when they overlap", g.has_edge(a, b) == bool(busy(a, T) & busy(b, T)) and len(g) == 2, lambda: f"{a!r} {b!r}")
        for total in (1, 2):
            g, err = vc.raises(col.exclusion_graph_from_ports, 1, 1, total)
            w = [p.start_time for p in (a, b)]
            r = [p.read_times[0] % T for p in (a, b)]
            alone = total == 1 and (w[0] == r[0] or w[1] == r[1])
            vc.prove("refused exactly when a process alone needs more", isinstance(err, ValueError) if alone else err is None)
            if not alone:
                vc.prove("joined exactly when accesses coincide", g.has_edge(a, b) == (w[0] == w[1] or r[0] == r[1] or (total == 1 and (w[0] == r[1] or w[1] == r[0]))), lambda: f"{a!r} {b!r} {total}")
        parts, err = vc.raises(col.split_on_execution_time, "left_edge")
        vc.prove("refused exactly when a process exceeds the schedule time", (err is not None) == (max(a.execution_time, b.execution_time) > T) and (err is None or isinstance(err, ValueError)))
        if err is None:
            partition(vc, parts, col)
            no_overlap(vc, parts, T)


# ------------------------------------------------------------------ bounded collections
def collection(r, kind=None, hi=None):
    T = r.randint(1, 10)
    kind = kind or r.choice(["plain", "plain", "process"])
    ps = []
    for k in range(r.randint(1, 9)):
        s = r.randrange(T)
        if kind == "process":
            ps.append(Process(s, r.randint(0, hi or T), f"p{k}"))
        else:
            ps.append(PlainMemoryVariable(s, r.randrange(3), {j: r.randint(0, hi or T) for j in range(r.choice([1, 1, 1, 2, 3]))}, f"p{k}"))
    return ProcessCollection(ps, T, cyclic=r.random() < 0.7)


@contract(P, "cell assignments of collections", kind="bounded", bound="random collections of up to 9 processes, schedule time up to 10", n=400, n_thorough=8000,
          targets=[C + m for m in ("split_on_execution_time", "_left_edge_assignment", "_greedy_graph_color_assignment", "exclusion_graph_from_execution_time", "total_execution_times", "processing_element_bound")])
def h_cells(vc):
    r = random.Random(vc.seed("s"))
    col = collection(r)
    T, before = col.schedule_time, list(col)
    g = col.exclusion_graph_from_execution_time()
    vc.prove("edges exactly between overlapping processes", {frozenset(map(id, e)) for e in g.edges} == {frozenset((id(a), id(b))) for a, b in itertools.combinations(before, 2) if busy(a, T) & busy(b, T)})
    vc.prove("all processes are nodes", set(map(id, g)) == set(map(id, before)))
    use = Counter(t for p in before for k in range(p.execution_time) for t in [(p.start_time + k) % T])
    vc.prove("executions per time step", col.total_execution_times() == dict(use))
    if use:
        vc.prove("bound is the largest number of executions", col.processing_element_bound() == max(use.values()))
    strategy = r.choice(["left_edge", "greedy_graph_color"])
    params = {"coloring_strategy": r.choice(["largest_first", "saturation_largest_first", "DSATUR", "smallest_last", "independent_set"])} if r.random() < 0.5 else None
    parts = vc.no_error("assignment", col.split_on_execution_time, strategy, params)
    partition(vc, parts, col)
    no_overlap(vc, parts, T)
    vc.prove("no fewer parts than needed", not use or len(parts) >= max(use.values()))
    vc.prove("the collection is unchanged", all(a is b for a, b in zip(col, before)) and len(col) == len(before))
    vc.prove("unknown strategies are refused", vc.raises(col.split_on_execution_time, "no such strategy", exc=ValueError)[1] is not None)


@contract(P, "cell assignments by integer programming", kind="bounded", bound="random collections of up to 9 processes", n=40, n_thorough=600, targets=[C + "_ilp_graph_color_assignment"])
def h_cells_ilp(vc):
    r = random.Random(vc.seed("s"))
    col = collection(r)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts = vc.no_error("assignment", col.split_on_execution_time, "ilp_graph_color", {"solver": solver()})
    partition(vc, parts, col)
    no_overlap(vc, parts, col.schedule_time)
    g = col.exclusion_graph_from_execution_time()
    import networkx as nx
    greedy = len(set(nx.coloring.greedy_color(g, "saturation_largest_first").values()))
    vc.prove("no more parts than the greedy colouring", len(parts) <= greedy)


def solver():
    import pulp
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return pulp.PULP_CBC_CMD(msg=False, timeLimit=60)


@contract(P, "refused execution times", kind="bounded", bound="random collections with execution times beyond the schedule time", n=60, n_thorough=1000, targets=[C + "split_on_execution_time"])
def h_too_long(vc):
    r = random.Random(vc.seed("s"))
    col = collection(r, hi=12)
    vc.assume(any(p.execution_time > col.schedule_time for p in col))
    for s in ("left_edge", "greedy_graph_color", "ilp_graph_color"):
        vc.prove("refused", vc.raises(col.split_on_execution_time, s, exc=ValueError)[1] is not None)


PORT_TARGETS = [C + m for m in ("split_on_ports", "split_ports_sequentially", "_ports_collide", "_split_ports_greedy_graph_color", "_split_ports_equitable_graph_color", "_split_from_graph_coloring", "exclusion_graph_from_ports",
                                "read_port_accesses", "write_port_accesses", "total_port_accesses", "read_ports_bound", "write_ports_bound", "total_ports_bound")]


def bounds(vc, col):
    T = col.schedule_time
    w, r = accesses(col, T)
    nw, nr = {t: len(x) for t, x in w.items()}, {t: len(x) for t, x in r.items()}
    tot = dict(Counter(nw) + Counter(nr))
    vc.prove("write accesses", col.write_port_accesses() == nw and col.write_ports_bound() == max(nw.values(), default=0))
    vc.prove("read accesses", col.read_port_accesses() == nr and col.read_ports_bound() == max(nr.values(), default=0))
    vc.prove("total accesses", col.total_port_accesses() == tot and col.total_ports_bound() == max(tot.values(), default=0))


@contract(P, "port-limited splits of collections", kind="bounded", bound="random collections of up to 9 variables with up to 3 reads, any port numbers up to 3", n=700, n_thorough=15000, targets=PORT_TARGETS)
def h_ports(vc):
    r = random.Random(vc.seed("s"))
    col = collection(r, "plain" if r.random() < 0.9 else "process")
    T, before = col.schedule_time, list(col)
    bounds(vc, col)
    strategy = r.choice(["left_edge", "left_edge", "greedy_graph_color", "equitable_graph_color", "sequence"])
    if "color" in strategy:
        read = write = 1
        total = r.choice([1, 2, 2])
    else:
        read, write = r.randint(1, 3), r.randint(1, 3)
        total = r.randint(max(read, write), read + write)
    if strategy == "sequence":
        seq = list(col)
        r.shuffle(seq)
        parts = vc.no_error("split", col.split_ports_sequentially, read, write, total, seq)
        vc.prove("another sequence is refused", vc.raises(col.split_ports_sequentially, read, write, total, seq[1:], exc=KeyError)[1] is not None
                 and vc.raises(col.split_ports_sequentially, read, write, total, seq + [seq[0]], exc=KeyError)[1] is not None)
    else:
        kw = r.choice([dict(read_ports=read, write_ports=write, total_ports=total), dict(read_ports=read, write_ports=write, total_ports=total) if total != read + write else dict(read_ports=read, write_ports=write)])
        parts, err = vc.raises(col.split_on_ports, strategy, **kw)
        if err is not None:
            alone = any(len({t % T for t in p.read_times}) < len(set(p.read_times)) or (total == 1 and any(t % T == p.start_time for t in p.read_times)) for p in col)
            vc.prove("refused only when a process alone needs more", isinstance(err, ValueError) and "color" in strategy and alone, lambda: repr(err))
            return
    partition(vc, parts, col)
    vc.prove("the collection is unchanged", all(a is b for a, b in zip(col, before)) and len(col) == len(before))
    ports_respected(vc, parts, T, read, write, total)


@contract(P, "port options are refused", kind="bounded", bound="fixed option combinations", n=3, targets=PORT_TARGETS)
def h_port_options(vc):
    r = random.Random(vc.seed("s"))
    col = collection(r, "plain")
    bad = [dict(strategy="greedy_graph_color", read_ports=2, write_ports=1, total_ports=2), dict(strategy="equitable_graph_color", read_ports=1, write_ports=2, total_ports=3),
           dict(strategy="left_edge", read_ports=2), dict(strategy="left_edge", read_ports=2, write_ports=1, total_ports=1), dict(strategy="no such", read_ports=1, write_ports=1),
           dict(strategy="ilp_graph_color", read_ports=2, write_ports=2), dict(strategy="greedy_graph_color", total_ports=3, read_ports=1, write_ports=1)]
    for kw in bad:
        vc.prove("refused", isinstance(vc.raises(col.split_on_ports, **kw)[1], ValueError), str(kw))


def with_elements(r):
    """Memory variables of a scheduled graph together with its processing elements."""
    from b_asic.architecture import ProcessingElement
    for _ in range(50):
        T = r.randint(2, 8)
        sch = sched.random_schedule(r, r.choice(["chain", "fork", "loop", "twoport", "square"]), T)
        for op in sc.graph(sch).operations:
            op.execution_time = r.randint(1, T)
        try:
            ops = sch.get_operations()
            mvs = sch.get_memory_variables()
        except ValueError:
            continue
        _, mvs = mvs.split_on_length(0)
        if len(mvs) < 2 or any(v.execution_time > T for v in mvs):
            continue
        pes = []
        try:
            for n, group in ops.split_on_type_name().items():
                for i, c in enumerate(group.split_on_execution_time("left_edge")):
                    pes.append(ProcessingElement(c, entity_name=f"{n}{i}pe"))
        except ValueError:
            continue
        return mvs, pes
    return None, None


@contract(P, "port-limited splits that minimise connections", kind="bounded", bound="variables of random schedules of the graph library", n=300, n_thorough=5000,
          targets=[C + "_split_ports_sequentially_minimize_pe_to_memory_connections", C + "_split_ports_sequentially_minimize_memory_to_pe_connections", C + "_get_process_fits_in_collection"])
def h_connections(vc):
    r = random.Random(vc.seed("s"))
    mvs, pes = with_elements(r)
    vc.assume(mvs is not None)
    read, write = r.randint(1, 3), r.randint(1, 3)
    total = r.randint(max(read, write), read + write)
    parts = vc.no_error("split", mvs.split_on_ports, r.choice(["left_edge_min_pe_to_mem", "left_edge_min_mem_to_pe"]), read, write, total, {"processing_elements": pes})
    partition(vc, parts, mvs)
    ports_respected(vc, parts, mvs.schedule_time, read, write, total)


@contract(P, "port-limited splits by integer programming", kind="bounded", bound="variables of random schedules of the graph library and random collections", n=40, n_thorough=600,
          targets=[C + m for m in ("_split_ports_ilp_graph_color", "_split_ports_ilp_min_input_mux_graph_color", "_split_ports_ilp_min_output_mux_graph_color", "_split_ports_ilp_min_mux_graph_color")] + ["b_asic.resources:_get_source_port", "b_asic.resources:_get_destination_port"])
def h_ports_ilp(vc):
    r = random.Random(vc.seed("s"))
    strategy = r.choice(["ilp_graph_color", "ilp_min_input_mux", "ilp_min_output_mux", "ilp_min_mux"])
    params = {"solver": solver()}
    if strategy == "ilp_graph_color":
        mvs = collection(r, "plain")
    else:
        mvs, params["processing_elements"] = with_elements(r)
        vc.assume(mvs is not None)
    total = r.choice([1, 2, 2])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts, err = vc.raises(mvs.split_on_ports, strategy, 1, 1, total, params)
    if err is not None:
        T = mvs.schedule_time
        alone = any(len({t % T for t in p.read_times}) < len(set(p.read_times)) or (total == 1 and any(t % T == p.start_time % T for t in p.read_times)) for p in mvs)
        vc.prove("refused only when a process alone needs more", isinstance(err, ValueError) and (alone or "found for the given" in str(err)), lambda: repr(err))
        return
    partition(vc, parts, mvs)
    ports_respected(vc, parts, mvs.schedule_time, 1, 1, total)


@contract(P, "grouping by type and editing collections", kind="bounded", bound="operations of random schedules", n=150, n_thorough=2000,
          targets=[C + m for m in ("split_on_type_name", "get_by_type_name", "get_by_type", "add_process", "remove_process", "__contains__", "__len__", "__iter__", "from_name", "find_by_time")])
def h_types(vc):
    r = random.Random(vc.seed("s"))
    sch = sched.random_schedule(r, r.choice(list(sched.SHAPES)), r.randint(1, 6))
    for op in sc.graph(sch).operations:
        op.execution_time = r.randint(0, 2)
    col = sch.get_operations()
    groups = col.split_on_type_name()
    partition(vc, list(groups.values()), col)
    for n, group in groups.items():
        vc.prove("one type per group", all(p.type_name == n for p in group))
        vc.prove("by type name", set(col.get_by_type_name(n)) == set(group))
        vc.prove("by type", set(col.get_by_type(type(next(iter(group)).operation))) >= set(group)
                 and all(isinstance(p.operation, type(next(iter(group)).operation)) for p in col.get_by_type(type(next(iter(group)).operation))))
    vc.prove("other processes are refused", vc.raises(ProcessCollection([Process(0, 1, "x")], 2).split_on_type_name, exc=ValueError)[1] is not None)
    ps = list(col)
    p = r.choice(ps)
    vc.prove("already a member", vc.raises(col.add_process, p, exc=ValueError)[1] is not None and p in col and len(col) == len(ps))
    col.remove_process(p)
    vc.prove("removed", p not in col and len(col) == len(ps) - 1 and {*col, p} == {*ps})
    vc.prove("not a member", vc.raises(col.remove_process, p, exc=KeyError)[1] is not None)
    col.add_process(p)
    vc.prove("added", p in col and {*col} == {*ps} and len(col) == len(ps))
    names = Counter(q.name for q in ps)
    for q in ps:
        if names[q.name] == 1:
            vc.prove("found by name", col.from_name(q.name) is q)
    vc.prove("unknown name", vc.raises(col.from_name, "no such name", exc=KeyError)[1] is not None)
