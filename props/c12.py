"""C12: forward-backward register allocation."""
import itertools
import random

from b_asic.process import MemoryVariable, PlainMemoryVariable
from b_asic import resources
from b_asic.resources import ProcessCollection
from pv.vc import contract

LEVEL = "bounded"
EXPLANATION = ("the allocation is a search over a table of registers whose size depends on the variables: its contract (rows, registers, recorded paths, outputs, "
               "register count, and the token-by-token behaviour of the shift register the table describes) is checked for every collection of up to a stated size "
               "and for random larger ones; each pass of the algorithm is also checked against its own contract (what it may write into the table)")
P = "C12"
M = "b_asic.resources:_ForwardBackwardTable."
TARGETS = [M + m for m in ("__init__", "_forward_backward_is_complete", "_do_forward_allocation", "_do_single_backward_allocation", "__getitem__", "__iter__", "__len__")]


def snapshot(tab):
    return [(list(e.regs), list(e.outputs), dict(e.back_edge_to), dict(e.back_edge_from), list(e.inputs)) for e in tab.table]


TABLE = getattr(resources, "_ForwardBackwardTable", object)


class Checked(TABLE):
    """The real table with each pass checked against its contract."""
    vc = None

    def pass_contract(self, run, backward):
        before = snapshot(self)
        run()
        after = snapshot(self)
        T = len(before)
        vc = self.vc
        fresh = 0
        for t in range(T):
            (r0, o0, bt0, bf0, i0), (r1, o1, bt1, bf1, i1) = before[t], after[t]
            vc.prove("a pass never overwrites a register, an output or a path", all(a is None or a is b for a, b in zip(r0, r1)) and o1[:len(o0)] == o0 and i0 == i1
                     and all(bt1.get(k) == v for k, v in bt0.items()) and all(bf1.get(k) == v for k, v in bf0.items()))
            for j, v in enumerate(r1):
                if r0[j] is None and v is not None:
                    fresh += 1
                    prev = after[(t - 1) % T]
                    if backward:
                        vc.prove("a backward pass moves one value from the last register over a recorded path",
                                 prev[0][-1] is v and bf1.get(j) == len(r1) - 1 and prev[2].get(len(r1) - 1) == j)
                    else:
                        vc.prove("a forward pass moves values one register on", j > 0 and prev[0][j - 1] is v and j not in bf1)
            if backward:
                vc.prove("a backward pass outputs nothing", o1 == o0)
            else:
                vc.prove("a forward pass records no backward path", bt0 == bt1 and bf0 == bf1)
                vc.prove("outputs come from a register of the row", all(v in r1 and any(x % T == t for x in v.read_times) for v in o1[len(o0):]))
        vc.prove("a backward pass moves exactly one value", not backward or fresh == 1)

    def _do_forward_allocation(self):
        self.pass_contract(super()._do_forward_allocation, False)

    def _do_single_backward_allocation(self):
        self.pass_contract(super()._do_single_backward_allocation, True)


def live(vs, T, t):
    return sum(1 for v in vs for k in range(v.execution_time) if (v.start_time + k) % T == t)


def postcondition(vc, tab, vs, T):
    n = max(live(vs, T, t) for t in range(T))
    vc.prove("one row per time step", len(tab) == T and len(tab.table) == T and list(tab) == tab.table and all(tab[t] is tab.table[t] for t in range(T)))
    vc.prove("exactly the maximum number of simultaneously live variables", all(len(e.regs) == n for e in tab))
    for t, e in enumerate(tab.table):
        nxt = tab.table[(t + 1) % T]
        vc.prove("inputs are the variables arriving", sorted(map(id, e.inputs)) == sorted(id(v) for v in vs if v.start_time == t))
        vc.prove("outputs are exactly the variables read", sorted(map(id, e.outputs)) == sorted(id(v) for v in vs if any(x % T == t for x in v.read_times)))
        vc.prove("backward paths recorded at both ends", {(a, b) for a, b in e.back_edge_to.items()} == {(a, b) for b, a in nxt.back_edge_from.items()}
                 and len(e.back_edge_to) == len(nxt.back_edge_from))
        for j, v in enumerate(e.regs):
            vc.prove("only live variables are stored", v is None or any((v.start_time + k) % T == t for k in range(1, v.execution_time + 1)))
    for v in vs:
        for k in range(1, v.execution_time + 1):
            row = tab.table[(v.start_time + k) % T]
            where = [j for j, x in enumerate(row.regs) if x is v]
            vc.prove("a live variable is in exactly one register", len(where) == 1, lambda: f"{v!r} at {k}: {where}")
            j = where[0]
            if k == 1:
                vc.prove("it arrives in the first register", j == 0 and 0 not in row.back_edge_from)
                continue
            before = [i for i, x in enumerate(tab.table[(v.start_time + k - 1) % T].regs) if x is v][0]
            vc.prove("moved only along recorded paths", row.back_edge_from[j] == before if j in row.back_edge_from else j == before + 1)


def hardware(vc, tab, vs, T):
    """The shift register the table describes, value by value, over several periods."""
    if len({v.start_time for v in vs}) < len(vs) or any(len(e.outputs) > 1 for e in tab.table):
        return
    regs = [None] * len(tab.table[0].regs)
    arriving = {v.start_time: v for v in vs}
    for cycle in range(5 * T):
        t, k = cycle % T, cycle // T
        e, nxt = tab.table[t], tab.table[(t + 1) % T]
        data = (arriving[t], k) if t in arriving else None
        if k >= 2:
            for v in vs:
                for read in v.read_times:
                    if read % T == t:
                        got = data if e.outputs_from == -1 else None if e.outputs_from is None else regs[e.outputs_from]
                        vc.prove("the recorded output register holds the value read", got == (v, k - read // T), lambda: f"{v!r} read at {read}: {got}")
        regs = [regs[nxt.back_edge_from[j]] if j in nxt.back_edge_from else (data if j == 0 else regs[j - 1]) for j in range(len(regs))]


def check(vc, vs, T, must_succeed=False, kind=PlainMemoryVariable):
    Checked.vc = vc
    col = ProcessCollection(vs, T, cyclic=True)
    tab, err = vc.raises(Checked if TABLE is not object else resources._ForwardBackwardTable, col)
    vc.prove("success or ValueError", err is None or isinstance(err, ValueError), lambda: repr(err))
    vc.prove("allocated", not must_succeed or err is None, lambda: repr(err))
    if err is None:
        postcondition(vc, tab, vs, T)
        hardware(vc, tab, vs, T)
    vc.prove("variables and collection unchanged", col.collection == list(vs) and len(col) == len(vs))
    return err is None


def variables(spec):
    return [PlainMemoryVariable(s, 0, dict(enumerate(l)), f"v{i}") for i, (s, l) in enumerate(spec)]


def subsets(T):
    return [c for n in range(0, T + 2) for c in itertools.combinations(range(T + 1), n)]


@contract(P, "every collection over a short period", kind="shape", cases=[1, 2, 3], more_cases=[4], bound="every collection with at most one variable arriving per time step and any set of reads, schedule time 1-3 (4 thorough)",
          targets=TARGETS)
def h_all(vc, T):
    if T == 4:
        first = vc.choice("first", subsets(4))
        gen = ((first, *rest) for rest in itertools.product(subsets(4)[::3], repeat=3))
    else:
        gen = itertools.product(subsets(T), repeat=T)
    for reads in gen:
        spec = [(s, l) for s, l in enumerate(reads) if l]
        if spec:
            check(vc, variables(spec), T, must_succeed=len(spec) == 1 and len({x % T for x in spec[0][1]}) == len(spec[0][1]))


@contract(P, "every collection of variables read once", kind="shape", cases=[(4, 1), (5, 7)], more_cases=[(5, 1), (6, 7)], bound="every collection with at most one variable arriving and each variable read once, schedule time 4 (5 thorough), and every seventh for schedule time 5 (6 thorough)",
          targets=TARGETS)
def h_single(vc, case):
    T, step = case
    for reads in itertools.islice(itertools.product(range(-1, T + 1), repeat=T), 0, None, step):
        spec = [(s, [l]) for s, l in enumerate(reads) if l >= 0]
        if spec:
            fifo = len({l[0] for s, l in spec}) == 1 and len(spec) == T
            check(vc, variables(spec), T, must_succeed=fifo)


@contract(P, "larger collections", kind="bounded", bound="random collections, schedule time up to 12, one write and one read per time step in most", n=1500, n_thorough=40000, targets=TARGETS)
def h_random(vc):
    r = random.Random(vc.seed("s"))
    T = r.randint(2, 12)
    starts = r.sample(range(T), r.randint(1, T))
    if r.random() < 0.05:
        starts.append(r.choice(starts))
    reads = list(range(T))
    r.shuffle(reads)
    spec = []
    for s in starts:
        l = set()
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if reads:
                x = ((reads.pop() if r.random() < 0.97 else r.randrange(T)) - s) % T
                l.add(T if x == 0 and r.random() < 0.5 else x)
        if l:
            l = list(l)
            r.shuffle(l)
            spec.append((s, l))
    vc.assume(spec)
    r.shuffle(spec)
    check(vc, variables(spec), T)


@contract(P, "interleavers", kind="bounded", bound="matrix transposers and bit-reversal/random interleavers up to 64 values", n=60, n_thorough=600, targets=TARGETS)
def h_interleaver(vc):
    from b_asic.research.interleaver import generate_matrix_transposer, generate_random_interleaver
    r = random.Random(vc.seed("s"))
    if r.random() < 0.5:
        col = generate_matrix_transposer(r.randint(1, 5), r.choice([None, r.randint(1, 5)]), min_lifetime=r.choice([0, 0, 1, 2]))
    else:
        random.seed(r.random())
        col = generate_random_interleaver(r.randint(1, 12), min_lifetime=r.choice([0, 0, 1]))
    vs = col.collection
    vc.assume(all(v.execution_time <= col.schedule_time for v in vs))
    Checked.vc = vc
    tab, err = vc.raises(Checked if TABLE is not object else resources._ForwardBackwardTable, col)
    vc.prove("success or ValueError", err is None or isinstance(err, ValueError), lambda: repr(err))
    if err is None:
        postcondition(vc, tab, vs, col.schedule_time)
        hardware(vc, tab, vs, col.schedule_time)


@contract(P, "variables of a schedule", kind="bounded", bound="operations of the schedule library's shapes", n=150, n_thorough=3000, targets=TARGETS)
def h_memory_variables(vc):
    from pv import sched
    r = random.Random(vc.seed("s"))
    sch = sched.random_schedule(r, r.choice(list(sched.SHAPES)), r.randint(2, 8), cyclic=True)
    col = sch.get_memory_variables()
    vc.assume(len(col) > 0 and all(isinstance(v, MemoryVariable) for v in col))
    vs, T = col.collection, sch.schedule_time
    Checked.vc = vc
    tab, err = vc.raises(Checked if TABLE is not object else resources._ForwardBackwardTable, col)
    vc.prove("success or ValueError", err is None or isinstance(err, ValueError), lambda: repr(err))
    if err is None:
        postcondition(vc, tab, vs, T)
        hardware(vc, tab, vs, T)
