"""C13: graph transformations preserve input/output behaviour."""
import random
import warnings

import b_asic.core_operations as co
import b_asic.fft_operations as fo
import b_asic.special_operations as so
import b_asic.wdf_operations as wo
from b_asic.port import OutputPort
from b_asic.sfg import SFG
from pv import gen, ref, sched
from pv import sched as sc
from pv.vc import contract

LEVEL = "bounded"
EXPLANATION = ("each transformation of each graph shape is proved for all inputs, coefficients and states over two or three samples by the reference difference equations of the graph before (edited as documented) and after; "
               "graph shapes are a bounded, randomly generated family")
P = "C13"
G = "b_asic.sfg:SFG."
BUILD = [G + m for m in ("__init__", "__call__", "copy", "_add_component_unconnected_copy", "_add_operation_connected_tree_copy")] + ["b_asic.operation:AbstractOperation.copy", "b_asic.graph_component:AbstractGraphComponent.copy"]
BOUND = "random graphs of up to 5 operations and 3 delays; inputs, coefficients and states symbolic"


def rng(vc, tag, case):
    return random.Random(vc.case_seed("graph", f"c13 {tag} {case}"))


def nested_op(depth=0):
    def make(r):
        return gen.graph(r, types=gen.EXACT, n_ops=(0, 3), n_in=(0, 2), n_delays=(0, 2), real=True, constants=0.15, dangling=0.3, nested=nested_op(depth - 1) if depth else None)
    return make


def graph(vc, r, dom="real", **kw):
    kw = dict(dict(types=gen.EXACT, n_ops=(1, 5), n_in=(1, 2), n_delays=(0, 3), real=dom == "real", constants=0.1, dangling=0.3, names=r.random() < 0.5), **kw)
    while True:
        seed = r.randrange(2 ** 32)
        if inner(gen.graph(random.Random(seed), **kw)):
            return gen.symbolic(vc, random.Random(seed), dom, **kw)


def inner(sfg):
    """The operations other than inputs and outputs."""
    return [o for o in dict.fromkeys(sfg.operations) if not isinstance(o, (so.Input, so.Output))]


def outputs(vc, label, got, want):
    vc.prove(label + ": number of outputs", all(len(g) == len(w) for g, w in zip(got, want)))
    for n, (u, w) in enumerate(zip(got, want)):
        for i, (p, q) in enumerate(zip(u, w)):
            vc.prove(f"{label}: output {i}, sample {n}", lambda p=p, q=q: vc.eq(p, q, 1e-6), lambda p=p, q=q: f"{p} should be {q}")


def check(vc, label, sfg, new, before, seqs, route=None, extra=(), removed=()):
    """`new` behaves as `sfg` edited by the route; sfg is as before."""
    try:
        want = ref.RefSim(vc, sfg, route, extra, removed).run(seqs)
    except ref.Direct:
        return
    except (ZeroDivisionError, OverflowError):
        return
    vc.prove(label + ": number of inputs", len(new.input_operations) == len(sfg.input_operations) and new.input_count == sfg.input_count)
    bad = ref.consistent(new)
    vc.prove(label + ": the result is well connected", not bad, lambda: str(bad))
    try:
        got = ref.run(vc, new, seqs)
    except ref.Direct as e:
        vc.fail(label + ": no delay-free loop appears", str(e))
    outputs(vc, label, got, want)
    vc.prove(label + ": the original is not modified", ref.structure(sfg) == before and not ref.consistent(sfg))


def samples(vc, sfg, n=3, dom="real"):
    return ref.seq(vc, len(sfg.input_operations), n, dom=dom)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


# ------------------------------------------------------------------ copies
@contract(P, "copies", targets=BUILD, kind="shape", cases=range(16), more_cases=range(16, 80), n=60, n_thorough=90, bound=BOUND)
def h_copy(vc, case):
    r = rng(vc, "copy", case)
    sfg = graph(vc, r, nested=nested_op(1) if r.random() < 0.4 else None, sinks=0.2, latency=lambda q, op: (op.set_latency(q.randint(0, 3)), setattr(op, "execution_time", q.randint(1, 2))))
    before = ref.structure(sfg)
    seqs = samples(vc, sfg)
    for label, new in (("called", vc.no_error("call", sfg)), ("copy", vc.no_error("copy", sfg.copy)), ("copy of a copy", sfg()())):
        check(vc, label, sfg, new, before, seqs)
        vc.prove(label + ": same structure", ref.structure(new) == before and new.name == sfg.name, lambda: f"{ref.structure(new)} {before}")
        vc.prove(label + ": nothing shared", not set(map(id, new.components)) & set(map(id, sfg.components)))
    new = sfg()
    for op in list(new.operations):         # edits of the copy stay in the copy
        op.name = "changed"
        for p in op.inputs:
            p.clear()
        if op.type_name() in ("cmul", "c"):
            op.value = 77
        if op.type_name() == "t":
            op.initial_value = 77
    vc.prove("editing the copy leaves the original", ref.structure(sfg) == before and not ref.consistent(sfg))


@contract(P, "a graph used as an operation", targets=BUILD + [G + "connect_external_signals_to_components"], kind="shape", cases=range(12), more_cases=range(12, 80), n=60, n_thorough=90, bound=BOUND)
def h_instance(vc, case):
    r = rng(vc, "instance", case)
    inner = graph(vc, r, n_in=(1, 3))
    before = ref.structure(inner)
    ins = [so.Input() for _ in inner.input_operations]
    used = vc.no_error("instantiate", inner, *ins)
    outer = SFG(ins, [so.Output(o) for o in used.outputs])
    seqs = samples(vc, inner)
    check(vc, "instance", inner, outer, before, seqs)
    ins = [so.Input() for _ in inner.input_operations]
    used = inner()
    for p, i in zip(used.inputs, ins):
        p.connect(i)
    outs = [so.Output(o) for o in used.outputs]
    vc.prove("connected", vc.no_error("connect", used.connect_external_signals_to_components) is True)
    check(vc, "connected", inner, SFG(ins, outs), before, seqs)


# ------------------------------------------------------------------ flattening
@contract(P, "flattening", targets=[G + "flatten", G + "connect_external_signals_to_components"], kind="shape", cases=range(24), more_cases=range(24, 120), n=120, n_thorough=200,
          bound=BOUND + ", nested graphs two levels deep")
def h_flatten(vc, case):
    r = rng(vc, "flatten", case)
    sfg = graph(vc, r, nested=nested_op(1), n_ops=(1, 4))
    while not any(isinstance(o, SFG) for o in sfg.operations):
        sfg = graph(vc, r, nested=nested_op(1), n_ops=(1, 4))
    before = ref.structure(sfg)
    seqs = samples(vc, sfg)
    new = vc.no_error("flatten", quiet, sfg.flatten)
    vc.prove("no nested graph remains", not any(isinstance(o, SFG) for o in new.operations))
    check(vc, "flatten", sfg, new, before, seqs)


@contract(P, "flattening and expanding", targets=[G + "flatten"], kind="shape", cases=range(12), more_cases=range(12, 80), n=60, n_thorough=90, bound=BOUND)
def h_expand(vc, case):
    r = rng(vc, "expand", case)
    sfg = graph(vc, r, nested=nested_op(0), n_ops=(1, 4))
    before = ref.structure(sfg)
    new = vc.no_error("flatten", quiet, sfg.flatten, True)
    vc.prove("no nested graph remains", not any(isinstance(o, SFG) for o in new.operations))
    check(vc, "expand", sfg, new, before, samples(vc, sfg))


# ------------------------------------------------------------------ unfolding
@contract(P, "unfolding interleaves", targets=[G + "unfold"], kind="shape", cases=[(k, f) for k in range(14) for f in (1, 2, 3)], more_cases=[(k, f) for k in range(14, 80) for f in (2, 3, 4)], n=40, n_thorough=200, bound=BOUND + ", factors 1 to 4")
def h_unfold(vc, case):
    k, f = case
    r = rng(vc, "unfold", k)
    sfg = graph(vc, r, n_ops=(1, 4), types=gen.EXACT if k % 2 else gen.LINEAR)
    before = ref.structure(sfg)
    n, m = 2, len(sfg.input_operations)
    seqs = samples(vc, sfg, n * f)
    try:
        want = ref.run(vc, sfg, seqs)
    except ref.Direct:
        return
    new = vc.no_error("unfold", quiet, sfg.unfold, f)
    vc.prove("number of inputs and outputs", len(new.input_operations) == f * m and len(new.output_operations) == f * len(sfg.output_operations))
    bad = ref.consistent(new)
    vc.prove("the result is well connected", not bad, lambda: str(bad))
    got = ref.run(vc, new, [[v for i in range(f) for v in seqs[t * f + i]] for t in range(n)])
    o = len(sfg.output_operations)
    outputs(vc, "unfolded", [g[i * o:(i + 1) * o] for g in got for i in range(f)], want)
    vc.prove("the original is not modified", ref.structure(sfg) == before and not ref.consistent(sfg))
    vc.prove("delays", len(new.find_by_type(so.Delay)) == len(sfg.find_by_type(so.Delay)))


@contract(P, "unfolding zero times is refused", targets=[G + "unfold"], kind="bounded", n=5, bound="random graphs")
def h_unfold0(vc):
    sfg = graph(vc, random.Random(vc.seed("s")))
    vc.prove("refused", isinstance(vc.raises(sfg.unfold, 0)[1], ValueError))


# ------------------------------------------------------------------ inserting, removing, replacing
def component(vc, r, n_in, n_out):
    """An operation (or graph) with these numbers of ports, and an equal one for the reference."""
    d = vc.real
    if n_in == n_out == 1:
        k = r.randrange(5)
        v = d("new")
        if k == 0:
            mk = lambda: co.ConstantMultiplication(v)
        elif k == 1:
            mk = lambda: so.Delay(initial_value=v)
        elif k == 2:
            mk = lambda: co.Negation()
        elif k == 3:
            s = r.randint(-2, 3)
            mk = lambda: co.Shift(s)
        else:
            w = d("state")

            def mk():
                i = so.Input()
                x = so.Delay(i, initial_value=w)
                return SFG([i], [so.Output(co.Addition(co.ConstantMultiplication(v, x), i))])
        return mk
    if n_in == n_out == 2:
        v = d("new", -1, 1)
        return r.choice([lambda: fo.R2Butterfly(), lambda: wo.SymmetricTwoportAdaptor(v), lambda: fo.R2DITButterfly(v)])
    if n_out == 1 and n_in == 2:
        return r.choice([lambda: co.Subtraction(), lambda: co.Multiplication()])
    if n_out == 1 and n_in == 0:
        v = d("new")
        return lambda: co.Constant(v)

    def mk():
        ins = [so.Input() for _ in range(n_in)]
        t = so.Delay(ins[-1], initial_value=1) if ins else co.Constant(3)
        return SFG(ins, [so.Output(co.ConstantMultiplication(k + 2, ins[(k + 1) % n_in] if k and ins else t)) for k in range(n_out)])
    return mk


def distinct(vc, r):
    """No name is an identifier (a name would be meant)."""
    while True:
        sfg = graph(vc, r, names=True)
        if not any(sfg.find_by_name(o.graph_id) for o in sfg.components):
            return sfg


def readers(port, but=()):
    return [s.destination for s in port.signals if s.destination.operation not in but]


@contract(P, "inserting after an operation", targets=[G + "insert_operation_after", G + "_insert_operation_after_outputport", G + "insert_operation"] + BUILD, kind="shape", cases=range(30), more_cases=range(30, 120), n=120, n_thorough=200, bound=BOUND)
def h_after(vc, case):
    r = rng(vc, "after", case)
    sfg = distinct(vc, r)
    before = ref.structure(sfg)
    x = r.choice([o for o in dict.fromkeys(sfg.operations) if o.output_count])
    named = bool(x.name) and len(sfg.find_by_name(x.name)) == 1 and sfg.find_by_id(x.name) is None and "." not in x.name
    ident = x.name if named and r.random() < 0.5 else x.graph_id
    mode = r.choice(["port", "dotted", "each", "wide"]) if x.output_count != 1 else r.choice(["port", "each", "each", "dotted"])
    n = x.output_count
    mk = component(vc, r, n, n) if mode == "wide" else component(vc, r, 1, 1)
    route, extra = {}, []
    if mode == "wide":
        z = mk()
        extra.append(z)
        for i, o in enumerate(x.outputs):
            route[(z, i)] = o
            for d in readers(o):
                route[(d.operation, d.index)] = z.output(i)
    else:
        i = r.randrange(n)
        for o in (x.outputs if mode == "each" else [x.output(i)]):
            z = mk()
            extra.append(z)
            route[(z, 0)] = o
            for d in readers(o):
                route[(d.operation, d.index)] = z.output(0)
    new_op = mk()
    if mode == "port":
        new = vc.no_error("insert", sfg.insert_operation_after, ident, new_op, i)
    elif mode == "dotted":
        new = vc.no_error("insert", sfg.insert_operation_after, f"{ident}.{i}", new_op)
    else:
        new = vc.no_error("insert", sfg.insert_operation_after, ident, new_op)
    check(vc, f"insert after ({mode})", sfg, new, before, samples(vc, sfg), route, extra)
    vc.prove("the given operation stays unconnected", not any(p.signals for p in [*new_op.inputs, *new_op.outputs]))


@contract(P, "inserting before an operation", targets=[G + "insert_operation_before", G + "_insert_operation_before_inputport"] + BUILD, kind="shape", cases=range(30), more_cases=range(30, 120), n=120, n_thorough=200, bound=BOUND)
def h_before(vc, case):
    r = rng(vc, "before", case)
    sfg = distinct(vc, r)
    before = ref.structure(sfg)
    x = r.choice([o for o in dict.fromkeys(sfg.operations) if o.input_count])
    named = bool(x.name) and len(sfg.find_by_name(x.name)) == 1 and sfg.find_by_id(x.name) is None and "." not in x.name
    ident = x.name if named and r.random() < 0.5 else x.graph_id
    n = x.input_count
    mode = r.choice(["port", "dotted", "each", "wide"]) if n != 1 else r.choice(["port", "each", "dotted"])
    mk = component(vc, r, n, n) if mode == "wide" else component(vc, r, 1, 1)
    route, extra = {}, []
    src = [p.signals[0].source for p in x.inputs]
    if mode == "wide":
        z = mk()
        extra.append(z)
        for i in range(n):
            route[(z, i)], route[(x, i)] = src[i], z.output(i)
    else:
        k = r.randrange(n)
        for i in (range(n) if mode == "each" else [k]):
            z = mk()
            extra.append(z)
            route[(z, 0)], route[(x, i)] = src[i], z.output(0)
    new_op = mk()
    if mode == "port":
        new = vc.no_error("insert", sfg.insert_operation_before, ident, new_op, k)
    elif mode == "dotted":
        new = vc.no_error("insert", sfg.insert_operation_before, f"{ident}.{k}", new_op)
    else:
        new = vc.no_error("insert", sfg.insert_operation_before, ident, new_op)
    check(vc, f"insert before ({mode})", sfg, new, before, samples(vc, sfg), route, extra)
    vc.prove("the given operation stays unconnected", not any(p.signals for p in [*new_op.inputs, *new_op.outputs]))


@contract(P, "inserting on a signal", targets=[G + m for m in ("insert_operation_after", "insert_operation_before", "_insert_operation_before_signal", "_insert_operation_after_signal")], kind="shape", cases=range(16), more_cases=range(16, 80), n=80, n_thorough=100, bound=BOUND)
def h_signal(vc, case):
    r = rng(vc, "signal", case)
    sfg = graph(vc, r, names=False)
    before = ref.structure(sfg)
    s = r.choice([s for o in dict.fromkeys(sfg.operations) for p in o.inputs for s in p.signals])
    mk = component(vc, r, 1, 1)
    z = mk()
    new = vc.no_error("insert", r.choice([sfg.insert_operation_after, sfg.insert_operation_before]), s.graph_id, mk())
    check(vc, "insert on signal", sfg, new, before, samples(vc, sfg), {(z, 0): s.source, (s.destination.operation, s.destination.index): z.output(0)}, [z])


@contract(P, "impossible insertions are refused", targets=[G + "insert_operation_after", G + "insert_operation_before"], kind="bounded", n=60, n_thorough=100, bound=BOUND)
def h_refused(vc):
    r = random.Random(vc.seed("s"))
    sfg = graph(vc, r, names=False)
    before = ref.structure(sfg)
    ops = list(dict.fromkeys(sfg.operations))
    s = r.choice([s for o in ops for p in o.inputs for s in p.signals])
    bad = [(sfg.insert_operation_after, "nothing", co.Negation()), (sfg.insert_operation_before, "nothing", co.Negation()),
           (sfg.insert_operation_after, s.graph_id, co.Addition()), (sfg.insert_operation_before, s.graph_id, co.Addition())]
    for o in ops:
        if not o.output_count:
            bad.append((sfg.insert_operation_after, o.graph_id, co.Negation()))
        else:
            bad.append((sfg.insert_operation_after, o.graph_id, co.Addition()))
            bad.append((sfg.insert_operation_after, o.graph_id, co.Negation(), o.output_count))
        if not o.input_count:
            bad.append((sfg.insert_operation_before, o.graph_id, co.Negation()))
        else:
            bad.append((sfg.insert_operation_before, o.graph_id, co.Addition()))
            bad.append((sfg.insert_operation_before, o.graph_id, co.Negation(), o.input_count))
    for f, *a in bad:
        got, err = vc.raises(f, *a)
        vc.prove("refused", err is not None, lambda: f"{f.__name__} {a}")
    vc.prove("the original is not modified", ref.structure(sfg) == before and not ref.consistent(sfg))


@contract(P, "removing an operation connects its inputs to its outputs", targets=[G + "remove_operation"] + BUILD, kind="shape", cases=range(24), more_cases=range(24, 120), n=120, n_thorough=200, bound=BOUND)
def h_remove(vc, case):
    r = rng(vc, "remove", case)
    sfg = graph(vc, r, types=gen.EXACT + [fo.R2Butterfly, wo.SymmetricTwoportAdaptor, co.Negation, co.ConstantMultiplication], names=True)
    before = ref.structure(sfg)
    vc.prove("unknown identifier", sfg.remove_operation("nothing") is None)
    ops = inner(sfg)
    x = r.choice([o for o in ops if o.input_count == o.output_count] or ops)
    if x.input_count != x.output_count:
        vc.prove("refused", isinstance(vc.raises(sfg.remove_operation, x.graph_id)[1], ValueError))
        return
    src = [p.signals[0].source for p in x.inputs]
    if any(s.operation is x for s in src):
        return
    route = {}
    for i, o in enumerate(x.outputs):
        for d in readers(o):
            route[(d.operation, d.index)] = src[i]
    try:
        ref.RefSim(vc, sfg, route, removed={x}).run(samples(vc, sfg, 1))
    except ref.Direct:
        return
    new = vc.no_error("remove", sfg.remove_operation, x.graph_id)
    check(vc, "remove", sfg, new, before, samples(vc, sfg), route, removed={x})
    vc.prove("it is gone", new.find_by_id(x.graph_id) is None)


@contract(P, "replacing an operation", targets=[G + "replace"] + BUILD, kind="shape", cases=range(24), more_cases=range(24, 120), n=120, n_thorough=200, bound=BOUND)
def h_replace(vc, case):
    r = rng(vc, "replace", case)
    sfg = graph(vc, r, constants=0.3, names=True)
    before = ref.structure(sfg)
    ops = inner(sfg)
    x = r.choice(ops)
    mk = component(vc, r, x.input_count, x.output_count)
    z = mk()
    vc.assume(z.input_count == x.input_count and z.output_count == x.output_count)
    route = {}
    for i, p in enumerate(x.inputs):
        s = p.signals[0].source
        route[(z, i)] = z.output(s.index) if s.operation is x else s
    for i, o in enumerate(x.outputs):
        for d in readers(o, (x,)):
            route[(d.operation, d.index)] = z.output(i)
    new_op = mk()
    new = vc.no_error("replace", sfg.replace, x.graph_id, new_op)
    check(vc, "replace", sfg, new, before, samples(vc, sfg), route, [z], {x})
    for bad in ("nothing", None, 3):
        vc.prove("unknown targets are refused", vc.raises(sfg.replace, bad, mk())[1] is not None)
    wrong = co.MAD() if x.input_count != 3 else co.Negation()
    vc.prove("other numbers of ports are refused", isinstance(vc.raises(sfg.replace, x.graph_id, wrong)[1], TypeError))
    vc.prove("the original is still not modified", ref.structure(sfg) == before and not ref.consistent(sfg))


# ------------------------------------------------------------------ delays
@contract(P, "simplifying delay placement", targets=[G + "simplify_delay_element_placement"], kind="shape", cases=range(30), more_cases=range(30, 120), n=150, n_thorough=200, bound="random graphs of up to 4 operations and 6 delays; inputs, coefficients and states symbolic")
def h_simplify(vc, case):
    r = rng(vc, "simplify", case)
    sfg = graph(vc, r, n_delays=(2, 6), n_ops=(1, 4))
    if r.random() < 0.7:
        v = vc.real("common state")
        for d in sfg.find_by_type(so.Delay):
            if r.random() < 0.8:
                d.initial_value = v
    before = ref.structure(sfg)
    new = vc.no_error("simplify", sfg.simplify_delay_element_placement)
    check(vc, "simplify", sfg, new, before, samples(vc, sfg, 4))
    vc.prove("no more delays than before", len(new.find_by_type(so.Delay)) <= len(sfg.find_by_type(so.Delay)))


@contract(P, "extracting operations into a nested graph", targets=[G + "extract"], kind="shape", cases=range(24), more_cases=range(24, 120), n=120, n_thorough=200, bound=BOUND)
def h_extract(vc, case):
    r = rng(vc, "extract", case)
    sfg = graph(vc, r, n_ops=(2, 6))
    before = ref.structure(sfg)
    ops = inner(sfg)
    targets = [o.graph_id for o in r.sample(ops, r.randint(1, min(3, len(ops))))]
    new, err = vc.raises(sfg.extract, targets)
    if err is not None:
        vc.fail("extract raised", repr(err) + str(targets))
    vc.prove("the operations are inside", all(new.find_by_id(t) is None for t in targets) and len([o for o in new.operations if isinstance(o, SFG)]) == 1)
    check(vc, "extract", sfg, new, before, samples(vc, sfg))
    vc.prove("unknown operations are refused", isinstance(vc.raises(sfg.extract, ["nothing"])[1], ValueError))


# ------------------------------------------------------------------ schedules
def scheduled(r, sfg, alap, cyclic=True):
    """The graph with random latencies, scheduled with a random schedule time and random moves of its operations within their slacks."""
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler
    sch = Schedule(sfg, scheduler=(ALAPScheduler if alap else ASAPScheduler)(), cyclic=cyclic)
    longer = sch.schedule_time + r.choice([0, 0, 1, 3])
    if sch.get_max_end_time() <= longer:
        sch.set_schedule_time(longer)
    for _ in range(r.randint(0, 6)):
        op = r.choice([o for o in sc.graph(sch).operations])
        if isinstance(op, (so.Input, so.Output)):
            continue
        lo, hi = -min(sch.backward_slack(op.graph_id), 2 * sch.schedule_time), min(sch.forward_slack(op.graph_id), 2 * sch.schedule_time)
        if lo <= hi and op.graph_id in sch.start_times:
            sch.move_operation(op.graph_id, r.randint(int(lo), int(hi)))
    return sch


def delay_rings(sfg):
    """Delays feeding only each other: nothing drives them, so that no schedule represents them."""
    for d in sfg.find_by_type(so.Delay):
        seen, o = set(), d
        while o.type_name() == "t":
            if o in seen:
                return True
            seen.add(o)
            o = o.input(0).signals[0].source.operation
    return False


def edges(sfg):
    """Every connection between operations other than delays: consumer port -> (producer port, delays on the way)."""
    res = {}
    for o in dict.fromkeys(sfg.operations):
        if o.type_name() == "t":
            continue
        for port in o.inputs:
            p, d = port.signals[0].source, 0
            while p.operation.type_name() == "t":
                p, d = p.operation.input(0).signals[0].source, d + 1
            res[o.graph_id, port.index] = (p.operation.graph_id, p.index, d)
    return res


def retiming(old, new):
    """Whole samples r by which each operation is later, delays(u -> v) changing by r(v) - r(u); a list of components, or an error."""
    if {k: v[:2] for k, v in old.items()} != {k: v[:2] for k, v in new.items()}:
        return None, f"connections {old} became {new}"
    arcs = [(new[k][0], k[0], new[k][2] - old[k][2]) for k in new]
    todo, comps = {x for a in arcs for x in a[:2]}, []
    while todo:
        comp = {min(todo): 0}
        while True:
            more = {v: comp[u] + d for u, v, d in arcs if u in comp and v not in comp}
            more.update({u: comp[v] - d for u, v, d in arcs if v in comp and u not in comp})
            if not more:
                break
            comp.update(more)
        if any(u in comp and comp[v] - comp[u] != d for u, v, d in arcs):
            return None, f"delays {old} became {new}"
        todo -= comp.keys()
        comps.append(comp)
    return comps, ""


SCH = "b_asic.schedule:Schedule."


@contract(P, "a schedule converted back to a graph", targets=[SCH + m for m in ("sfg", "_reintroduce_delays", "remove_delays", "_remove_delays_no_laps", "__init__", "move_operation")] + [G + "simplify_delay_element_placement", G + "insert_operation_before"],
          kind="shape", cases=range(24), more_cases=range(24, 120), n=200, n_thorough=200, bound="random graphs of up to 5 operations with latencies up to 3, as-soon- and as-late-as-possible schedules with random moves; inputs and coefficients symbolic, delays initially zero")
def h_schedule(vc, case):
    r = rng(vc, "schedule", case)
    lat = lambda q, op: (op.set_latency(q.choice([0, 1, 1, 2, 3])), setattr(op, "execution_time", 1))
    kw = dict(types=[c for c in gen.EXACT if c is not co.Constant], latency=lat, sinks=0.1, constants=0, n_ops=(1, 5), n_in=(1, 2), n_delays=(0, 3), real=True, dangling=0.3, names=r.random() < 0.4)
    while True:
        seed = r.randrange(2 ** 32)
        sfg = gen.graph(random.Random(seed), **kw)
        if not delay_rings(sfg) and any(o.latency for o in sfg.operations if o.type_name() not in ("in", "out", "t")):
            break
    sfg = gen.symbolic(vc, random.Random(seed), "real", **kw)
    for d in sfg.find_by_type(so.Delay):
        d.initial_value = 0
    before = ref.structure(sfg)
    alap = r.random() < 0.4
    sch, err = vc.raises(scheduled, r, sfg, alap, r.random() < 0.7)
    if err is not None:
        vc.fail("scheduling raised", repr(err))
    new = vc.no_error("sfg", quiet, lambda: sch.sfg)
    comps, bad = retiming(edges(sfg), edges(new))
    vc.prove("the same connections, delays moved across operations only", comps is not None, bad)
    shift = {}
    for comp in comps:
        io = {k: v for k, v in comp.items() if k.startswith(("in", "out"))}
        base = next((v for k, v in io.items() if k.startswith("out")), next(iter(io.values()), 0))
        vc.prove("outputs stay in their sample", all(v == base for k, v in io.items() if k.startswith("out")), f"{io}")
        vc.prove("inputs stay in their sample" if not alap else "inputs are not earlier", all(v >= base if alap else v == base for k, v in io.items() if k.startswith("in")), f"{io}")
        low = min(comp.values())
        shift.update({k: v - low for k, v in comp.items()})
    bad = ref.consistent(new)
    vc.prove("schedule: the result is well connected", not bad, lambda: str(bad))
    n = 4
    seqs = samples(vc, sfg, n)
    try:
        want = ref.RefSim(vc, sfg).run(seqs)
    except ref.Direct:
        return
    late = [shift.get(o.graph_id, 0) for o in sfg.input_operations]
    try:
        got = ref.run(vc, new, [[seqs[t - k][i] if t >= k else 0 for i, k in enumerate(late)] for t in range(n)])
    except ref.Direct as e:
        vc.fail("schedule: no delay-free loop appears", str(e))
    delayed = [[want[t - shift[o.graph_id]][i] if t >= shift[o.graph_id] else 0 for i, o in enumerate(sfg.output_operations)] for t in range(n)]
    outputs(vc, "schedule", got, delayed)
    vc.prove("schedule: the original is unchanged", ref.structure(sfg) == before)
