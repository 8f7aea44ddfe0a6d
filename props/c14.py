"""C14: simulation computes the graph's difference equations."""
import random

import b_asic.core_operations as co
import b_asic.special_operations as so
from b_asic.sfg import SFG
from b_asic.simulation import Simulation
from pv import gen, ref
from pv.vc import contract

LEVEL = "bounded"
EXPLANATION = ("each graph shape is proved for all inputs, coefficients and initial values (an arbitrary state: the step contract is the induction step over samples); the graph shapes are a bounded, "
               "randomly generated family, and histories of public calls and data types are bounded checks")
P = "C14"
S = "b_asic.simulation:Simulation."
G = "b_asic.sfg:SFG."
TARGETS = [S + m for m in ("__init__", "set_input", "set_inputs", "step", "run_until", "run_for", "results", "iteration", "sfg")] + [G + m for m in ("get_precedence_list", "_traverse_for_precedence_list", "__call__")] + [
    "b_asic.special_operations:Delay.evaluate", "b_asic.special_operations:Input.evaluate", "b_asic.operation:AbstractOperation.evaluate_output", "b_asic.operation:AbstractOperation.key"]
EVAL = [G + m for m in ("evaluate", "evaluate_output", "_evaluate_source", "_do_evaluate_source")] + ["b_asic.special_operations:Delay.current_output"]


def keys(sfg, vals):
    """The reference values under the result keys of the documentation: the identifier, with the output's number if there are several."""
    out = {}
    for op in dict.fromkeys(sfg.operations):
        for o in op.outputs:
            if (op.graph_id, o.index) in vals:
                out[op.graph_id if op.output_count == 1 else f"{op.graph_id}.{o.index}"] = vals[(op.graph_id, o.index)]
    return out


def reference(vc, sfg, seqs):
    """[(outputs, values per result key)] per sample."""
    sim = ref.RefSim(vc, sfg)
    res = []
    for x in seqs:
        outs, vals = sim.step(x)
        d = keys(sfg, vals)
        for o, v in zip(sfg.output_operations, outs):
            d[o.graph_id] = v
        res.append((outs, d))
    return res


def same(vc, label, got, want):
    got = list(got)
    vc.prove(label + ": number of samples", len(got) == len(want), lambda: f"{len(got)} {len(want)}")
    for n, (g, w) in enumerate(zip(got, want)):
        vc.prove(f"{label}: sample {n}", lambda g=g, w=w: vc.eq(g, w), lambda g=g, w=w: f"{g} should be {w}")


def check_results(vc, results, want):
    own = {k for _, d in want for k in d}
    vc.prove("a sample of every node is recorded", own <= set(results), lambda: f"{sorted(own - set(results))}")
    for k in own:
        same(vc, f"node {k}", results[k], [d[k] for _, d in want])


def simulate(vc, sfg, seqs, calls):
    """Drive the simulation by `calls` (numbers of samples), returning the outputs of the last sample of each."""
    n_in = len(sfg.input_operations)
    sim = vc.no_error("simulation", Simulation, sfg, [(lambda i: lambda n: seqs[n][i])(i) for i in range(n_in)])
    return sim, [vc.no_error("run", sim.step) if c == 1 else vc.no_error("run", sim.run_for, c) for c in calls]


def unchanged(vc, sfg, before):
    vc.prove("the graph is not altered", ref.structure(sfg) == before)


@contract(P, "samples of every node of random graphs", targets=TARGETS, kind="shape", cases=range(30), more_cases=range(30, 300), n=60, n_thorough=300,
          bound="random graphs of up to 6 operations and 3 delays (two samples from an arbitrary state); inputs, coefficients, constants and states symbolic")
def h_graph(vc, case):
    r = random.Random(vc.case_seed("graph", f"c14 {case}"))
    dom = r.choice(["complex", "real"])
    big = not vc.symbolic and r.random() < 0.3
    sfg = gen.symbolic(vc, r, dom, types=gen.LINEAR if big else gen.EXACT, n_ops=(8, 20) if big else (1, 6), n_in=(0 if case % 7 == 0 else 1, 2), n_delays=(0, 7 if big else 3), dangling=0.2, sinks=0.2, real=dom == "real")
    before = ref.structure(sfg)
    n = 2
    seqs = ref.seq(vc, len(sfg.input_operations), n, dom=dom)
    want = reference(vc, sfg, seqs)
    sim, got = simulate(vc, sfg, seqs, [1] * n)
    for t, (g, (w, _)) in enumerate(zip(got, want)):
        same(vc, f"outputs at {t}", g, w)
    check_results(vc, sim.results, want)
    vc.prove("iteration", sim.iteration == n)
    unchanged(vc, sfg, before)


def nested_op(depth):
    def make(r):
        inner = gen.graph(r, types=gen.EXACT, n_ops=(0, 3), n_in=(0, 2), n_delays=(0, 2), real=True, constants=0.15, dangling=0.3, nested=nested_op(depth - 1) if depth else None)
        return inner
    return make


@contract(P, "nested graphs", targets=TARGETS + EVAL, kind="shape", cases=range(20), more_cases=range(20, 200), n=60, n_thorough=300,
          bound="random graphs with nested graphs (two levels, states inside), two samples; inputs and top-level coefficients symbolic")
def h_nested(vc, case):
    r = random.Random(vc.case_seed("graph", f"c14n {case}"))
    has = False
    while not has:
        sfg = gen.symbolic(vc, r, "real", types=gen.SIMPLE, n_ops=(1, 4), n_in=(1, 2), n_delays=(0, 2), real=True, nested=nested_op(1))
        has = any(o.type_name() == "sfg" for o in sfg.operations)
    before = ref.structure(sfg)
    seqs = ref.seq(vc, len(sfg.input_operations), 3)
    try:
        want = reference(vc, sfg, seqs)
    except ref.Direct:
        return
    sim, got = simulate(vc, sfg, seqs, [1, 1, 1])
    for t, (g, (w, _)) in enumerate(zip(got, want)):
        same(vc, f"outputs at {t}", g, w)
    check_results(vc, sim.results, want)
    unchanged(vc, sfg, before)


@contract(P, "evaluating a graph gives its first sample", targets=EVAL, kind="shape", cases=range(20), more_cases=range(20, 200), n=60, n_thorough=300, bound="random graphs of up to 6 operations; inputs, coefficients and states symbolic")
def h_evaluate(vc, case):
    r = random.Random(vc.case_seed("graph", f"c14e {case}"))
    sfg = gen.symbolic(vc, r, "real", types=gen.EXACT, n_ops=(1, 6), n_in=(1, 2), real=True, nested=nested_op(0) if case % 2 else None)
    before = ref.structure(sfg)
    x = ref.seq(vc, len(sfg.input_operations), 1)[0]
    want, vals = ref.RefSim(vc, sfg).step(x)
    got = vc.no_error("evaluate", sfg.evaluate, *x)
    same(vc, "evaluate", [got] if len(want) == 1 else got, want)
    results, delays = {}, {}
    got = [vc.no_error("evaluate_output", sfg.evaluate_output, i, x, results, delays) for i in range(len(want))]
    same(vc, "evaluate_output", got, want)
    same(vc, "evaluate_outputs", vc.no_error("evaluate_outputs", sfg.evaluate_outputs, x), want)
    unchanged(vc, sfg, before)


# ------------------------------------------------------------------ histories of public calls
@contract(P, "any history of calls gives the same samples", targets=TARGETS + [S + m for m in ("run", "clear_results", "clear_state")], kind="bounded", n=400, n_thorough=6000,
          bound="random graphs of up to 6 operations, random histories of up to 8 calls (step, run_for, run_until, run, clear_results, clear_state, set_input, set_inputs)")
def h_history(vc):
    r = random.Random(vc.seed("s"))
    sfg = gen.graph(r, gen.EXACT + [co.Min, co.Max, co.Absolute], n_ops=(1, 6), n_in=(1, 2), real=True, names=True, nested=nested_op(0) if r.random() < 0.3 else None)
    before = ref.structure(sfg)
    n_in = len(sfg.input_operations)
    length = r.randint(3, 9)
    kinds = [r.choice(["list", "function", "number", "none"]) for _ in range(n_in)]
    table = [[gen.num(r) for _ in range(40)] for _ in range(n_in)]

    def provider(i):
        """(provider, value at n)."""
        if kinds[i] == "list":
            seq = table[i][:length]
            return (seq if r.random() < 0.5 else tuple(seq)), (lambda n: seq[n])
        if kinds[i] == "function":
            row = table[i]
            return (lambda n: row[n]), (lambda n: row[n])
        if kinds[i] == "number":
            v = gen.num(r)
            return v, (lambda n: v)
        return None, (lambda n: 0)
    ps = [provider(i) for i in range(n_in)]
    value = [p[1] for p in ps]
    bounded = "list" in kinds
    try:
        with_inputs = r.random() < 0.6
        args = [p[0] for p in ps]
        sim = Simulation(sfg, args) if with_inputs else Simulation(sfg)
        if not with_inputs:
            if r.random() < 0.5:
                sim.set_inputs(args)
            else:
                for i in r.sample(range(n_in), n_in):
                    if args[i] is not None:
                        sim.set_input(i, args[i])
    except Exception as e:      # noqa: BLE001
        vc.fail("inputs are accepted", repr(e))
    model = ref.RefSim(vc, sfg)
    at, saved, last = 0, [], []

    def advance(to, save):
        nonlocal at, last
        last = []
        while at < to:
            if bounded and at >= length:
                return False
            outs, vals = model.step([f(at) for f in value])
            d = keys(sfg, vals)
            d.update({o.graph_id: v for o, v in zip(sfg.output_operations, outs)})
            if any(not abs(v) < 1e5 for v in d.values()):
                raise OverflowError      # left to the exact proofs
            if save:
                saved.append((outs, d))
            at, last = at + 1, outs
        return True
    for _ in range(r.randint(1, 8)):
        c = r.choice(["step", "step", "for", "until", "run", "clear_results", "clear_state", "set"])
        save = r.random() < 0.75
        try:
            if c == "clear_results":
                sim.clear_results()
                saved.clear()
                continue
            if c == "clear_state":
                sim.clear_state()
                model.state.clear()
                continue
            if c == "set":
                i = r.randrange(n_in)
                if kinds[i] == "list":
                    wrong = vc.raises(sim.set_input, i, table[i][:length + 1])[1]
                    vc.prove("sequences of different lengths are refused", isinstance(wrong, ValueError))
                    continue
                if kinds[i] != "none":
                    p, f = provider(i)
                    sim.set_input(i, p)
                    value[i] = f
                continue
            if c == "run" and not bounded:
                vc.prove("unlimited run is refused", isinstance(vc.raises(sim.run, save)[1], IndexError))
                continue
            k = r.randint(0, 4)
            call = {"step": lambda: sim.step(save), "for": lambda: sim.run_for(k, save), "until": lambda: sim.run_until(target, save), "run": lambda: sim.run(save)}[c]
            target = {"step": at + 1, "for": at + k, "until": at + k - 1, "run": length}[c]
        except Exception as e:      # noqa: BLE001
            vc.fail("call is accepted", f"{c}: {e!r}")
        try:
            ok = advance(target, save)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            return              # a value the operation has no result for
        got, err = vc.raises(call)
        if not ok:
            vc.prove("running beyond the input sequence is refused", isinstance(err, IndexError), lambda: repr(err))
        else:
            vc.prove("call succeeds", err is None, lambda: f"{c} {err!r}")
            same(vc, f"outputs of {c}", got, last)
        vc.prove("iteration", sim.iteration == at, lambda: f"{sim.iteration} {at}")
    res = sim.results
    own = {k for _, d in saved for k in d}
    vc.prove("results of saved samples only", own <= set(res) and (bool(saved) or not res))
    check_results(vc, res, saved)
    unchanged(vc, sfg, before)
    vc.prove("the simulated graph is a copy", sim.sfg is not sfg and ref.structure(sim.sfg)[1:] == before[1:])


@contract(P, "inputs are checked", targets=TARGETS, kind="bounded", n=40, bound="random graphs", n_thorough=400)
def h_inputs(vc):
    r = random.Random(vc.seed("s"))
    sfg = gen.graph(r, gen.EXACT, n_in=(2, 4), real=True)
    n = len(sfg.input_operations)
    for k in (0, n - 1, n + 1):
        vc.prove("wrong number of inputs is refused", isinstance(vc.raises(Simulation, sfg, [1] * k)[1], ValueError))
    sim = Simulation(sfg)
    for k in (-1, n):
        vc.prove("no such input", isinstance(vc.raises(sim.set_input, k, 1)[1], IndexError))
    vc.prove("not a graph", isinstance(vc.raises(Simulation, co.Negation())[1], TypeError))
    vc.prove("sequences of different lengths are refused", isinstance(vc.raises(Simulation, sfg, [[1, 2], [1, 2, 3]] + [0] * (n - 2))[1], ValueError))


@contract(P, "independent simulations of one graph", targets=TARGETS, kind="bounded", n=60, n_thorough=600, bound="random graphs of up to 6 operations, two simulations interleaved")
def h_two(vc):
    r = random.Random(vc.seed("s"))
    sfg = gen.graph(r, gen.EXACT, n_ops=(1, 6), n_in=(1, 2), n_delays=(1, 3), real=True, nested=nested_op(0) if r.random() < 0.5 else None)
    n_in = len(sfg.input_operations)
    seqs = [gen.sequence(r, n_in, 6) for _ in range(2)]
    sims = [Simulation(sfg, [(lambda s, i: lambda n: s[n][i])(s, i) for i in range(n_in)]) for s in seqs]
    refs = [reference(vc, sfg, s) for s in seqs]
    while any(s.iteration < 6 for s in sims):
        k = r.randrange(2)
        if sims[k].iteration < 6:
            t = sims[k].iteration
            same(vc, f"simulation {k}", sims[k].step(), refs[k][t][0])


@contract(P, "delay-free loops are refused", targets=TARGETS + EVAL, kind="bounded", n=60, n_thorough=600, bound="random graphs of up to 4 operations with a delay-free loop added")
def h_loop(vc):
    r = random.Random(vc.seed("s"))
    a, b = so.Input(), so.Input()
    x = co.Addition(a)
    ops = [x]
    for _ in range(r.randint(0, 3)):
        ops.append(r.choice([lambda s: co.Negation(s), lambda s: co.ConstantMultiplication(0.5, s), lambda s: co.Addition(s, b)])(ops[-1]))
    x.input(1).connect(ops[-1])
    y = co.Negation(b)
    outs = [so.Output(r.choice(ops)), so.Output(y)]
    sfg = SFG([a, b], outs) if y.input(0).signals and b.output(0).signals else None
    sim = Simulation(sfg, [1, 2])
    vc.prove("simulation is refused", vc.raises(sim.step)[1] is not None and sim.iteration == 0)
    vc.prove("evaluation is refused", vc.raises(sfg.evaluate, 1, 2)[1] is not None)


@contract(P, "a wide enough data type changes no sample", targets=TARGETS, kind="bounded", n=150, n_thorough=2000, bound="random real graphs of up to 6 additions, subtractions, negations and dyadic coefficients, 4 samples, fixed point with 30 integer and 30 fractional bits")
def h_data_type(vc):
    from b_asic.data_type import DataType
    r = random.Random(vc.seed("s"))
    sfg = gen.graph(r, gen.SIMPLE, n_ops=(1, 6), n_in=(1, 2), real=True, constants=0)
    n_in = len(sfg.input_operations)
    seqs = gen.sequence(r, n_in, 4)
    want = reference(vc, sfg, seqs)
    sim = vc.no_error("simulation", Simulation, sfg, [[x[i] for x in seqs] for i in range(n_in)], DataType(wl=(30, 30)))
    vc.no_error("run", sim.run)
    for k, v in want[0][1].items():
        got = [float(x) for x in sim.results[k]]
        same(vc, f"node {k}", got, [d[k] for _, d in want])
    vc.prove("initial values of the graph are kept", all(isinstance(o.initial_value, (int, float)) for o in sfg.find_by_type(so.Delay)))
