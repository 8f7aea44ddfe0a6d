"""C06: two-way consistency of ports and signals under every edit."""
import itertools
import random

import b_asic.core_operations as co
import b_asic.special_operations as so
from b_asic.port import OutputPort
from b_asic.signal import Signal
from pv.vc import contract

LEVEL = "bounded"
P = "C06"
S = "b_asic.signal:Signal."
I = "b_asic.port:InputPort."
O = "b_asic.port:OutputPort."
EXPLANATION = ("Consistency is an inductive invariant: from EVERY consistent state of a universe of three signals, two output ports and three "
               "input ports each single edit is executed and compared with its effect on the abstract connection map (signal -> source, destination); "
               "an edit touches at most one signal, its two old ports, the new port and that port's signal, so the universe contains every local "
               "situation. By induction every history of edits keeps the invariant. Random long histories are run as well.")
NS = 3


class World:
    """Real objects plus the abstract map sig -> (source, destination)."""

    def __init__(self, state):
        self.a, self.b = co.Negation(), so.Input()                 # single-output operations
        self.two = co.Addition()
        self.outs = [self.a.output(0), self.b.output(0)]
        self.ins = [self.a.input(0), self.two.input(0), self.two.input(1)]
        self.sigs = [Signal() for _ in range(NS)]
        for s, (src, dst) in zip(self.sigs, state):
            if src is not None:
                s.set_source(self.outs[src])
            if dst is not None:
                s.set_destination(self.ins[dst])
        self.model = {s: (None if src is None else self.outs[src], None if dst is None else self.ins[dst])
                      for s, (src, dst) in zip(self.sigs, state)}

    def occupied(self, port, but=None):
        return next((s for s, (_, d) in self.model.items() if d is port and s is not but), None)


def agrees(w):
    """The real objects are exactly the abstract map."""
    outs = {id(p): p for p in w.outs}
    ins = {id(p): p for p in w.ins}
    for s, (src, dst) in w.model.items():
        if s.source is not src or s.destination is not dst:
            return f"signal names {s.source!r} -> {s.destination!r}"
        if s.dangling() != (src is None or dst is None):
            return "dangling()"
        if s.source_operation is not (src.operation if src else None) or s.destination_operation is not (dst.operation if dst else None):
            return "source/destination operation"
        for p in (src, dst):
            if p is not None:
                (outs if isinstance(p, OutputPort) else ins).setdefault(id(p), p)
    for p in outs.values():
        want = {id(s) for s, (src, _) in w.model.items() if src is p}
        got = [id(s) for s in p.signals]
        if len(got) != len(set(got)) or set(got) != want or p.signal_count != len(want):
            return "output port lists the wrong signals"
    for p in ins.values():
        want = [id(s) for s, (_, dst) in w.model.items() if dst is p]
        got = [id(s) for s in p.signals]
        if got != want or p.signal_count != len(want):
            return "input port lists the wrong signals"
        src = w.model[p.signals[0]][0] if got else None
        if p.connected_source is not src:
            return "connected_source"
    return None


def states():
    for srcs in itertools.product((None, 0, 1), repeat=NS):
        for dsts in itertools.product((None, 0, 1, 2), repeat=NS):
            used = [d for d in dsts if d is not None]
            if len(used) == len(set(used)):
                yield tuple(zip(srcs, dsts))


STATES = list(states())


# each edit: generator of (call, effect) where effect(w) updates the model and says whether an error is required
def e_set_source(w):
    for s in w.sigs:
        for o in w.outs:
            yield f"set_source({w.outs.index(o)})", lambda s=s, o=o: s.set_source(o), lambda s=s, o=o: w.model.__setitem__(s, (o, w.model[s][1]))
        yield "set_source(op)", lambda s=s: s.set_source(w.a), lambda s=s: w.model.__setitem__(s, (w.a.output(0), w.model[s][1]))
        yield "set_source(op with no output)", lambda s=s: s.set_source(so.Output()), "error"
        for t in w.sigs:
            src = w.model[t][0]
            if src is None and w.model[s][0] is not None:
                yield "set_source(signal without source)", lambda s=s, t=t: s.set_source(t), "error"
            else:
                yield "set_source(signal)", lambda s=s, t=t: s.set_source(t), lambda s=s, src=src: w.model.__setitem__(s, (src, w.model[s][1]))


def e_set_destination(w):
    for s in w.sigs:
        for i in w.ins:
            eff = "error" if w.occupied(i, s) else (lambda s=s, i=i: w.model.__setitem__(s, (w.model[s][0], i)))
            yield "set_destination(port)", lambda s=s, i=i: s.set_destination(i), eff
            if i.operation is w.a:
                yield "set_destination(op)", lambda s=s: s.set_destination(w.a), eff
        yield "set_destination(op with two inputs)", lambda s=s: s.set_destination(w.two), "error"
        for t in w.sigs:
            dst = w.model[t][1]
            if dst is None and w.model[s][1] is not None:
                yield "set_destination(signal without destination)", lambda s=s, t=t: s.set_destination(t), "error"
            else:
                eff = "error" if dst is not None and w.occupied(dst, s) else (lambda s=s, dst=dst: w.model.__setitem__(s, (w.model[s][0], dst)))
                yield "set_destination(signal)", lambda s=s, t=t: s.set_destination(t), eff


def e_remove(w):
    for s in w.sigs:
        yield "remove_source", lambda s=s: s.remove_source(), lambda s=s: w.model.__setitem__(s, (None, w.model[s][1]))
        yield "remove_destination", lambda s=s: s.remove_destination(), lambda s=s: w.model.__setitem__(s, (w.model[s][0], None))


def e_output(w):
    for o in w.outs:
        for s in w.sigs:
            has = w.model[s][0] is o
            yield "output.add_signal", lambda o=o, s=s: o.add_signal(s), "error" if has else (lambda o=o, s=s: w.model.__setitem__(s, (o, w.model[s][1])))
            yield "output.remove_signal", lambda o=o, s=s: o.remove_signal(s), (lambda s=s: w.model.__setitem__(s, (None, w.model[s][1]))) if has else "error"

        def clr(o=o):
            for s, (src, dst) in list(w.model.items()):
                if src is o:
                    w.model[s] = (None, dst)
        yield "output.clear", lambda o=o: o.clear(), clr


def e_input(w):
    for i in w.ins:
        for s in w.sigs:
            has = w.model[s][1] is i
            yield "input.add_signal", lambda i=i, s=s: i.add_signal(s), "error" if w.occupied(i) else (lambda i=i, s=s: w.model.__setitem__(s, (w.model[s][0], i)))
            yield "input.remove_signal", lambda i=i, s=s: i.remove_signal(s), (lambda s=s: w.model.__setitem__(s, (w.model[s][0], None))) if has else "error"
        old = w.occupied(i)

        def clr(old=old):
            if old is not None:
                w.model[old] = (w.model[old][0], None)
        yield "input.clear", lambda i=i: i.clear(), clr


def e_connect(w):
    for i in w.ins:
        busy = w.occupied(i)
        for label, src, port in [("port", w.outs[0], w.outs[0]), ("port", w.outs[1], w.outs[1]), ("operation", w.b, w.b.output(0)), ("operation", w.two, w.two.output(0))]:
            def conn(i=i, port=port):
                s = w.last
                w.model[s] = (port, i)
            yield f"connect({label})", lambda i=i, src=src: setattr(w, "last", i.connect(src, "nm")), "error" if busy else conn
            yield f"new signal({label})", lambda i=i, src=src: setattr(w, "last", Signal(src, i)), "error" if busy else conn

            def op(i=i, port=port):
                w.model[i.signals[0]] = (port, i)
            yield f"<<= {label}", lambda i=i, src=src: i.__ilshift__(src), "error" if busy else op
            if i.operation is w.a:
                yield f"operation <<= {label}", lambda i=i, src=src: w.a.__ilshift__(src), "error" if busy else op
                yield f"new signal({label}, operation)", lambda i=i, src=src: setattr(w, "last", Signal(src, w.a)), "error" if busy else conn
        yield "connect(no output)", lambda i=i: i.connect(so.Output()), "error"
        yield "new signal(no output)", lambda i=i: Signal(so.Output(), i), "error"
        yield "operation with two inputs <<= port", lambda: w.two.__ilshift__(w.outs[0]), "error"
        for s in w.sigs:
            yield "connect(signal)", lambda i=i, s=s: i.connect(s), "error" if busy else (lambda i=i, s=s: w.model.__setitem__(s, (w.model[s][0], i)))


def e_construct(w):
    for s in w.sigs:
        def made(s=s):
            op = w.last
            w.model[s] = (w.model[s][0], op.input(0))
            w.model[op.input(1).signals[0]] = (w.outs[1], op.input(1))
        yield "operation from a signal and a port", lambda s=s: setattr(w, "last", co.Subtraction(s, w.outs[1])), made
        yield "operation from a signal and an operation without output", lambda s=s: co.Subtraction(s, so.Output()), "error"
        yield "operation with negative latency", lambda s=s: co.Subtraction(s, w.outs[0], latency=-1), "error"
        yield "operation with a bad latency offset", lambda s=s: co.Subtraction(w.outs[0], s, latency_offsets={"in7": 1}), "error"


def e_delay(w):
    for i in w.ins:
        old = w.occupied(i)
        for n in range(3):
            def eff(i=i, n=n, old=old):
                last = w.last
                if n == 0:
                    assert last is i
                    return
                p, k = i, 0
                while p is not last:
                    s = p.signals[0]
                    d = s.source.operation
                    assert isinstance(d, so.Delay)
                    w.model[s] = (d.output(0), p)
                    p, k = d.input(0), k + 1
                assert k == n
                if old is not None:
                    w.model[old] = (w.model[old][0], last)
            yield f"delay({n})", lambda i=i, n=n: setattr(w, "last", i.delay(n)), eff
        yield "delay(-1)", lambda i=i: i.delay(-1), "error"
        yield "delay(1.5)", lambda i=i: i.delay(1.5), "error"


def e_swap(w):
    a, b = w.two.inputs

    def eff():
        assert w.two.input(0) is b and w.two.input(1) is a and b.index == 0 and a.index == 1
    yield "swap_io", lambda: w.two.swap_io(), eff
    yield "swap_io of an operation that cannot be swapped", lambda: co.Subtraction().swap_io(), "error"


EDITS = {"set_source": (e_set_source, [S + "set_source"]), "set_destination": (e_set_destination, [S + "set_destination"]),
         "remove": (e_remove, [S + "remove_source", S + "remove_destination"]),
         "output port": (e_output, [O + "add_signal", O + "remove_signal", O + "clear"]),
         "input port": (e_input, [I + "add_signal", I + "remove_signal", I + "clear"]),
         "connect": (e_connect, [I + "connect", S + "__init__", I + "__ilshift__", "b_asic.operation:AbstractOperation.__ilshift__"]),
         "construct": (e_construct, ["b_asic.operation:AbstractOperation.__init__"]),
         "delay": (e_delay, [I + "delay"]), "swap": (e_swap, ["b_asic.operation:AbstractOperation.swap_io"])}
TARGETS = sorted({t for _, ts in EDITS.values() for t in ts}) + [S + m for m in ("source", "destination", "source_operation", "destination_operation", "dangling")] + [
    I + "signals", I + "signal_count", I + "connected_source", O + "signals", O + "signal_count"]


def apply(w, call, effect):
    """Run one edit and compare with the abstract map; returns a complaint or None."""
    err = None
    try:
        call()
    except (ValueError, TypeError, KeyError, IndexError, AttributeError) as e:
        err = e
    if effect == "error":
        if err is None:
            return "a forbidden edit was accepted"
    elif err is not None:
        return f"an allowed edit was refused: {err!r}"
    else:
        try:
            effect()
        except AssertionError:
            return "the edit does not have the documented effect"
    return agrees(w)


CASES = list(EDITS)


@contract(P, "every edit from every consistent state", cases=CASES, kind="shape", n=1, n_thorough=1, targets=TARGETS,
          bound="universe of 3 signals, 2 output ports and 3 input ports (all consistent states enumerated, all edits); larger graphs by locality of each edit")
def h_step(vc, case):
    gen = EDITS[case][0]
    for st in STATES:
        w = World(st)
        bad = agrees(w)
        if bad is not None:
            vc.prove("connecting unconnected signals reaches every state", False, f"state {st}: {bad}")
            return
        n = len(list(gen(w)))
        for k in range(n):
            w = World(st)
            label, call, effect = list(gen(w))[k]
            bad = apply(w, call, effect)
            if bad is not None:
                vc.prove(f"{label}: connections agree with the abstract map", False, f"state {st}: {bad}")
                return
        vc.prove("connections agree with the abstract map after every edit", True)


@contract(P, "histories of edits", kind="bounded", bound="random histories of 40 edits over all edit kinds", n=150, n_thorough=3000, targets=TARGETS)
def h_history(vc):
    rng = random.Random(vc.seed("seed"))
    w = World([(None, None)] * NS)
    trail = []
    for step in range(40):
        all_edits = [e for g, _ in EDITS.values() for e in g(w)]
        label, call, effect = rng.choice(all_edits)
        trail.append(label)
        bad = apply(w, call, effect)
        vc.prove("connections agree with the abstract map", bad is None, f"{bad} after {trail}")


@contract(P, "graph navigation follows the connections", kind="bounded", bound="random graphs of up to 6 operations", n=150,
          targets=["b_asic.operation:AbstractOperation." + m for m in ("input_signals", "output_signals", "preceding_operations", "subsequent_operations", "neighbors", "inputs", "outputs", "input", "output", "input_count", "output_count", "source", "destination")]
          + ["b_asic.graph_component:AbstractGraphComponent.traverse", S + "neighbors"])
def h_nav(vc):
    ops = [vc.choice("op", [co.Addition, co.Negation, so.Input, so.Delay, so.Output, co.Multiplication])() for _ in range(vc.int("n", 1, 6))]
    outs = [p for o in ops for p in o.outputs]
    edges = []
    for o in ops:
        for p in o.inputs:
            k = vc.int("src", -1, len(outs) - 1)
            if k >= 0:
                p.connect(outs[k])
                edges.append((outs[k], p))
    for o in ops:
        key = lambda xs: sorted(map(id, xs))
        vc.prove("input signals", [(s.source, s.destination) for s in o.input_signals] == [e for p in o.inputs for e in edges if e[1] is p])
        vc.prove("output signals", key(s.destination for s in o.output_signals) == key(b for a, b in edges if a.operation is o))
        vc.prove("preceding operations", key(o.preceding_operations) == key(a.operation for a, b in edges if b.operation is o))
        vc.prove("subsequent operations", key(o.subsequent_operations) == key(b.operation for a, b in edges if a.operation is o))
        vc.prove("neighbours", key(o.neighbors) == key([*o.input_signals, *o.output_signals]))
        reach, todo = {o}, [o]
        while todo:
            x = todo.pop()
            for a, b in edges:
                for y in ([b.operation] if a.operation is x else []) + ([a.operation] if b.operation is x else []):
                    if y not in reach:
                        reach.add(y)
                        todo.append(y)
        got = [c for c in o.traverse()]
        vc.prove("traverse visits everything connected exactly once", key(c for c in got if not isinstance(c, Signal)) == key(reach) and len(set(map(id, got))) == len(got))
        vc.prove("traverse visits every signal", key(c for c in got if isinstance(c, Signal)) == key(s for x in reach for s in x.input_signals))
        vc.prove("port numbers", all(o.input(k) is p and p.index == k and p.operation is o for k, p in enumerate(o.inputs)) and all(o.output(k) is p and p.index == k and p.operation is o for k, p in enumerate(o.outputs)))
        vc.prove("port counts", o.input_count == len(o.inputs) and o.output_count == len(o.outputs))
