"""Reference semantics of signal flow graphs, written from the documentation and
independent of the library's evaluator.  Works on concrete and symbolic numbers.
Only the public structure is used: operations, ports, signals, params."""
import itertools

NOTHING = object()


class Direct(Exception):
    """Combinational loop."""


def p2(vc, k):
    return vc.pow2(k)


def _adaptor(vc, op, x):
    raise KeyError


SPEC = {}


def spec(*names):
    def deco(f):
        for n in names:
            SPEC[n] = f
        return f
    return deco


def ordered(x):
    if any(isinstance(v, complex) for v in x):
        raise TypeError("complex numbers have no order")
    return x


def _so(vc, op, r):
    return r / p2(vc, op.param("shift_output"))


@spec("c")
def _c(vc, op, x):
    return [op.param("value")]


@spec("neg")
def _neg(vc, op, x):
    return [0 - x[0]]


@spec("add")
def _add(vc, op, x):
    return [_so(vc, op, x[0] + (x[1] * 1j if op.param("mul_j") else x[1]))]


@spec("sub")
def _sub(vc, op, x):
    return [_so(vc, op, x[0] - (x[1] * 1j if op.param("mul_j") else x[1]))]


@spec("addsub", "shiftaddsub")
def _addsub(vc, op, x):
    b = x[1]
    if op.type_name() == "shiftaddsub":
        b = b / p2(vc, op.param("shift"))
    if op.param("mul_j"):
        b = b * 1j
    return [_so(vc, op, x[0] + b if op.param("is_add") else x[0] - b)]


@spec("mul")
def _mul(vc, op, x):
    return [x[0] * x[1]]


@spec("div")
def _div(vc, op, x):
    return [x[0] / x[1]]


@spec("min")
def _min(vc, op, x):
    return [vc.min(ordered(x))]


@spec("max")
def _max(vc, op, x):
    return [vc.max(ordered(x))]


@spec("conj")
def _conj(vc, op, x):
    return [x[0].conjugate()]


@spec("imul")
def _imul(vc, op, x):
    return [x[0] * 1j]


@spec("cmul")
def _cmul(vc, op, x):
    return [op.param("value") * x[0]]


@spec("mad")
def _mad(vc, op, x):
    return [x[0] * x[1] + x[2] if op.param("do_add") else x[0] * x[1]]


@spec("mads")
def _mads(vc, op, x):
    p = x[1] * x[2]
    if not op.param("is_add"):
        p = 0 - p
    return [x[0] + p if op.param("do_addsub") else p]


@spec("rec")
def _rec(vc, op, x):
    return [1 / x[0]]


@spec("shift", "rshift")
def _shift(vc, op, x):
    return [x[0] / p2(vc, op.param("value"))]


@spec("lshift")
def _lshift(vc, op, x):
    return [x[0] * p2(vc, op.param("value"))]


@spec("r2bfly")
def _r2(vc, op, x):
    return [x[0] + x[1], x[0] - x[1]]


@spec("r2difbfly")
def _r2dif(vc, op, x):
    return [x[0] + x[1], op.param("w") * (x[0] - x[1])]


@spec("r2ditbfly")
def _r2dit(vc, op, x):
    return [x[0] + op.param("w") * x[1], x[0] - op.param("w") * x[1]]


@spec("r2tfbfly")
def _r2tf(vc, op, x):
    return [op.param("w0") * (x[0] + x[1]), op.param("w1") * (x[0] - x[1])]


@spec("sym2p")
def _sym2p(vc, op, x):
    return [x[1] + op.param("value") * (x[1] - x[0]), x[0] + op.param("value") * (x[1] - x[0])]


def op_outputs(vc, op, xs):
    f = SPEC.get(op.type_name())
    if f is None:
        r = op.evaluate(*xs)       # covered by its own contract (C01, C03)
        return list(r) if isinstance(r, (list, tuple)) else [r]
    return f(vc, op, xs)


class RefSim:
    """Difference equations of a flat or nested graph."""

    def __init__(self, vc, sfg, route=None, extra=(), removed=()):
        """route: {(operation, input index): output port} in place of the graph's own connections; extra: operations added by it."""
        self.vc, self.sfg = vc, sfg
        self.route, self.extra, self.removed = route or {}, extra, removed
        self.state = {}

    def step(self, inputs):
        """One sample: returns (outputs, {(graph_id path, port): value})."""
        vc, sfg = self.vc, self.sfg
        val, busy = {}, set()
        # a scope is (path of graph ids, graph, scope of the enclosing graph, the graph as operation there)
        top = ((), sfg, None, None)
        inp = dict(zip(sfg.input_operations, inputs))

        def port(scope, p):
            op = p.operation
            path, g, outer, me = scope
            k = (path, op, p.index)
            if k in val:
                return val[k]
            t = op.type_name()
            if t == "in":
                if outer is None:
                    val[k] = inp[op]
                else:
                    val[k] = src(outer, me.input(g.input_operations.index(op)))
                return val[k]
            if t == "t":
                s = self.state
                val[k] = s[(path, op)] if (path, op) in s else op.param("initial_value")
                return val[k]
            if (path, op, p.index if t == "sfg" else None) in busy:
                raise Direct(op.graph_id)
            busy.add((path, op, p.index if t == "sfg" else None))
            if t == "sfg":
                val[k] = src((path + (op.graph_id,), op, scope, op), op.output_operations[p.index].input(0))
                return val[k]
            xs = [src(scope, i) for i in op.inputs]
            for i, v in enumerate(op_outputs(vc, op, xs)):
                val[(path, op, i)] = v
            return val[k]

        def src(scope, inport):
            moved = self.route.get((inport.operation, inport.index))
            return port(scope, inport.signals[0].source if moved is None else moved)

        def everything(scope):
            path, g, _, _ = scope
            for op in dict.fromkeys([*g.operations, *self.extra] if scope is top else g.operations):
                if op in self.removed:
                    continue
                for o in op.outputs:
                    port(scope, o)
                if op.type_name() == "sfg":
                    everything((path + (op.graph_id,), op, scope, op))
                if op.type_name() == "t":
                    nxt[(path, op)] = src(scope, op.input(0))

        nxt = {}
        outs = [src(top, o.input(0)) for o in sfg.output_operations]
        everything(top)
        self.state.update(nxt)
        return outs, {(".".join((*path, op.graph_id)), i): v for (path, op, i), v in val.items()}

    def run(self, seqs):
        """seqs: per sample list of input vectors; returns list of output vectors."""
        return [self.step(v)[0] for v in seqs]


def run(vc, sfg, seqs):
    return RefSim(vc, sfg).run(seqs)


def same_function(vc, label, a, b, seqs, swap_in=None, tol=None):
    """Both graphs give the same outputs for the input sequence."""
    ya, yb = run(vc, a, seqs), run(vc, b, seqs)
    vc.prove(label + ": same number of outputs", len(ya[0]) == len(yb[0]) if ya else True)
    for n, (u, w) in enumerate(zip(ya, yb)):
        for i, (p, q) in enumerate(zip(u, w)):
            vc.prove(f"{label}: output {i} sample {n}", lambda p=p, q=q: vc.eq(p, q, tol) if tol else vc.eq(p, q), lambda: f"{p} vs {q}")


def seq(vc, n_in, length, name="x", dom="real"):
    d = vc.complex if dom == "complex" else vc.real
    return [[d(f"{name}{i}[{t}]") for i in range(n_in)] for t in range(length)]


def structure(sfg):
    """Canonical comparable description of a graph."""
    d = {}
    for op in dict.fromkeys(sfg.operations):
        d[op.graph_id] = (
            op.type_name(), str(op.name), {k: repr(v) for k, v in op.params.items()},
            {k: v for k, v in op.latency_offsets.items()}, op.execution_time,
            tuple((p.signals[0].source.operation.graph_id, p.signals[0].source.index) if p.signals else None for p in op.inputs))
    return d, [o.graph_id for o in sfg.input_operations], [o.graph_id for o in sfg.output_operations]


def consistent(sfg):
    """Two-way connection consistency of every port and signal of a graph (C06)."""
    bad = []
    for op in dict.fromkeys(sfg.operations):
        for p in op.inputs:
            if len(p.signals) != 1:
                bad.append(f"{op.graph_id} in{p.index}: {len(p.signals)} signals")
            for s in p.signals:
                if s.destination is not p:
                    bad.append(f"{op.graph_id} in{p.index}: signal names another destination")
                if s.source is None or s not in s.source.signals:
                    bad.append(f"{op.graph_id} in{p.index}: source does not list the signal")
        for p in op.outputs:
            if len(set(map(id, p.signals))) != len(p.signals):
                bad.append(f"{op.graph_id} out{p.index}: duplicate signal")
            for s in p.signals:
                if s.source is not p:
                    bad.append(f"{op.graph_id} out{p.index}: signal names another source")
                if s.destination is None or s not in s.destination.signals:
                    bad.append(f"{op.graph_id} out{p.index}: destination does not list the signal")
    ids = [op.graph_id for op in dict.fromkeys(sfg.operations)]
    if len(ids) != len(set(ids)):
        bad.append("duplicate graph ids")
    return bad
