"""C15: state-space, transfer function, impulse responses, linearity, precedence, topological order, critical path and iteration period bound."""
import contextlib
import itertools
import random
from fractions import Fraction

import numpy as np
import z3

import b_asic.core_operations as co
import b_asic.fft_operations as fo
import b_asic.sfg as sfg_mod
import b_asic.special_operations as so
import b_asic.state_space as ss_mod
import b_asic.utility_operations as uo
import b_asic.wdf_operations as wo
from b_asic.operation import Operation
from b_asic.sfg import SFG
from b_asic.state_space import StateSpace
from b_asic.transfer_function import TransferFunction
from pv import gen, poly
from pv import sched as sc
from pv.ref import RefSim
from pv.sym import as_complex, is_sym
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("coefficients, states, inputs and latencies are arbitrary; the graphs are a fixed library and randomly drawn ones per case; in the symbolic runs every coefficient that is not identically zero is "
               "taken to be above the documented threshold of 1e-12, and fractions.Fraction and numpy.zeros are replaced by exact stand-ins; transfer functions, poles and zeros are numerical and bounded")
P = "C15"
G = "b_asic.sfg:SFG."
TOL = 1e-9


# ------------------------------------------------------------------ stand-ins, in symbolic runs only
class Magnitude:
    """abs() of a number: above any threshold unless the number is identically zero."""

    def __init__(self, x):
        c = as_complex(x)
        self.zero = poly.Norm().equal(c.re, z3.RealVal(0)) and poly.Norm().equal(c.im, z3.RealVal(0))

    def __le__(self, t):
        return self.zero

    def __gt__(self, t):
        return not self.zero


def magnitude(x):
    return Magnitude(x) if is_sym(x) else abs(x)


class Numpy:
    """numpy with arrays of arbitrary objects."""

    def __getattr__(self, name):
        return getattr(np, name)

    def zeros(self, shape, dtype=None):
        a = np.empty(shape, dtype=object)
        a[...] = 0
        return a


class Matrices(StateSpace):
    """Records the matrices as they are handed over."""

    def __init__(self, A, B, C, D):
        self.A, self.B, self.C, self.D = A, B, C, D


@contextlib.contextmanager
def patched(mod, **kw):
    d = vars(mod)
    saved = {k: d[k] for k in kw if k in d}
    d.update(kw)
    try:
        yield
    finally:
        for k in kw:
            if k in saved:
                d[k] = saved[k]
            else:
                d.pop(k, None)


def generic(vc):
    """Coefficients are generic: no product falls below the threshold of the analyses unless it vanishes identically."""
    stack = contextlib.ExitStack()
    if vc.symbolic:
        stack.enter_context(patched(sfg_mod, abs=magnitude))
        stack.enter_context(patched(ss_mod, np=Numpy()))
    return stack


AFFINE_FREE = dict(constants=0.0, n_ops=(1, 6), n_in=(1, 2), n_delays=(0, 3))
CX = [c for c in gen.LINEAR if c.__module__ != wo.__name__] + [co.ImaginaryMultiplication, fo.R4Butterfly]


def linear_graph(vc, key, **kw):
    """A random graph of linear operations with arbitrary coefficients and initial values."""
    r = random.Random(key)
    dom = "complex" if key % 3 == 0 else "real"
    kw = {**AFFINE_FREE, **kw}
    return gen.symbolic(vc, r, dom, types=CX if dom == "complex" else gen.LINEAR, real=dom == "real", **kw), dom


def draw(vc, dom, name):
    return vc.complex(name) if dom == "complex" else vc.real(name)


def state_space(vc, sfg):
    with generic(vc):
        return StateSpace.from_sfg.__func__(Matrices if vc.symbolic else StateSpace, sfg)


def response(vc, sfg, state, inputs):
    """(next state, outputs) by the difference equations."""
    ref = RefSim(vc, sfg)
    delays = sfg.find_by_type(so.Delay)
    for d, v in zip(delays, state):
        ref.state[((), d)] = v
    outs, _ = ref.step(inputs)
    return [ref.state[((), d)] for d in delays], outs


def dot(row, v):
    return sum((a * b for a, b in zip(row, v)), 0)


@contract(P, "state-space matrices of linear graphs", targets=["b_asic.state_space:StateSpace.from_sfg", "b_asic.state_space:StateSpace._populate_matrix_from_responses", G + "_get_impulse_responses_between_nodes",
                                                             G + "_output_ports_decayed", G + "to_ss", G + "is_linear"],
          cases=range(40), more_cases=range(40, 200), kind="shape", n=1, n_thorough=2, bound="randomly drawn graphs of up to 6 operations, 2 inputs and 3 delays; coefficients, states, inputs and initial values arbitrary")
def h_state_space(vc, key):
    sfg, dom = linear_graph(vc, key)
    ss = vc.no_error("state-space matrices of a linear graph", state_space, vc, sfg)
    if ss is None:
        return
    n, m, p = len(sfg.find_by_type(so.Delay)), len(sfg.input_operations), len(sfg.output_operations)
    vc.prove("shapes", (np.shape(ss.A), np.shape(ss.B), np.shape(ss.C), np.shape(ss.D)) == ((n, n), (n, m), (p, n), (p, m)), lambda: f"{np.shape(ss.A)} {np.shape(ss.B)} {np.shape(ss.C)} {np.shape(ss.D)}")
    x = [draw(vc, dom, f"x{i}") for i in range(n)]
    u = [draw(vc, dom, f"u{i}") for i in range(m)]
    nxt, out = response(vc, sfg, x, u)
    for i in range(n):
        vc.prove(f"next value of state {i}", lambda: vc.eq(dot(ss.A[i], x) + dot(ss.B[i], u), nxt[i]), lambda: f"A={ss.A[i]} B={ss.B[i]}")
    for i in range(p):
        vc.prove(f"value of output {i}", lambda: vc.eq(dot(ss.C[i], x) + dot(ss.D[i], u), out[i]), lambda: f"C={ss.C[i]} D={ss.D[i]}")


def sub_graph(r):
    g = gen.graph(r, types=gen.SIMPLE, constants=0.0, n_ops=(1, 3), n_in=(1, 2), n_delays=(0, 2), real=True, max_outputs=2)
    return g


@contract(P, "state-space matrices of graphs with nested graphs", targets=["b_asic.state_space:StateSpace.from_sfg", G + "flatten"], cases=range(12), more_cases=range(12, 80), kind="shape", n=1, n_thorough=2,
          bound="randomly drawn graphs of up to 5 operations, some of them graphs; five samples from rest")
def h_nested(vc, key):
    sfg, dom = linear_graph(vc, 3 * key + 1, nested=sub_graph, n_ops=(2, 5), n_delays=(0, 2))
    ss = vc.no_error("state-space matrices of a nested graph", state_space, vc, sfg)
    if ss is None:
        return
    flat = sfg.flatten()
    n = len(flat.find_by_type(so.Delay))
    vc.prove("every delay is a state", np.shape(ss.A) == (n, n))
    us = [[draw(vc, dom, f"u{i}[{t}]") for i in range(len(sfg.input_operations))] for t in range(5)]
    ref = RefSim(vc, sfg)
    rest(ref, sfg)
    x = [0] * n
    for t, u in enumerate(us):
        out = ref.step(u)[0]
        for i, y in enumerate(out):
            vc.prove(f"output {i}, sample {t}", lambda: vc.eq(dot(ss.C[i], x) + dot(ss.D[i], u), y))
        x = [dot(ss.A[i], x) + dot(ss.B[i], u) for i in range(n)]


def rest(ref, sfg, path=()):
    for op in sfg.operations:
        if isinstance(op, so.Delay):
            ref.state[(path, op)] = 0
        elif isinstance(op, SFG):
            rest(ref, op, (*path, op.graph_id))


@contract(P, "state-space matrices as given, real unless complex", targets=["b_asic.state_space:StateSpace.__init__"], kind="bounded", n=60, n_thorough=1000, bound="random matrices of up to 3 states, inputs, outputs")
def h_matrices(vc):
    r = random.Random(vc.seed("s"))
    n, m, p = r.randint(0, 3), r.randint(1, 3), r.randint(1, 3)
    cx = [r.random() < 0.25 for _ in range(4)]
    mat = lambda a, b, c: np.array([[gen.num(r, False) + (1j * r.choice([0, 1, -2]) if c else 0) for _ in range(b)] for _ in range(a)]).reshape(a, b)
    A, B, C, D = mat(n, n, cx[0]), mat(n, m, cx[1]), mat(p, n, cx[2]), mat(p, m, cx[3])
    ss = StateSpace(A, B, C, D)
    for name, a, b in zip("ABCD", (ss.A, ss.B, ss.C, ss.D), (A, B, C, D)):
        vc.prove("matrix " + name, np.shape(a) == np.shape(b) and bool(np.all(a == b)), lambda: f"{a} {b}")
    real = not any(np.any(np.imag(x) != 0) for x in (A, B, C, D))
    vc.prove("real when no entry is complex", all(np.isrealobj(x) == real for x in (ss.A, ss.B, ss.C, ss.D)))


# ------------------------------------------------------------------ impulse responses
@contract(P, "impulse responses of linear graphs", targets=[G + "get_impulse_responses", G + "_get_impulse_responses_between_nodes"], cases=range(24), more_cases=range(24, 120), kind="shape", n=1, n_thorough=2,
          bound="randomly drawn graphs of up to 6 operations; five samples; coefficients and initial values arbitrary")
def h_impulse(vc, key):
    sfg, dom = linear_graph(vc, 500 + key, nested=sub_graph if key % 4 == 1 and (500 + key) % 3 else None)
    everywhere = vc.choice("all_nodes", [False, True])
    N = 5
    with generic(vc):
        got = vc.no_error("impulse responses", sfg.get_impulse_responses, max_iters=N, all_nodes=everywhere)
    if got is None:
        return
    ins = sfg.input_operations
    want = {}
    for k in range(len(ins)):
        ref = RefSim(vc, sfg)
        rest(ref, sfg)
        for t in range(N):
            out, vals = ref.step([1 if i == k and t == 0 else 0 for i in range(len(ins))])
            for o, y in zip(sfg.output_operations, out):
                want.setdefault((o.graph_id, k), []).append(y)
            if everywhere:
                for op in sfg.operations:
                    if not isinstance(op, (so.Input, so.Output)):
                        for port in op.outputs:
                            want.setdefault((op.key(port.index, op.graph_id), k), []).append(vals[(op.graph_id, port.index)])
    vc.prove("responses of every node, one per input", {(key, k) for key, hs in got.items() for k in range(len(hs))} == set(want), lambda: f"{sorted(got)} {sorted(want)}")
    for (node, k), ys in want.items():
        h = list(got.get(node, [[]] * (k + 1))[k])
        vc.prove(f"{node}: length", len(h) <= N)
        for t, y in enumerate(ys):
            g = h[t] if t < len(h) else 0
            vc.prove(f"{node} after an impulse at input {k}: sample {t}", lambda: vc.eq(g, y), lambda: f"{g} {y}")


@contract(P, "responses until decay, and their norms", targets=[G + "get_impulse_responses", G + "get_l1_norms", G + "get_l2_norms"], kind="bounded", n=60, n_thorough=600,
          bound="random stable graphs without loops or with decaying ones, real and complex coefficients")
def h_norms(vc):
    r = random.Random(vc.seed("s"))
    cx = r.random() < 0.4
    x = so.Input()
    h = [gen.num(r, cx) for _ in range(r.randint(1, 6))]
    node, acc = x, None
    for c in h:
        m = co.ConstantMultiplication(c, node)
        acc = m if acc is None else co.Addition(acc, m)
        node = so.Delay(node, initial_value=r.choice([0, 0, 5]))
    if r.random() < 0.5:
        a = r.choice([0.5, -0.5, 0.25])
        add = co.Addition(acc, None)
        t = so.Delay(add)
        add.input(1).connect(co.ConstantMultiplication(a, t))
        acc, want = add, []
        for n in range(70):
            want.append((h[n] if n < len(h) else 0) + (a * want[-1] if want else 0))
    else:
        want = h
    sfg = SFG([x], [so.Output(acc), so.Output(node)])
    got = vc.no_error("impulse responses", sfg.get_impulse_responses)
    l1 = vc.no_error("l1 norms", sfg.get_l1_norms)
    l2 = vc.no_error("l2 norms", sfg.get_l2_norms)
    if got is None or l1 is None or l2 is None:
        return
    vc.prove("of the outputs, unless all nodes are asked for", set(got) == set(l1) == set(l2) == {"out0", "out1"}, lambda: str(sorted(got)))
    for node, w in (("out0", want), ("out1", [0] * len(h) + [1])):
        g = list(got[node][0])
        vc.prove("response", all(abs((g[t] if t < len(g) else 0) - (w[t] if t < len(w) else 0)) < 1e-9 for t in range(max(len(g), len(w)))), lambda: f"{h}: {g} should be {w}")
        vc.prove("sum of magnitudes", abs(l1[node] - sum(abs(v) for v in w)) < 1e-8, lambda: f"{w}: {l1[node]}")
        vc.prove("root of the sum of squared magnitudes", abs(l2[node] - sum(abs(v) ** 2 for v in w) ** 0.5) < 1e-8, lambda: f"{w}: {l2[node]}")


@contract(P, "responses from inner nodes to the outputs", targets=[G + "get_impulse_responses_from_nodes"], kind="bounded", n=60, n_thorough=600, bound="random graphs of single-output operations, six samples")
def h_from_nodes(vc):
    r = random.Random(vc.seed("s"))
    sfg = gen.graph(r, types=gen.SIMPLE, constants=0.0, n_ops=(1, 6), real=True)
    N = 6
    got = vc.no_error("responses from the nodes", sfg.get_impulse_responses_from_nodes, max_iters=N)
    if got is None:
        return
    ops = [op for op in dict.fromkeys(sfg.operations) if not isinstance(op, (so.Input, so.Output, so.Delay))]
    vc.prove("every output", set(got) == {o.graph_id for o in sfg.output_operations})
    for op in ops:
        # the response to an impulse added to the value of op: the difference to a graph with one more input
        ref, other = RefSim(vc, sfg), Nudged(vc, sfg, op)
        rest(ref, sfg), rest(other, sfg)
        u = [0] * len(sfg.input_operations)
        ys = [[b - a for a, b in zip(ref.step(u)[0], other.nudge(u, 1 if t == 0 else 0))] for t in range(N)]
        for i, o in enumerate(sfg.output_operations):
            g = list(got.get(o.graph_id, {}).get(op.graph_id, []))
            vc.prove("response", len(g) <= N and all(abs((g[t] if t < len(g) else 0) - ys[t][i]) < 1e-9 for t in range(N)), lambda: f"{op.graph_id} -> {o.graph_id}: {g} should be {[y[i] for y in ys]}")


class Nudged(RefSim):
    """The same equations with something added to the value of one operation."""

    def __init__(self, vc, sfg, op):
        super().__init__(vc, sfg)
        self.op, self.amount = op, 0
        add = co.Addition(op.output(0), None)
        op.output(0).remove_signal(add.input(0).signals[0])
        self.add = add

    def nudge(self, u, amount):
        from pv import ref as R
        op = self.op
        old = R.op_outputs

        def outputs(vc, o, xs):
            v = old(vc, o, xs)
            return [v[0] + amount] if o is op else v
        R.op_outputs = outputs
        try:
            return self.step(u)[0]
        finally:
            R.op_outputs = old


# ------------------------------------------------------------------ transfer functions
def series(num, den, n):
    """First n coefficients of num/den as power series."""
    num, den = list(num), list(den)
    h = []
    for t in range(n):
        v = (num[t] if t < len(num) else 0) - sum(den[k] * h[t - k] for k in range(1, min(t, len(den) - 1) + 1))
        h.append(v / den[0])
    return h


@contract(P, "transfer functions expand into the impulse responses", targets=["b_asic.state_space:StateSpace._calc_tfs", "b_asic.state_space:StateSpace.to_tf", "b_asic.transfer_function:TransferFunction.__init__",
                                                                              "b_asic.transfer_function:TransferFunction.from_state_space", "b_asic.transfer_function:TransferFunction.from_sfg", G + "to_tf", "b_asic.transfer_function:TransferFunction.__getitem__"],
          kind="bounded", n=150, n_thorough=1500, bound="random linear graphs with up to 3 delays, 3 inputs, real and complex coefficients, eight samples, relative tolerance 1e-6")
def h_transfer(vc):
    r = random.Random(vc.seed("s"))
    real = r.random() < 0.6
    sfg = gen.graph(r, types=gen.LINEAR if real else CX, constants=0.0, real=real, n_in=(1, 3), n_ops=(1, 7))
    way = r.choice(["to_tf", "from_sfg", "from_ss"])
    f = {"to_tf": sfg.to_tf, "from_sfg": lambda: TransferFunction.from_sfg(sfg), "from_ss": lambda: sfg.to_ss().to_tf()}[way]
    tf = vc.no_error("transfer function", f)
    if tf is None:
        return
    ins, outs = sfg.input_operations, sfg.output_operations
    vc.prove("one numerator per input", list(tf.numerator) == [f"in{k}" for k in range(len(ins))], lambda: f"{list(tf.numerator)}")
    zpk = vc.no_error("poles and zeros", tf.zpk)
    for k in range(len(ins)):
        num, den = tf[f"in{k}"]
        vc.prove("one row per output", (1 if np.ndim(num) == 1 else len(num)) == len(outs), lambda: f"{num!r} for {len(outs)} outputs")
        rows = [num] if np.ndim(num) == 1 else list(num)
        if len(rows) != len(outs):
            continue
        ref = RefSim(vc, sfg)
        rest(ref, sfg)
        h = [ref.step([1 if i == k and t == 0 else 0 for i in range(len(ins))])[0] for t in range(8)]
        for i, row in enumerate(rows):
            got, want = series(row, den, 8), [y[i] for y in h]
            scale = 1 + max(abs(v) for v in want) + max((abs(v) for v in [*row, *den]), default=0) ** 2
            vc.prove("expansion", all(abs(a - b) <= 1e-6 * scale for a, b in zip(got, want)), lambda: f"input {k} output {i}: {got} should be {want}")
            if zpk is not None:
                zeros, poles, gain = zpk[f"in{k}"]
                z_i, g_i = (zeros, gain) if np.ndim(num) == 1 else (zeros[i], gain[i])
                factored(vc, row, den, z_i, poles, g_i, r)


def factored(vc, num, den, zeros, poles, gain, r):
    """gain * prod(z - zeros) / prod(z - poles) is num/den as polynomials in descending powers of z."""
    worst = 0
    for _ in range(3):
        z = complex(r.uniform(1, 2), r.uniform(1, 2)) * 2
        n = np.polyval(num, z) if len(num) else 0
        d = np.polyval(den, z)
        got = gain * np.prod([z - v for v in zeros]) / np.prod([z - v for v in poles])
        worst = max(worst, abs(got - n / d) / (1 + abs(n / d)))
    vc.prove("gain, zeros and poles factor the transfer function", worst < 1e-4, lambda: f"{num} / {den}: zeros {zeros} poles {poles} gain {gain} ({worst})")


# ------------------------------------------------------------------ linearity and constantness
KINDS = gen.EXACT + [c for c in gen.REAL_ONLY if c not in (co.Division, co.SquareRoot, co.Reciprocal, co.ReciprocalSquareRoot)] + [co.Constant]
ALWAYS = {co.Constant, co.Negation, co.Addition, co.Subtraction, co.AddSub, co.ShiftAddSub, co.ImaginaryMultiplication, co.ConstantMultiplication, co.RightShift, co.LeftShift, co.Shift, uo.DontCare, uo.Sink,
          so.Input, so.Output, so.Delay, *[c for m in (wo, fo) for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__]}


def is_const(op, seen=()):
    if isinstance(op, (so.Input, so.Delay)):
        return False
    return all(is_const(p.signals[0].source.operation) for p in op.inputs)


def is_lin(op):
    c = [is_const(p.signals[0].source.operation) for p in op.inputs]
    if type(op) in ALWAYS:
        return True
    if isinstance(op, co.Multiplication):
        return c[0] or c[1]
    if isinstance(op, co.Division):
        return c[1]
    if isinstance(op, co.MAD):
        return c[0] or c[1]
    if isinstance(op, co.MADS):
        return c[1] or c[2]
    return all(c)


@contract(P, "linear and constant graphs", targets=[G + "is_linear", G + "is_constant", "b_asic.operation:AbstractOperation.is_constant", "b_asic.operation:AbstractOperation.is_linear", "b_asic.core_operations:Multiplication.is_linear",
                                                    "b_asic.core_operations:MAD.is_linear", "b_asic.core_operations:MADS.is_linear", "b_asic.core_operations:Division.is_linear"],
          cases=range(60), more_cases=range(60, 300), kind="shape", n=1, n_thorough=2, bound="randomly drawn graphs of up to 6 operations of every type, with loops; inputs and states arbitrary", max_paths=400)
def h_linear(vc, key):
    r = random.Random(key + 7000)
    real = key % 2 == 0
    types = [co.Addition, co.Multiplication, co.MAD, co.MADS, co.ConstantMultiplication] if key % 3 == 0 else gen.EXACT if not real else gen.EXACT + [co.Min, co.Max, co.Absolute, co.Division]
    sfg = gen.graph(r, types=types, constants=0.35, n_ops=(1, 6), real=real)
    lin = vc.no_error("linearity", lambda: sfg.is_linear)
    const = vc.no_error("constantness", lambda: sfg.is_constant)
    ops = list(dict.fromkeys(sfg.operations))
    vc.prove("linear exactly when every operation is", lin == all(is_lin(op) for op in ops), lambda: f"{lin}: {[(op.graph_id, is_lin(op)) for op in ops]}")
    vc.prove("constant exactly when no output depends on inputs or delays", const == all(is_const(o) for o in sfg.output_operations))
    for op in ops:
        vc.prove("operation linear", op.is_linear == is_lin(op), lambda: op.graph_id)
        vc.prove("operation constant", op.is_constant == is_const(op), lambda: op.graph_id)
        for p in op.inputs:
            vc.prove("signal constant", p.signals[0].is_constant == is_const(p.signals[0].source.operation))
    if not lin and not const:
        return
    n, m = len(sfg.find_by_type(so.Delay)), len(sfg.input_operations)
    v = [[draw(vc, "real" if real else "complex", f"{a}{i}") for i in range(n + m)] for a in "ab"]
    f = lambda w: [y for part in response(vc, sfg, w[:n], w[n:]) for y in part]
    zero, a, b = f([0] * (n + m)), f(v[0]), f(v[1])
    if const:
        for x, y in zip(a[n:], b[n:]):
            vc.prove("a constant graph has the same outputs whatever the inputs", lambda: vc.eq(x, y))
    if lin:
        c = draw(vc, "real" if real else "complex", "factor")
        both = f([c * x + y for x, y in zip(*v)])
        for o, x, y, s in zip(zero, a, b, both):
            vc.prove("a linear graph superposes", lambda: vc.eq(s - o, c * (x - o) + (y - o)))


@contract(P, "linear and constant operations", targets=["b_asic.core_operations:Division.is_linear", "b_asic.core_operations:Multiplication.is_linear", "b_asic.operation:AbstractOperation.is_linear", G + "is_linear"],
          kind="bounded", n=150, n_thorough=1500, bound="random graphs of up to 6 divisions, multiplications and other operations")
def h_linear_ops(vc):
    r = random.Random(vc.seed("s"))
    g = gen.graph(r, types=[co.Division, co.Division, co.Addition, co.Multiplication, co.SquareRoot, co.Absolute, co.Max], constants=0.4, n_ops=(1, 6), real=True)
    for op in dict.fromkeys(g.operations):
        vc.prove("operation linear", op.is_linear == is_lin(op), lambda: op.graph_id)
        vc.prove("operation constant", op.is_constant == is_const(op), lambda: op.graph_id)
    vc.prove("linear exactly when every operation is", g.is_linear == all(is_lin(op) for op in g.operations))


# ------------------------------------------------------------------ precedence and topological order
def levels(sfg):
    """Level of every output port by its definition: no combinational predecessors, or one more than the deepest of them."""
    memo = {}

    def level(op):
        if op not in memo:
            memo[op] = 0 if isinstance(op, so.Delay) or not op.inputs else 1 + max(level(p.signals[0].source.operation) for p in op.inputs)
        return memo[op]
    return {p: level(op) for op in dict.fromkeys(sfg.operations) for p in op.outputs}


def check_order(vc, sfg, label):
    prec = vc.no_error(f"precedence list{label}", sfg.get_precedence_list)
    if prec is not None:
        want = levels(sfg)
        got = [(p, k) for k, ps in enumerate(prec) for p in ps]
        vc.prove(f"every output port once{label}", len(got) == len(want) and {p for p, _ in got} == set(want), lambda: f"{prec}")
        vc.prove(f"ports at the level of their longest delay-free path{label}", all(want.get(p) == k for p, k in got), lambda: f"{prec}")
    order, err = vc.raises(lambda: list(sfg.get_operations_topological_order()))
    ops = list(dict.fromkeys(sfg.operations))
    reachable, todo = set(), [op for op in ops if not op.inputs]
    while todo:
        op = todo.pop()
        if op not in reachable:
            reachable.add(op)
            todo += [s.destination.operation for p in op.outputs for s in p.signals]
    if err is not None:
        vc.prove(f"refused only when some operation is not reachable from a source{label}", len(reachable) < len(ops) and isinstance(err, (ValueError, RuntimeError)), lambda: f"{err!r}")
        return
    vc.prove(f"every operation once{label}", len(order) == len(ops) and set(order) == set(ops), lambda: f"{[o.graph_id for o in order]}: {sorted(o.graph_id for o in ops)}")
    at = {op: i for i, op in enumerate(order)}
    cyclic = in_cycles(ops)
    if not cyclic:
        vc.prove(f"operations after their sources{label}", all(at[s.source.operation] < at[op] for op in ops for p in op.inputs for s in p.signals if op in at), lambda: f"{[o.graph_id for o in order]}")


def in_cycles(ops):
    succ = {op: [s.destination.operation for p in op.outputs for s in p.signals] for op in ops}
    out = set()
    for op in ops:
        seen, todo = set(), list(succ[op])
        while todo:
            x = todo.pop()
            if x is op:
                out.add(op)
                break
            if x not in seen:
                seen.add(x)
                todo += succ[x]
    return out


@contract(P, "precedence list and topological order", targets=[G + "get_precedence_list", G + "_traverse_for_precedence_list", G + "get_operations_topological_order"], kind="bounded", n=400, n_thorough=8000,
          bound="random graphs of up to 12 operations of every type, up to 4 inputs and 5 delays, also nested and edited graphs")
def h_order(vc):
    r = random.Random(vc.seed("s"))
    sfg = gen.graph(r, types=gen.ALL, n_ops=(1, 12), n_in=(0, 4), n_delays=(0, 5), constants=0.1, dontcare=0.05, sinks=0.2, real=True, nested=sub_graph if r.random() < 0.2 else None)
    check_order(vc, sfg, "")
    again = sfg.get_precedence_list()
    vc.prove("the same list again", again == sfg.get_precedence_list())
    edit = r.choice(["swap", "copy", "insert", "none"])
    if edit == "swap":
        ops = [op for op in sfg.operations if op.is_swappable]
        if ops:
            sfg.swap_io_of_operation(r.choice(ops).graph_id)
            check_order(vc, sfg, " after swapping inputs")
    elif edit == "copy":
        check_order(vc, sfg(), " of a copy")
    elif edit == "insert":
        ops = [op for op in sfg.operations if op.output_count == 1 and not isinstance(op, SFG)]
        if ops:
            new = vc.no_error("inserting", sfg.insert_operation_after, r.choice(ops).graph_id, r.choice([co.ConstantMultiplication(2), so.Delay()]))
            if new is not None:
                check_order(vc, new, " after inserting")


# ------------------------------------------------------------------ loops, iteration period bound, critical path
def cycles(sfg):
    """Simple cycles of operations, each as tuple starting at its smallest identifier."""
    ops = list(dict.fromkeys(sfg.operations))
    succ = {op.graph_id: sorted({s.destination.operation.graph_id for p in op.outputs for s in p.signals}) for op in ops}
    out = set()

    def walk(path):
        for n in succ[path[-1]]:
            if n == path[0]:
                out.add(tuple(path))
            elif n > path[0] and n not in path:
                walk([*path, n])
    for v in succ:
        walk([v])
    return out


def ratio(vc, sfg, cycle):
    """Latency around a cycle and the delays in it."""
    total, delays = 0, 0
    for a, b in zip(cycle, cycle[1:] + cycle[:1]):
        op = sfg.find_by_id(a)
        delays += isinstance(op, so.Delay)
        total = total + vc.max([s.source.latency_offset - s.destination.latency_offset for p in op.outputs for s in p.signals if s.destination.operation.graph_id == b])
    return total, delays


def set_offsets(vc, sfg, simple):
    for op in dict.fromkeys(sfg.operations):
        if isinstance(op, (so.Input, so.Output, so.Delay, co.Constant, uo.DontCare, uo.Sink)):
            continue
        hi = None if vc.symbolic else 9
        if simple:
            lat = vc.int(f"lat {op.graph_id}", 0, hi)
            offsets = {**{f"in{i}": 0 for i in range(op.input_count)}, **{f"out{i}": lat for i in range(op.output_count)}}
        else:
            offsets = {f"in{i}": vc.int(f"in{i} {op.graph_id}", 0, 4 if not vc.symbolic else None) for i in range(op.input_count)}
            top = vc.max(list(offsets.values()))
            for i in range(op.output_count):
                offsets[f"out{i}"] = vc.int(f"out{i} {op.graph_id}", 0, hi)
                vc.assume(offsets[f"out{i}"] >= top)
        for k, v in offsets.items():
            port = op.input(int(k[2:])) if k[:2] == "in" else op.output(int(k[3:]))
            port.latency_offset = v


def rational(a, b=1):
    return a / b if is_sym(a) else Fraction(a, b)


@contract(P, "loops and iteration period bound", targets=[G + "iteration_period_bound", G + "loops"], cases=range(24), more_cases=range(24, 160), kind="shape", n=3, n_thorough=20, max_paths=3000,
          bound="randomly drawn graphs of up to 6 operations, 2 inputs and 3 delays; latencies of every port arbitrary")
def h_ipb(vc, key):
    r = random.Random(key + 31000)
    sfg = gen.graph(r, types=[co.Addition, co.Subtraction, co.ConstantMultiplication, co.MAD, fo.R2Butterfly] if key % 2 else [co.Addition, co.ConstantMultiplication], n_ops=(1, 5 if key % 2 else 6), n_in=(0, 2), n_delays=(1, 3), constants=0.1, real=True)
    want = cycles(sfg)
    got = vc.no_error("loops", lambda: sfg.loops)
    if got is not None:
        vc.prove("loops end where they start", all(len(c) > 1 and c[0] == c[-1] for c in got), lambda: f"{got}")
        vc.prove("each simple loop once", sorted(canon(c[:-1]) for c in got) == sorted(want), lambda: f"{got} should be {sorted(want)}")
    set_offsets(vc, sfg, simple=key % 3 == 0)
    if vc.symbolic:
        with patched(sfg_mod, Fraction=rational):
            bound = vc.no_error("iteration period bound", sfg.iteration_period_bound)
    else:
        bound = vc.no_error("iteration period bound", sfg.iteration_period_bound)
    if bound is None:
        return
    if not want:
        vc.prove("no loop, no bound", bound == -1)
        return
    terms = [(t, d) for t, d in (ratio(vc, sfg, c) for c in want)]
    vc.prove("every loop has a delay", all(d > 0 for _, d in terms))
    vc.prove("no loop needs a longer period", lambda: vc.and_(*[t <= bound * d for t, d in terms]), lambda: f"{bound} {terms}")
    vc.prove("some loop needs the period", lambda: vc.or_(*[vc.eq(t, bound * d) for t, d in terms]), lambda: f"{bound} {terms}")


def canon(c):
    i = c.index(min(c))
    return tuple(c[i:] + c[:i])


@contract(P, "critical path time", targets=[G + "critical_path_time"], cases=range(24), more_cases=range(24, 120), kind="shape", n=3, n_thorough=20, max_paths=3000,
          bound="randomly drawn graphs of up to 5 operations and 2 delays; latencies of every port arbitrary")
def h_critical(vc, key):
    r = random.Random(key + 47000)
    kinds = [co.Addition, co.ConstantMultiplication, fo.R2Butterfly] if key % 3 == 0 else [co.Addition, co.ConstantMultiplication]
    sfg = gen.graph(r, types=kinds, n_ops=(1, 3 + (key % 3 == 0)), n_in=(1, 2), n_delays=(0, 2), constants=0.1, real=True)
    if any(all(isinstance(sfg.find_by_id(op), so.Delay) for op in c) for c in cycles(sfg)):
        sfg = gen.graph(r, types=kinds, n_ops=(2, 3), n_delays=(0, 0), real=True)      # a loop of delays alone has no place in a schedule
    set_offsets(vc, sfg, simple=key % 3 == 0)
    for op in sfg.operations:
        if isinstance(op, (co.Constant, uo.DontCare)):
            op.set_latency(0)
    got = vc.no_error("critical path time", sfg.critical_path_time)
    if got is None:
        return
    # latest time at which some value is available, everything starting as early as its inputs allow, at time zero or later
    start = {}

    def begin(op):
        if op not in start:
            start[op] = 0 if isinstance(op, so.Delay) or not op.inputs else vc.max([0, *[ready(p.signals[0].source) - p.latency_offset for p in op.inputs]])
        return start[op]

    def ready(port):
        return begin(port.operation) + port.latency_offset
    ends = [ready(p) for op in dict.fromkeys(sfg.operations) for p in op.outputs]
    vc.prove("no value is available later", lambda: vc.and_(*[e <= got for e in ends]), lambda: f"{got} {ends}")
    vc.prove("some value is available then", lambda: vc.or_(*[vc.eq(e, got) for e in ends]), lambda: f"{got} {ends}")


@contract(P, "resource lower bound", targets=[G + "resource_lower_bound"], cases=(0, 1, 2, 3), n=20)
def h_resources(vc, n):
    x = so.Input()
    node = x
    ops = []
    for k in range(n):
        node = co.ConstantMultiplication(2, node)
        ops.append(node)
    node = co.Negation(node, execution_time=5)
    sfg = SFG([x], [so.Output(node)])
    ex = [vc.int(f"ex{k}", 1, None if vc.symbolic else 9) for k in range(n)]
    T = vc.int("T", -1, None if vc.symbolic else 9)
    for k, op in enumerate(sfg.find_by_type(co.ConstantMultiplication)):
        op.execution_time = ex[k]
    got, err = vc.raises(sfg.resource_lower_bound, "cmul", T)
    if err is not None:
        vc.prove("refused only for a schedule time that is not positive", vc.and_(isinstance(err, ValueError), T <= 0, n > 0), lambda: f"{err!r}")
        return
    if not n:
        vc.prove("none needed", got == 0)
        return
    total = sum(ex)
    vc.prove("enough for the operations", lambda: got * T >= total, lambda: f"{got} {T} {ex}")
    vc.prove("no more than needed", lambda: (got - 1) * T < total, lambda: f"{got} {T} {ex}")
