"""C16: generated structures have the function their parameters define."""
import itertools
import random
from fractions import Fraction

import numpy as np

import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.wdf_operations as wo
from b_asic.sfg_generators import (analytical_block_matrix_inverse, block_cholesky_matrix_inverse, block_ldlt_matrix_inverse, cholesky_matrix_inverse, direct_form_1_iir, direct_form_2_iir, fir,
                                   lattice_wdf, ldlt_matrix_inverse, matrix_multiplication, radix_2_dif_fft, tile_ldlt_matrix_inverse, wdf_allpass)
from b_asic.simulation import Simulation
from b_asic.wdf.lattice import lattice_coeffs_from_tf
from pv import ref
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("for every generator, option and size listed, the output samples of the generated graph, run by the library's own simulation, are proved equal to the defining equation for all coefficients and "
               "inputs; sizes are fixed per case and samples cover the graph's memory from rest, larger sizes are checked on concrete numbers")
P = "C16"
D = "b_asic.sfg_generators.digital_filters:"
W = "b_asic.sfg_generators.wave_digital_filters:"
F = "b_asic.sfg_generators.fft:"
X = "b_asic.sfg_generators.matrix_inversion:"
TOL = 1e-6


def simulate(vc, sfg, seqs):
    """Outputs per sample of the library's simulation."""
    n_in = len(sfg.input_operations)
    sim = vc.no_error("simulation", Simulation, sfg, [(lambda i: lambda n: seqs[n][i])(i) for i in range(n_in)])
    return None if sim is None else [list(vc.no_error("step", sim.step)) for _ in seqs]


def conv(a, b):
    out = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return out


def plus(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def difference_equation(vc, label, num, den, x, y):
    """sum den[k] y[n-k] == sum num[k] x[n-k], from rest."""
    for n in range(len(x)):
        lhs = sum((den[k] * y[n - k] for k in range(min(len(den), n + 1))), 0)
        rhs = sum((num[k] * x[n - k] for k in range(min(len(num), n + 1))), 0)
        vc.prove(f"{label}: sample {n}", lambda: vc.eq(lhs, rhs, TOL), lambda: f"{lhs} vs {rhs}")


def column(vc, n, dom):
    d = vc.complex if dom == "complex" else vc.real
    return [d(f"x[{t}]") for t in range(n)]


def properties(vc):
    """Optional operation properties: they change latencies only."""
    return vc.choice("properties", [({}, {}), ({"latency": 2, "execution_time": 1}, {"latency": 1, "execution_time": 1})])


def options_applied(vc, sfg, name, default, mult, add):
    vc.prove("name of the graph", sfg.name == (name or default), lambda: f"{sfg.name}")
    for op in sfg.operations:
        for kinds, p in (((co.ConstantMultiplication,), mult), ((co.Addition,), add)):
            if isinstance(op, kinds) and p:
                vc.prove("requested properties are applied", op.latency == p["latency"] and op.execution_time == p["execution_time"])


# ------------------------------------------------------------------ FIR
FIR = [(n, s, t) for n in (1, 2, 3, 4, 5) for s in (False, True) for t in (False, True)]


@contract(P, "FIR filters", targets=[D + "fir"], cases=FIR, more_cases=[(n, s, t) for n in (6, 7, 8, 9) for s in (False, True) for t in (False, True)], n=10, n_thorough=100)
def h_fir(vc, case):
    taps, symmetric, transposed = case
    half = [vc.complex(f"h[{k}]") for k in range((taps + 1) // 2 if symmetric else taps)]
    h = half + half[:taps // 2][::-1] if symmetric else half
    name = vc.choice("name", [None, "my filter"])
    mult, add = properties(vc)
    sfg = vc.no_error("generating", lambda: fir(vc.choice("container", [list, tuple])(h), name, symmetric, transposed, mult, add))
    if sfg is None:
        return
    options_applied(vc, sfg, name, "Direct-form FIR filter", mult, add)
    x = column(vc, taps + 1, "complex")
    y = simulate(vc, sfg, [[v] for v in x])
    difference_equation(vc, "convolution", h, [1], x, [v[0] for v in y])
    count = sfg.operation_counter()
    if symmetric:
        vc.prove("the symmetric structure shares multiplications", count["cmul"] == (taps + 1) // 2, lambda: f"{count}")
    vc.prove("one delay per tap but one", count["t"] == taps - 1)
    vc.prove("one addition per tap but one", count["add"] == taps - 1)


@contract(P, "long FIR filters", targets=[D + "fir"], kind="bounded", n=40, n_thorough=400, bound="up to 60 taps, random integer coefficients, exact arithmetic")
def h_long_fir(vc):
    r = random.Random(vc.seed("s"))
    taps = r.randint(1, 60)
    sym, tr = r.random() < 0.5, r.random() < 0.5
    h = [r.randint(-9, 9) for _ in range(taps)]
    if sym:
        h = [h[min(k, taps - 1 - k)] for k in range(taps)]
    coefs = r.choice([list, tuple, np.array])(h)
    sfg = fir(coefs, symmetric=sym, transposed=tr)
    x = [r.randint(-9, 9) for _ in range(taps + 3)]
    y = [v[0] for v in simulate(vc, sfg, [[v] for v in x])]
    want = [sum(h[k] * x[n - k] for k in range(min(taps, n + 1))) for n in range(len(x))]
    vc.prove("convolution", y == want, lambda: f"{h} symmetric={sym} transposed={tr}: {y} should be {want}")


# ------------------------------------------------------------------ IIR
def generic(vc, name, n, ones):
    """Coefficients: those named in `ones` are one (or minus one), which the generators treat specially, the others arbitrary."""
    return [ones.get(k) if k in ones else vc.complex(f"{name}[{k}]") for k in range(n)]


IIR = [(f, n) for f in ("direct form 1", "direct form 2") for n in (2, 3, 4)]
GEN = {"direct form 1": (direct_form_1_iir, "Direct-form I IIR filter"), "direct form 2": (direct_form_2_iir, "Direct-form II IIR filter")}


@contract(P, "direct-form IIR filters", targets=[D + "direct_form_1_iir", D + "direct_form_2_iir"], cases=IIR, more_cases=[(f, n) for f in GEN for n in (5, 6)], n=12, n_thorough=100, max_paths=4000)
def h_iir(vc, case):
    form, n = case
    ones = vc.choice("special coefficients", [[{}, {}], [{0: 1}, {n - 1: -1}], [{n - 1: 1}, {1: -1}], [{k: 1 for k in range(n)}, {k: -1 for k in range(1, n)}], [{0: 0}, {1: 0}], [{n - 1: 0}, {1: 1}]])
    b = generic(vc, "b", n, ones[0])
    a = [1] + generic(vc, "a", n, {0: 1, **ones[1]})[1:]
    for v in b + a[1:]:
        if not isinstance(v, int):
            vc.assume(vc.not_(vc.eq(v, 1)))
            vc.assume(vc.not_(vc.eq(v, -1)))
    name = vc.choice("name", [None, "my filter"])
    mult, add = properties(vc)
    sfg = vc.no_error("generating", lambda: GEN[form][0](b, a, name, mult, add))
    if sfg is None:
        return
    options_applied(vc, sfg, name, GEN[form][1], mult, add)
    x = column(vc, n + 1 if n < 5 else n, "complex")
    y = simulate(vc, sfg, [[v] for v in x])
    difference_equation(vc, "difference equation", b, a, x, [v[0] for v in y])
    count = sfg.operation_counter()
    vc.prove("number of delays", count["t"] == (2 * n - 2 if form == "direct form 1" else n - 1), lambda: f"{count}")


@contract(P, "any coefficient of a first-order section may be one", targets=[D + "direct_form_1_iir", D + "direct_form_2_iir"], cases=sorted(GEN), n=20, max_paths=4000)
def h_iir_first(vc, case):
    b = [vc.complex("b0"), vc.complex("b1")]
    a = [1, vc.complex("a1")]
    sfg = vc.no_error("generating", GEN[case][0], b, a)
    if sfg is None:
        return
    x = column(vc, 3, "complex")
    y = simulate(vc, sfg, [[v] for v in x])
    difference_equation(vc, "difference equation", b, a, x, [v[0] for v in y])


@contract(P, "unusable IIR coefficients are refused", targets=[D + "direct_form_1_iir", D + "direct_form_2_iir"], cases=sorted(GEN), n=20)
def h_iir_refused(vc, case):
    f = GEN[case][0]
    v = [vc.complex(f"v{k}") for k in range(6)]
    for b, a in (([], []), (v[:1], [1]), (v[:2], [1, v[3], v[4]]), (v[:3], [1, v[3]]), (v[:1], [1, v[3]]), (v[:2], [1])):
        vc.prove("wrong lengths are refused", isinstance(vc.raises(f, b, a)[1], ValueError))
    a0 = vc.complex("a0")
    out, err = vc.raises(f, v[:2], [a0, v[3]], exc=ValueError)
    vc.prove("a leading denominator coefficient other than one is refused", vc.not_(vc.eq(a0, 1)) if err is not None else vc.eq(a0, 1))


@contract(P, "long IIR filters", targets=[D + "direct_form_1_iir", D + "direct_form_2_iir"], kind="bounded", cases=sorted(GEN), n=30, n_thorough=300, bound="orders up to 12, small integer coefficients, exact arithmetic")
def h_long_iir(vc, case):
    r = random.Random(vc.seed("s"))
    n = r.randint(2, 13)
    b, a = [r.randint(-2, 2) for _ in range(n)], [1] + [r.choice([-1, 0, 0, 1, 2]) for _ in range(n - 1)]
    sfg = GEN[case][0](b, a)
    x = [r.randint(-5, 5) for _ in range(n + 6)]
    y = [v[0] for v in simulate(vc, sfg, [[v] for v in x])]
    want = []
    for t in range(len(x)):
        want.append(sum(b[k] * x[t - k] for k in range(min(n, t + 1))) - sum(a[k] * want[t - k] for k in range(1, min(n, t + 1))))
    vc.prove("difference equation", y == want, lambda: f"b={b} a={a}: {y} should be {want}")


# ------------------------------------------------------------------ matrices
@contract(P, "matrix multiplication", targets=["b_asic.sfg_generators.matrix_operations:matrix_multiplication"], cases=[(1, 1, 1), (2, 2, 2), (1, 3, 2), (2, 1, 3), (3, 2, 1)],
          more_cases=list(set(itertools.product((1, 2, 3, 4), repeat=3)) - {(1, 1, 1), (2, 2, 2), (1, 3, 2), (2, 1, 3), (3, 2, 1)}), n=5, n_thorough=20)
def h_matmul(vc, case):
    m, n, p = case
    A = [[vc.complex(f"A{i}{k}") for k in range(n)] for i in range(m)]
    B = [[vc.complex(f"B{k}{j}") for j in range(p)] for k in range(n)]
    name = vc.choice("name", [None, "product"])
    props = vc.choice("properties", [None, {"latency": 3, "execution_time": 2}])
    sfg = vc.no_error("generating", matrix_multiplication, m, n, p, name, props)
    if sfg is None:
        return
    vc.prove("name", sfg.name == (name or "Matrix-multiplication"))
    vc.prove("properties", props is None or all(o.latency == 3 and o.execution_time == 2 for o in sfg.operations if isinstance(o, co.MAD)))
    y = simulate(vc, sfg, [[v for row in A for v in row] + [v for row in B for v in row]])[0]
    vc.prove("number of elements", len(y) == m * p)
    for i in range(m):
        for j in range(p):
            want = sum((A[i][k] * B[k][j] for k in range(n)), 0)
            vc.prove(f"element {i},{j}", lambda: vc.eq(y[i * p + j], want), lambda: f"{y[i * p + j]} vs {want}")


def inverse_cases(f, sizes, modes=("eqs", "mult"), pes=(None, "addsub", "mads")):
    return [(f, n, m, p) for n in sizes for m in modes for p in pes]


INV = {"ldlt": (ldlt_matrix_inverse, "LDLT matrix-inversion"), "cholesky": (cholesky_matrix_inverse, "Cholesky matrix-inversion"), "block ldlt": (block_ldlt_matrix_inverse, "Block LDLT matrix-inversion"),
       "block cholesky": (block_cholesky_matrix_inverse, "Block Cholesky matrix-inversion"), "tile ldlt": (tile_ldlt_matrix_inverse, "Tile LDLT matrix-inversion"),
       "analytical": (analytical_block_matrix_inverse, "Analytical block matrix-inversion")}
INVERT = (inverse_cases("ldlt", (1, 2, 3)) + inverse_cases("cholesky", (1, 2)) + inverse_cases("block ldlt", (2,)) + inverse_cases("block cholesky", (2,))
          + inverse_cases("tile ldlt", (2,)) + inverse_cases("analytical", (1, 2, 3), ("top", "bot", "mid")))
INVERT_MORE = ()


def minor(A, k):
    """Leading principal minor, by expansion."""
    if k == 0:
        return 1

    def det(rows, cols):
        if not rows:
            return 1
        return sum(((-1) ** j * A[rows[0]][c] * det(rows[1:], cols[:j] + cols[j + 1:]) for j, c in enumerate(cols)), 0)
    return det(tuple(range(k)), tuple(range(k)))


@contract(P, "inverses of symmetric positive definite matrices", targets=[X + f.__name__ for f, _ in INV.values()], cases=INVERT, more_cases=INVERT_MORE, n=4, n_thorough=20)
def h_inverse(vc, case):
    f, N, mode, pe = case
    if vc.symbolic:
        L = {(i, j): vc.real(f"A{i}{j}") for i in range(N) for j in range(i + 1)}
        A = [[L[max(i, j), min(i, j)] for j in range(N)] for i in range(N)]
        for k in range(1, N + 1):
            vc.assume(minor(A, k) > 0)
    else:
        r = random.Random(vc.case_seed("A", f"{case}"))
        G = [[vc.int(f"G{i}{j}", -3, 3) for j in range(N)] for i in range(N)]
        A = [[sum(G[i][k] * G[j][k] for k in range(N)) + (i == j) for j in range(N)] for i in range(N)]
    inverse(vc, f, N, mode, pe, A)


def inverse(vc, f, N, mode, pe, A, name=None):
    sfg = vc.no_error("generating", INV[f][0], N, name, mode, pe)
    if sfg is None:
        return
    vc.prove("name", sfg.name == (name or INV[f][1]), lambda: f"{sfg.name}")
    y = simulate(vc, sfg, [[A[i][j] for i in range(N) for j in range(i + 1)]])[0]
    vc.prove("number of elements", len(y) == N * (N + 1) // 2)
    R = {}
    for k, (i, j) in enumerate((i, j) for i in range(N) for j in range(i + 1)):
        R[i, j] = R[j, i] = y[k]
    for i in range(N):
        for j in range(N):
            got = sum((A[i][k] * R[k, j] for k in range(N)), 0)
            vc.prove(f"product with the matrix, element {i},{j}", lambda: vc.eq(got, 1 if i == j else 0, TOL), lambda: f"{f} {mode} {pe}: {got}")


@contract(P, "inverses of larger matrices", targets=[X + f.__name__ for f, _ in INV.values()], kind="bounded", cases=[(f, m, p) for f in sorted(INV) for m in (("top", "bot", "mid") if f == "analytical" else ("eqs", "mult")) for p in (None, "addsub", "mads")],
          n=6, n_thorough=60, bound="random positive definite integer matrices up to 8 x 8, exact arithmetic where the algorithm is rational")
def h_large_inverse(vc, case):
    f, mode, pe = case
    r = random.Random(vc.seed("s"))
    N = r.choice([2, 4, 6, 8]) if f in ("block ldlt", "block cholesky", "tile ldlt") else r.randint(1, 7)
    G = [[r.randint(-2, 2) for j in range(N)] for i in range(N)]
    A = [[Fraction(sum(G[i][k] * G[j][k] for k in range(N)) + (i == j)) for j in range(N)] for i in range(N)]
    if "cholesky" in f:
        A = [[float(v) for v in row] for row in A]
    inverse(vc, f, N, mode, pe, A, r.choice([None, "inv"]))


# ------------------------------------------------------------------ wave digital filters
def first(c):
    """(F - c) / (1 - c F) with F a delay."""
    return [-c, 1], [1, -c]


def second(c1, c2):
    """(F - c1) / (1 - c1 F) with F a delay times a first-order section of c2."""
    return [-c1, c1 * c2 - c2, 1], [1, c1 * c2 - c2, -c1]


def allpass(cs):
    num, den = [1], [1]
    cs = list(cs)
    if len(cs) % 2:
        n, d = first(cs.pop(0))
        num, den = conv(num, n), conv(den, d)
    for k in range(0, len(cs), 2):
        n, d = second(cs[k], cs[k + 1])
        num, den = conv(num, n), conv(den, d)
    return num, den


def lattice_branches(cs):
    cs = list(cs)
    a, b = ([cs.pop(0)], []) if len(cs) % 2 else ([], [])
    turn = b if a else a
    for k in range(0, len(cs), 2):
        turn += cs[k:k + 2]
        turn = b if turn is a else a
    return a, b


def coefficients(vc, n):
    """Adaptor coefficients: between -1 and 1, zero included."""
    cs = [vc.real(f"c{k}") if vc.symbolic else Fraction(vc.int(f"c{k}*8", -8, 8), 8) for k in range(n)]
    for c in cs:
        vc.assume(vc.and_(c <= 1, c >= -1))
    return cs


@contract(P, "wave digital all-pass sections", targets=[W + "wdf_allpass"], cases=(1, 2, 3), more_cases=(4, 5), n=20, n_thorough=100, max_paths=2000)
def h_allpass(vc, order):
    cs = coefficients(vc, order)
    name = vc.choice("name", [None, "section"])
    names = vc.choice("adaptor names", [None, "adp", [f"n{k}" for k in range(order)], [None] * order])
    lat = vc.choice("latency", [None, 3])
    sfg = vc.no_error("generating", lambda: wdf_allpass(cs, name, lat, None, 2 if lat else None, names))
    if sfg is None:
        return
    vc.prove("name", sfg.name == (name or "WDF allpass section"))
    vc.prove("latency", lat is None or all(o.latency == 3 and o.execution_time == 2 for o in sfg.operations if isinstance(o, wo.SymmetricTwoportAdaptor)))
    x = column(vc, order + 2 if order < 4 else order + 1, "real")
    y = [v[0] for v in simulate(vc, sfg, [[v] for v in x])]
    difference_equation(vc, "all-pass", *allpass(cs), x, y)
    vc.prove("number of delays", sfg.operation_counter()["t"] == order)


@contract(P, "lattice wave digital filters", targets=[W + "lattice_wdf", W + "wdf_allpass"], cases=[(n, o) for n in (1, 2, 3) for o in (False, True)], more_cases=[(n, o) for n in (4, 5) for o in (False, True)], n=20, n_thorough=100, max_paths=2000)
def h_lattice(vc, case):
    order, only = case
    cs = coefficients(vc, order)
    if order > 3:
        for c in cs:
            vc.assume(vc.not_(vc.eq(c, 0)))
    name = vc.choice("name", [None, "lattice"])
    names = vc.choice("adaptor names", [None, "adp", [f"n{k}" for k in range(order)]])
    sfg = vc.no_error("generating", lambda: lattice_wdf(cs, name, only, names))
    if sfg is None:
        return
    check_lattice(vc, sfg, cs, column(vc, order + 1 if order < 4 else order, "real"))
    vc.prove("name", sfg.name == (name or "Lattice WDF"))
    vc.prove("only adaptors when asked for", not only or not [o for o in sfg.operations if isinstance(o, (co.Addition, co.ConstantMultiplication))])


def check_lattice(vc, sfg, cs, x):
    (na, da), (nb, db) = (allpass(b) for b in lattice_branches(cs))
    num, den = plus(conv(na, db), conv(nb, da)), conv(da, db)
    y = [v[0] for v in simulate(vc, sfg, [[v] for v in x])]
    difference_equation(vc, "sum of the branches", num, [2 * d for d in den], x, y)


@contract(P, "higher-order wave digital filters", targets=[W + "lattice_wdf", W + "wdf_allpass"], kind="bounded", n=60, n_thorough=600, bound="orders up to 12, dyadic coefficients including zeros, exact arithmetic")
def h_high_wdf(vc):
    r = random.Random(vc.seed("s"))
    cs = [Fraction(r.choice([0, r.randint(-7, 7)]), 8) for _ in range(r.randint(1, 9))]
    x = [Fraction(r.randint(-5, 5)) for _ in range(len(cs) + 4)]
    y = [v[0] for v in simulate(vc, wdf_allpass(cs), [[v] for v in x])]
    num, den = allpass(cs)
    got, want = ([sum(p[k] * s[n - k] for k in range(min(len(p), n + 1))) for n in range(len(x))] for p, s in ((den, y), (num, x)))
    vc.prove("all-pass", all(abs(g - w) < TOL for g, w in zip(got, want)), lambda: f"{cs}: {got} should be {want}")
    check_lattice(vc, lattice_wdf(cs, only_adaptors=r.random() < 0.5), cs, x)


@contract(P, "lattice coefficients of a denominator", targets=["b_asic.wdf.lattice:lattice_coeffs_from_tf", W + "lattice_wdf"], kind="bounded", n=150, n_thorough=1500,
          bound="random stable denominators of order up to 7 with distinct real and complex poles")
def h_lattice_coefficients(vc):
    r = random.Random(vc.seed("s"))
    n_pairs, n_real = r.randint(0, 3), r.choice([0, 0, 1, 1, 2, 3])
    poles = []
    for k in range(n_pairs):
        p = (0.3 + 0.6 * (k + r.random()) / 3) * np.exp(1j * np.pi * (0.15 + 0.7 * r.random()))
        poles += [p, np.conj(p)]
    poles += [-0.8 + 1.6 * (k + 0.8 * r.random()) / 3 for k in range(n_real)]
    if not poles:
        return
    a = np.real(np.poly(poles)) * r.choice([1, 2.5])
    cs = lattice_coeffs_from_tf(list(a))
    vc.prove("one coefficient per order", len(cs) == len(poles), lambda: f"{poles}: {cs}")
    br = lattice_branches(cs)
    den = conv(allpass(br[0])[1], allpass(br[1])[1])
    vc.prove("the branches have the denominator", len(den) == len(a) and all(abs(d - v / a[0]) < 1e-6 for d, v in zip(den, a)), lambda: f"{list(a)}: {den}")
    check_lattice(vc, lattice_wdf(cs), cs, [r.randint(-3, 3) for _ in range(len(cs) + 3)])


# ------------------------------------------------------------------ FFT
def dft_row(N, k):
    return [complex(np.exp(-2j * np.pi * ((k * n) % N) / N)) for n in range(N)]


@contract(P, "radix-2 FFT", targets=[F + f for f in ("radix_2_dif_fft", "_construct_dif_fft_stage", "_get_bit_reversed_number", "_get_bit_reversed_ports", "_generate_twiddles")], kind="shape",
          cases=(1, 2, 4, 8), more_cases=(16, 32), n=5, n_thorough=20, bound="1, 2, 4, 8 points (thorough: 16, 32); inputs arbitrary, of magnitude up to one for the rounding of the twiddle factors")
def h_fft(vc, N):
    x = [vc.complex(f"x[{n}]") for n in range(N)]
    for v in x:
        for part in ((v.real, v.imag) if vc.symbolic else ()):
            vc.assume(vc.and_(part <= 1, part >= -1))
    sfg = vc.no_error("generating", radix_2_dif_fft, N)
    if sfg is None:
        return
    y = simulate(vc, sfg, [x])[0]
    vc.prove("number of outputs", len(y) == N)
    for k in range(N):
        want = sum((w * v for w, v in zip(dft_row(N, k), x)), 0)
        d = y[k] - want
        vc.prove(f"output {k}", lambda: vc.and_(*[vc.and_(p <= 1e-9 * N, p >= -1e-9 * N) for p in (d.real, d.imag)]) if vc.symbolic else abs(d) < 1e-9 * N * (1 + max(map(abs, x))))


@contract(P, "large FFTs and sizes that are refused", targets=[F + "radix_2_dif_fft"], kind="bounded", n=12, n_thorough=60, bound="sizes up to 64, thorough 256, random inputs")
def h_large_fft(vc):
    r = random.Random(vc.seed("s"))
    N = r.choice([-4, -1, 3, 5, 6, 7, 12, 16, 24, 32, 64])
    if N < 0 or N & (N - 1):
        vc.prove("refused", isinstance(vc.raises(radix_2_dif_fft, N)[1], ValueError))
        return
    x = [complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(N)]
    y = simulate(vc, radix_2_dif_fft(N), [x])[0]
    vc.prove("discrete Fourier transform", bool(np.allclose(y, np.fft.fft(x))), lambda: f"{N}")
