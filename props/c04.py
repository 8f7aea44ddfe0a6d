"""C04: signed-digit conversion, sequence helpers and identifier generation."""
import itertools

import b_asic.utils as ut
from b_asic.sfg import GraphIDGenerator
from pv.vc import contract

LEVEL = "proof"
EXPLANATION = ("int_to_csd and float_to_csd are executed on symbolic numbers path by path (every residue pattern) and the digits are "
               "proved canonical with the exact weighted sum; large numbers, sequence helpers and identifiers by run-time contracts.")
P = "C04"
U = "b_asic.utils:"


def canonical(vc, digits):
    vc.prove("digits are -1, 0 or 1", all(d in (-1, 0, 1) for d in digits))
    vc.prove("no two adjacent non-zero digits", not any(a and b for a, b in zip(digits, digits[1:])))
    vc.prove("no leading zero digit", not digits or digits[0] != 0)


def weighted(vc, digits, frac=0):
    v = 0
    for d in digits:
        v = 2 * v + d
    return v


@contract(P, "integer to canonical signed digits", cases=list(range(-9, 10)), kind="shape", bound="|n| < 2^10 symbolic, split by magnitude (every number, every path)", n=400,
          targets=[U + "int_to_csd"])
def h_int(vc, case):
    lo, hi = (0, 0) if case == 0 else (2 ** (abs(case) - 1), 2 ** abs(case))
    if case < 0:
        lo, hi = -hi, -lo
    n = vc.int("n", lo, hi)
    d = vc.no_error("int_to_csd", ut.int_to_csd, n)
    canonical(vc, d)
    vc.prove("weighted sum is the number", lambda: vc.eq(weighted(vc, d), n), str(d))


@contract(P, "integer to canonical signed digits, any size", kind="bounded", bound="random integers up to 2000 bits and neighbours of powers of two", n=800, targets=[U + "int_to_csd"])
def h_int_big(vc):
    k = vc.int("bits", 0, 2000)
    r = vc.seed("seed")
    import random
    rr = random.Random(r)
    n = rr.choice([2 ** k + rr.randint(-3, 3), rr.getrandbits(k + 1), (2 ** k - 1) // 3, 2 ** k * rr.randint(-3, 3) - rr.randint(0, 2)]) * rr.choice([1, -1])
    d = vc.no_error("int_to_csd", ut.int_to_csd, n)
    canonical(vc, d)
    vc.prove("weighted sum is the number", weighted(vc, d) == n)


@contract(P, "number to canonical signed digits", cases=[(f, s) for f in range(0, 6) for s in (-1, 0, 1)], kind="shape", bound="i/2^f with |i| < 2^6 symbolic and f = 0..5", n=400,
          targets=[U + "float_to_csd", U + "int_to_csd"])
def h_float(vc, case):
    f, s = case
    i = vc.int("i", {-1: -63, 0: 0, 1: 1}[s], {-1: -1, 0: 0, 1: 63}[s])
    n = i / 2 ** f if f else i
    d, frac = vc.no_error("float_to_csd", ut.float_to_csd, n)
    canonical(vc, d)
    vc.prove("the least significant digit is non-zero", not d or d[-1] != 0)
    vc.prove("the value is exact", lambda: vc.eq(weighted(vc, d), n * 2 ** frac if frac >= 0 else n / 2 ** -frac), f"{d} {frac}")


@contract(P, "number to canonical signed digits, any size", kind="bounded", bound="random dyadic floats with exponents -900..900 and integers up to 400 bits", n=800, targets=[U + "float_to_csd"])
def h_float_big(vc):
    import random
    from fractions import Fraction
    rr = random.Random(vc.seed("seed"))
    kind = rr.randrange(4)
    if kind == 0:
        n = rr.uniform(-1, 1) * 2.0 ** rr.randint(-900, 900)
    elif kind == 1:
        n = rr.getrandbits(rr.randint(1, 400)) * rr.choice([1, -1])
    elif kind == 2:
        n = rr.randint(-2 ** 20, 2 ** 20) / 2 ** rr.randint(0, 30)
    else:
        n = rr.choice([1, -1]) * (2.0 ** rr.randint(-60, 60) + rr.choice([0, 1, -1]) * 2.0 ** rr.randint(-60, 60))
    d, frac = vc.no_error("float_to_csd", ut.float_to_csd, n)
    canonical(vc, d)
    vc.prove("the least significant digit is non-zero", not d or d[-1] != 0)
    vc.prove("the value is exact", Fraction(weighted(vc, d)) * Fraction(2) ** -frac == Fraction(n), f"{n!r} {d} {frac}")


SH = list(itertools.product(range(0, 5), range(1, 5)))


@contract(P, "interleave, downsample, upsample and decompose", cases=SH, kind="shape", bound="sequences of up to 4 elements, factors 1..4; element values symbolic", n=60,
          targets=[U + f for f in ("interleave", "downsample", "upsample", "decompose")])
def h_seq(vc, case):
    n, k = case
    cols = [[vc.real(f"x{i}_{j}") for j in range(n)] for i in range(k)]
    inter = ut.interleave(*cols)
    vc.prove("interleave length", len(inter) == n * k)
    for t in range(n):
        for i in range(k):
            vc.prove("interleave takes one element of every sequence in turn", lambda: vc.eq(inter[t * k + i], cols[i][t]))
    for i in range(k):
        d = ut.downsample(inter, k, i)
        vc.prove("downsample length", len(d) == n)
        for t in range(n):
            vc.prove("downsample keeps every factor-th element from the phase", lambda: vc.eq(d[t], cols[i][t]))
        u = ut.upsample(cols[0], k, i)
        vc.prove("upsample length", len(u) == n * k)
        for t in range(n * k):
            vc.prove("upsample inserts zeros", lambda: vc.eq(u[t], cols[0][t // k] if t % k == i else 0))
    d0 = ut.downsample(inter, k)
    vc.prove("default phase", d0 == inter[::k] if not vc.symbolic else len(d0) == n and all(a is b for a, b in zip(d0, inter[::k])))
    parts = ut.decompose(inter, k)
    vc.prove("decompose gives factor parts", len(parts) == k and all(len(p) == n for p in parts))
    for i in range(k):
        for t in range(n):
            vc.prove("decompose part", lambda: vc.eq(parts[i][t], cols[i][t]))
    if k > 1:
        _, e = vc.raises(ut.interleave, *cols[:-1], cols[-1] + [0])
        vc.prove("unequal lengths are refused", e is not None)


@contract(P, "downsampling sequences whose length is no multiple of the factor", kind="bounded", bound="lengths 0..40, factors 1..9", n=300, targets=[U + "downsample", U + "decompose"])
def h_ragged(vc):
    n, k = vc.int("n", 0, 40), vc.int("k", 1, 9)
    a = [vc.int(f"a{i}", -9, 9) for i in range(n)]
    p = vc.int("phase", 0, k - 1)
    vc.prove("downsample", list(ut.downsample(a, k, p)) == [a[i] for i in range(p, n, k)])
    vc.prove("decompose", [list(x) for x in ut.decompose(a, k)] == [[a[i] for i in range(q, n, k)] for q in range(k)])


@contract(P, "graph identifiers are unique", kind="bounded", bound="random histories of up to 30 requests and reserved identifiers", n=400,
          targets=["b_asic.sfg:GraphIDGenerator.next_id"])
def h_ids(vc):
    off = vc.int("offset", 0, 6)
    g = GraphIDGenerator(off)
    used = set()
    for i in range(vc.int("reserved", 0, 8)):
        used.add(f"{vc.choice('t', ['add', 'cmul', 'in'])}{vc.int('k', 0, 9)}")
    given = []
    per = {}
    for i in range(vc.int("requests", 1, 20)):
        t = vc.choice("type", ["add", "cmul", "in", "ad"])
        first = next(k for k in itertools.count(per.get(t, off)) if f"{t}{k}" not in used)
        before = set(used)
        gid = g.next_id(t, used)
        vc.prove("identifier starts with the type name followed by a number", gid.startswith(t) and gid[len(t):].isdigit(), gid)
        vc.prove("identifier is not in use", gid not in before and gid not in given, gid)
        vc.prove("numbering respects the offset", int(gid[len(t):]) >= off)
        vc.prove("it is registered as used and nothing else is", used == before | {gid})
        vc.prove("the smallest free number is used", gid == f"{t}{first}", f"{gid} expected {first}")
        per[t] = first
        given.append(gid)
        if vc.bool("reserve"):
            used.add(f"{vc.choice('rt', ['add', 'cmul', 'in'])}{vc.int('rk', 0, 15)}")
    vc.prove("offset is reported", g.id_number_offset == off)
