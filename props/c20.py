"""C20: generated VHDL, simulated clock cycle by clock cycle against an exact evaluation of the signal flow graph.

The meaning of the generated text is outside any deductive verifier available here, so this is a bounded stand-in: the
real printers generate random architectures, GHDL analyses and runs them, and an independent exact reference (fractions)
says which bits have to be on the outputs in which cycle.
"""
import collections
import os
import pathlib
import random
import re
import shutil
import subprocess
import tempfile
from fractions import Fraction as F

import b_asic.core_operations as co
import b_asic.special_operations as so
import b_asic.wdf_operations as wo
from b_asic.architecture import Architecture, ProcessingElement
from b_asic.code_printer import VhdlPrinter
from b_asic.code_printer.util import bin_str, selector_bits, time_bin_str
from b_asic.code_printer.vhdl.util import schedule_time_type
from b_asic.data_type import DataType
from b_asic.list_schedulers import HybridScheduler
from b_asic.process import OperatorProcess
from b_asic.quantization import OverflowMode as O
from b_asic.quantization import QuantizationMode as Q
from b_asic.resource_assigner import assign_processing_elements_and_memories
from b_asic.resources import ProcessCollection
from b_asic.schedule import Schedule
from b_asic.scheduler import ASAPScheduler
from b_asic.sfg import SFG
from pv.vc import contract

LEVEL = "bounded"
EXPLANATION = "GHDL simulation of generated designs; no contract reaches the meaning of VHDL text"
P = "C20"
V = "b_asic.code_printer.vhdl."
TYPES = ("add", "addsub", "shiftaddsub", "cmul", "sym2p")
KINDS = ("add", "addsub", "sas", "cmul", "sym")
CONTROL = ("multiplexer_control_registered", "pipeline_mem_control", "pipeline_pe_control", "pipeline_output_mux", "pipeline_back_edge_mux")
MODES = (Q.TRUNCATION, Q.MAGNITUDE_TRUNCATION, Q.UNBIASED_MAGNITUDE_TRUNCATION)
PRINTERS = ["Input", "Output", "Addition", "AddSub", "ShiftAddSub", "ConstantMultiplication", "SymmetricTwoportAdaptor"]
TARGETS = (
    [V + "vhdl_printer:VhdlPrinter." + m for m in ("print", "print_types", "print_Architecture", "print_Memory", "print_ProcessingElement", "get_compile_order", "_resolve_pe_registers",
                                                   "_resolve_control_cycle", "_print_quantization_signal", "_print_overflow_signal")]
    + [V + f"vhdl_printer:VhdlPrinter.print_{k}_fixed_point_real" for k in PRINTERS]
    + [V + m for m in ("memory_storage:entity", "memory_storage:architecture", "register_storage:entity", "register_storage:architecture", "processing_element:entity",
                       "processing_element:architecture", "top_level:entity", "top_level:architecture", "top_level:_collect_mux_info", "top_level:_write_mux_control_signals",
                       "top_level:_write_interconnect", "top_level:_write_schedule_counter", "top_level:_write_io_registers")]
)


# --- what has to come out: exact evaluation with fractions ---------------------------------------------------------


def wrap(n, bits):
    return (n + 2 ** (bits - 1)) % 2**bits - 2 ** (bits - 1)


def quantize(x, dt, wl, drop=None):
    """The value in the word length; drop: quantization mode of the bits dropped (None: none can be, floor)."""
    q = x * 2 ** wl[1]
    n = q.__floor__()
    if drop == Q.MAGNITUDE_TRUNCATION:
        n += q < 0
    elif drop == Q.UNBIASED_MAGNITUDE_TRUNCATION and q < 0:
        n = -((-q).__floor__())
    b = sum(wl)
    n = wrap(n, b) if dt.overflow_mode == O.WRAPPING else max(-(2 ** (b - 1)), min(2 ** (b - 1) - 1, n))
    return F(n, 2 ** wl[1])


def shifted(x, n, dt):
    """Arithmetic right shift within the data type's fraction bits."""
    return F((x / 2**n * 2 ** dt.wl[1]).__floor__(), 2 ** dt.wl[1])


def results(op, x, dt):
    p = op.params
    mode = None
    if isinstance(op, co.Addition):
        y = [shifted(x[0] + x[1], p.get("shift_output") or 0, dt)]
    elif isinstance(op, co.AddSub):
        y = [shifted(x[0] + x[1] if p["is_add"] else x[0] - x[1], p.get("shift_output") or 0, dt)]
    elif isinstance(op, co.ShiftAddSub):
        t = shifted(x[1], p["shift"], dt)
        y = [shifted(x[0] + t if p["is_add"] else x[0] - t, p.get("shift_output") or 0, dt)]
    elif isinstance(op, co.ConstantMultiplication):
        mode = dt.quantization_mode
        y = [x[0] * F(p["value"])]
    else:
        mode = dt.quantization_mode
        t = (x[1] - x[0]) * F(p["value"])
        y = [x[1] + t, x[0] + t]
    return [quantize(v, dt, dt.wl, mode) for v in y]


def reference(sfg, dt, inputs, n):
    state = {d.graph_id: F(0) for d in sfg.find_by_type(so.Delay)}
    outs = collections.defaultdict(list)
    for k in range(n):
        val = {}

        def get(port):
            op = port.operation
            at = op.graph_id, port.index
            if at not in val:
                if isinstance(op, so.Delay):
                    v = [state[op.graph_id]]
                elif isinstance(op, so.Input):
                    v = [inputs[op.graph_id][k]]
                else:
                    v = results(op, [get(p.signals[0].source) for p in op.inputs], dt)
                for i, y in enumerate(v):
                    val[op.graph_id, i] = y
            return val[at]

        for o in sfg.find_by_type(so.Output):
            y = get(o.inputs[0].signals[0].source)
            outs[o.graph_id].append(quantize(y, dt, dt.output_wl, dt.quantization_mode if dt.output_wl[1] < dt.wl[1] else None))
        state = {d: get(sfg.find_by_id(d).inputs[0].signals[0].source) for d in state}
    return outs


def bits(v, wl):
    return format(int(v * 2 ** wl[1]) % 2 ** sum(wl), f"0{sum(wl)}b")


# --- designs --------------------------------------------------------------------------------------------------------


def coefficient(r, m, odd):
    # magnitude truncation is only stated for coefficients with fraction bits
    return float(F(2 * r.randint(-m, m - 1) + 1, 16) if odd else r.choice([F(r.randint(-2 * m, 2 * m), 16), F(r.randint(-m // 8, m // 8)), F(r.randint(1, 2 * m), 16)]))


def graph(r, kinds, delays, odd, n_ops):
    ins = [so.Input(f"i{k}") for k in range(r.randint(1, 2))]
    ds = [so.Delay() for _ in range(delays)]
    sig = ins + ds
    used = set()

    def pick():
        c = [s for s in sig if id(s) not in used]
        s = r.choice(c) if c and r.random() < 0.6 else r.choice(sig)
        used.add(id(s))
        return s

    last = []
    for _ in range(r.randint(1, n_ops)):
        k = r.choice(kinds)
        so_ = r.choice([0, 0, 1, 2])
        if k == "add":
            o = co.Addition(pick(), pick(), shift_output=so_)
        elif k == "addsub":
            o = co.AddSub(is_add=r.random() < 0.5, src0=pick(), src1=pick(), shift_output=so_)
        elif k == "sas":
            o = co.ShiftAddSub(pick(), pick(), r.random() < 0.5, r.randint(0, 3), shift_output=min(so_, 1))
        elif k == "cmul":
            o = co.ConstantMultiplication(coefficient(r, 16, odd), pick())
        else:
            o = wo.SymmetricTwoportAdaptor(coefficient(r, 8, odd), pick(), pick())
        last += o.outputs
        sig += o.outputs
    for d in ds:
        d.input(0).connect(r.choice(last))
    outs = [so.Output(p) for p in last if not p.signals] + [so.Output(d) for d in ds + ins if not d.output(0).signals]
    if not outs or r.random() < 0.3:
        outs.append(so.Output(r.choice(last)))
    return SFG(ins, outs)


def testbench(entity, dt, enable, ins, outs, stim):
    b, bo = dt.input_bits, dt.output_bits
    pi, po = [f"{p}_0_in" for p in ins], [f"{p}_0_out" for p in outs]
    w = 2 + b * len(pi)
    ports = ["clk => clk", "rst => rst"] + (["en => en"] if enable else []) + [f"{p} => {p}" for p in pi + po]
    s = ["library ieee; use ieee.std_logic_1164.all; use std.textio.all;", "entity tb_verif is end;", "architecture t of tb_verif is",
         "signal clk : std_logic := '0'; signal rst, en : std_logic := '0';"]
    s += [f"signal {p} : std_logic_vector({b - 1} downto 0);" for p in pi] + [f"signal {p} : std_logic_vector({bo - 1} downto 0);" for p in po]
    s += [f"type rows is array (0 to {len(stim) - 1}) of std_logic_vector({w - 1} downto 0);",
          "constant data : rows := (" + ",\n".join(f'{k} => "{rst}{en}' + "".join(x[p] for p in ins) + '"' for k, (rst, en, x) in enumerate(stim)) + ");",
          "function str(v: std_logic_vector) return string is variable r : string(1 to v'length); variable k : integer := 1; begin for i in v'range loop "
          "r(k) := std_logic'image(v(i))(2); k := k+1; end loop; return r; end;",
          f"begin dut : entity work.{entity} port map (" + ", ".join(ports) + ");",
          "process variable l : line; begin for k in data'range loop", f"rst <= data(k)({w - 1}); en <= data(k)({w - 2});"]
    s += [f"{p} <= data(k)({w - 3 - i * b} downto {w - 2 - (i + 1) * b});" for i, p in enumerate(pi)]
    s += ["wait for 1 ns;"] + [f"write(l, str({p})); write(l, string'(\" \"));" for p in po]
    s += ["writeline(output, l); clk <= '1'; wait for 1 ns; clk <= '0'; wait for 1 ns; end loop; wait; end process; end;"]
    return "\n".join(s)


def fill_dont_cares(text, how):
    text = re.sub(r"'-'", f"'{how}'", text)
    return re.sub(r'"-+"', lambda m: '"' + how * (len(m[0]) - 2) + '"', text)


def ghdl(args, d):
    return subprocess.run(["ghdl", *args], cwd=d, capture_output=True, text=True, timeout=50)


def simulate(vc, arch, dt, opts, ins, outs, stim, dont_care):
    d = pathlib.Path(tempfile.mkdtemp(prefix="c20_"))
    try:
        printer = VhdlPrinter(dt)
        printer.print(arch, path=d, **opts)
        (d / "tb_verif.vhdl").write_text(testbench(arch.entity_name, dt, opts.get("enable_pin", True), ins, outs, stim))
        if dont_care is not None:
            for m in [m.entity_name for m in arch.memories] + [arch.entity_name]:
                f = d / f"{m}.vhdl"
                f.write_text(fill_dont_cares(f.read_text(), dont_care))
        a = ghdl(["-a", "--std=08", *printer.get_compile_order(arch), "tb_verif.vhdl"], d)
        vc.prove("the generated text is VHDL", a.returncode == 0, a.stderr[:400])
        a = ghdl(["--elab-run", "--std=08", "tb_verif", "--ieee-asserts=disable"], d)
        vc.prove("the generated design runs", a.returncode == 0, (a.stderr + a.stdout[-200:])[:500])
        return [line.split() for line in a.stdout.splitlines()]
    finally:
        shutil.rmtree(d)


def options(r):
    """Printer options, and whether control registers need a warm-up period (they are not set by a reset)."""
    opts = {}
    if r.random() < 0.5:
        opts.update({k: True for k in CONTROL if r.random() < 0.25})
        if r.random() < 0.3:
            opts["enable_pin"] = False
    warm = bool(opts)
    opts.update({k: True for k in ("input_register", "output_register", "io_registers") if r.random() < 0.1})
    if r.random() < 0.2:
        opts["output_sync"] = False
    return opts, warm


def design(r, n_ops):
    """A random architecture with its schedule, graph, data type and options; None when refused on the way."""
    mode = r.choice(MODES)
    opts, warm = options(r)
    sfg = graph(r, r.sample(KINDS, r.randint(1, 3)), 0 if warm else r.randint(0, 2), mode == Q.MAGNITUDE_TRUNCATION, n_ops)
    regs = opts["pe_registers"] = {}
    for t in TYPES:
        if any(o.type_name() == t for o in sfg.operations):
            lat = r.randint(1, 5 if t == "sym2p" else 4)
            sfg.set_latency_of_type_name(t, lat)
            sfg.set_execution_time_of_type_name(t, 1)
            if r.random() < 0.4:
                a = r.randint(0, lat)
                regs[t] = (a, lat - a)
    try:
        sch = Schedule(sfg, r.choice([ASAPScheduler, HybridScheduler])(), cyclic=True)
    except (ValueError, TypeError):
        return None
    if r.random() < 0.6:
        sch.set_schedule_time(sch.schedule_time + r.randint(0, 3))
    if not sch.schedule_time:
        return None
    try:
        pes, mems, direct = assign_processing_elements_and_memories(sch, strategy=r.choice(["left_edge", "greedy_graph_color"]), memory_type=r.choice(["RAM", "register"]),
                                                                    memory_read_ports=1, memory_write_ports=1)
        arch = Architecture(pes, mems, "top", direct_interconnects=direct)
    except ValueError:
        return None
    wl = r.randint(1, 4), r.randint(2, 8)
    dt = DataType(wl=wl, input_wl=wl if r.random() < 0.7 else (r.randint(1, wl[0]), wl[1]), output_wl=wl if r.random() < 0.6 else (r.randint(1, wl[0]), r.randint(1, wl[1])),
                  quantization_mode=mode, overflow_mode=r.choice([O.WRAPPING, O.SATURATION]))
    return arch, sch, dt, opts, warm


def compare(vc, r, arch, sch, dt, opts, warm, iterations):
    """Runs the design on random inputs, with random stalls, and compares every output of every iteration."""
    sfg = sch.sfg
    T, start = sch.schedule_time, sch.start_times
    enable = opts.get("enable_pin", True)
    stall = enable and r.random() < 0.5
    in_reg = bool(opts.get("input_register") or opts.get("io_registers"))
    out_reg = bool(opts.get("output_register") or opts.get("io_registers"))
    inp = {i.graph_id: [F(r.randrange(2**dt.input_bits) - 2 ** (dt.input_bits - 1), 2 ** dt.input_wl[1]) for _ in range(iterations)] for i in sfg.find_by_type(so.Input)}
    want = reference(sfg, dt, inp, iterations)
    pe_of = {p.operation.graph_id: pe.entity_name for pe in arch.processing_elements for p in pe.collection if isinstance(p.operation, (so.Input, so.Output))}
    pi = {g: pe_of[g] for g in inp}
    po = {g: pe_of[g] for g in want}
    ins, outs = sorted(set(pi.values())), sorted(set(po.values()))

    def garbage():
        return {p: "".join(r.choice("01") for _ in range(dt.input_bits)) for p in ins}

    stim = [(1, 0, garbage())]
    when = {}
    shift = T if warm else 0
    for c in range((iterations + 2) * T + 3 + shift):
        while stall and r.random() < 0.3:
            stim.append((0, 0, garbage()))
        row = garbage()
        time = c - shift + (in_reg and not enable)   # an input register that is always enabled takes inputs a cycle early
        for g, pe in pi.items():
            k = time - start[g]
            if k >= 0 and k % T == 0 and k // T < iterations:
                row[pe] = bits(inp[g][k // T], dt.input_wl)
        when[c - shift] = len(stim)
        stim.append((0, 1, row))
    got = simulate(vc, arch, dt, opts, ins, outs, stim, r.choice([None, "0", "1"]))
    for g, pe in po.items():
        for n in range(iterations):
            at = when[n * T + start[g]] + (in_reg and enable) + out_reg
            have = got[at][outs.index(pe)]
            vc.prove("the outputs hold the graph's values in their cycles", have == bits(want[g][n], dt.output_wl), lambda: f"{g}, iteration {n}: {have} instead of {bits(want[g][n], dt.output_wl)}; T={T} {start} {dt} {opts}")


@contract(P, "designs", kind="bounded", cases=("small", "large"), bound="random graphs (up to 5 or 12 operations of 5 types, up to 2 delays), schedules, automatic assignments, word lengths up to 4+8 bits, "
          "printer options; 6 iterations of random inputs with stalls", n=1500, n_thorough=16000, targets=TARGETS)
def designs(vc, size):
    r = random.Random(vc.seed("s"))
    x = design(r, 5 if size == "small" else 12)
    vc.assume(x is not None)
    compare(vc, r, *x, iterations=6)


# --- words the generated text is made of ---------------------------------------------------------------------------


@contract(P, "control words represent the coefficients", kind="bounded", n=300, n_thorough=5000, bound="up to five coefficients with up to 12 integer and 20 fractional bits",
          targets=["b_asic.architecture:ProcessingElement.control_table", "b_asic.architecture:_fixed_point_bits", "b_asic.architecture:_signed_bit_length", "b_asic.architecture:ControlTable.is_static",
                   "b_asic.architecture:ControlTable.get_static_value", "b_asic.architecture:ControlTable.bits"])
def h_control(vc):
    r = random.Random(vc.seed("s"))
    number = lambda: r.choice([float, float, int])(r.choice([-1, 1]) * r.randrange(2 ** r.randint(0, 12)) * (F(1, 2 ** r.randint(0, 20)) if r.random() < 0.8 else 1))
    values = [number() for _ in range(r.randint(1, 5))]
    if r.random() < 0.3:
        values = values[:1] * len(values)
    x = so.Input()
    g = SFG([x], [so.Output(co.ConstantMultiplication(v, x, latency=1, execution_time=1)) for v in values])
    sch = Schedule(g, ASAPScheduler(), schedule_time=8, cyclic=True)
    starts = {}
    for p in sch.get_operations():
        if isinstance(p.operation, co.ConstantMultiplication):
            starts[p.operation.graph_id] = p
    procs = [OperatorProcess(i, p.operation) for i, (_, p) in enumerate(sorted(starts.items()))]
    pe = vc.no_error("a processing element", ProcessingElement, ProcessCollection(procs, 8), "multiplier")
    if pe is None:
        return
    table = vc.no_error("control words", lambda: pe.control_table["value"])
    if table is None:
        return
    vc.prove("a word per start time", dict(table.values) == {p.start_time: p.operation.value for p in procs})
    show = lambda: f"{table.values}: {table.int_bits} + {table.frac_bits}"
    for v in table.values.values():
        vc.prove("the word holds the coefficient", -(2 ** (table.int_bits - 1)) <= F(v) < 2 ** (table.int_bits - 1) and (F(v) * 2**table.frac_bits).denominator == 1, show)
    vc.prove("no wider than needed", all(any(not -(2 ** (b - 1)) <= F(v) < 2 ** (b - 1) for v in table.values.values()) for b in [table.int_bits - 1] if b > 0)
             and (table.frac_bits == 0 or any((F(v) * 2 ** (table.frac_bits - 1)).denominator != 1 for v in table.values.values())), show)
    vc.prove("bits", table.bits == table.int_bits + table.frac_bits)
    vc.prove("static when all are equal", table.is_static == (len(set(values)) == 1))
    if table.is_static:
        vc.prove("the static word", table.get_static_value() == values[0])


@contract(P, "binary words of numbers and times", kind="bounded", n=1, bound="every number of up to 9 bits; every time of schedule times up to 70; up to 299 sources",
          targets=["b_asic.code_printer.util:bin_str", "b_asic.code_printer.util:time_bin_str", "b_asic.code_printer.util:selector_bits"])
def h_words(vc):
    for bits in range(1, 10):
        for n in range(-(2 ** (bits - 1)), 2**bits):
            w = bin_str(n, bits)
            vc.prove("two's complement word", len(w) == bits and int(w, 2) == n % 2**bits, lambda: f"{n} in {bits} bits: {w}")
    for T in range(1, 71):
        words = [time_bin_str(t, T) for t in range(T)]
        vc.prove("times have words of their own", [int(w, 2) for w in words] == list(range(T)) and len({len(w) for w in words}) == 1, lambda: str(words))
        vc.prove("of the width of the schedule counter", schedule_time_type(T) == f"unsigned({len(words[0]) - 1} downto 0)", lambda: schedule_time_type(T))
    for n in range(1, 300):
        b = selector_bits(n)
        vc.prove("enough selector bits, no more than needed", 2**b >= n and (b == 1 or 2 ** (b - 1) < n), lambda: f"{n}: {b}")
