"""Writes /verif/properties.jsonl (kept as a generator so that the JSON stays valid)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
L = "lib/b_asic/"
p("C01", "Every operation computes its documented arithmetic function",
  "For all input values and parameter values, evaluating an operation (constants, negation, add, subtract, add-subtract, shifts, multiplication, constant multiplication, multiply-add variants, division, reciprocals, min/max, square root, absolute value, conjugate, symmetric two-port adaptor, butterflies, DFT and FFT building blocks, sinks and pass-through operations) yields exactly the mathematical function its documentation states, on every output. The number and order of outputs match the operation's ports, and evaluation through the generic output-evaluation interface returns, and records under each output's key, the same values.",
  ["inputs", "configurations"], "all real/complex input values; all parameter values (add/subtract flags, multiply-by-j flags, shifts, coefficients)",
  "Tests evaluate each operation on a few hand-picked numbers and flag combinations; a wrong sign or dropped flag for another combination is invisible.",
  [L+"core_operations.py", L+"fft_operations.py", L+"utility_operations.py", L+"special_operations.py", L+"operation.py"],
  [("evaluate methods", L+"core_operations.py"), ("evaluate_output", L+"operation.py"), ("butterflies / DFT / TFFT", L+"fft_operations.py")],
  ["Operation.evaluate", "Operation.evaluate_output(s)"])
p("C02", "Rewriting, combining and swapping operations preserve the function",
  "Replacing an operation by a rewritten, joined, combined, decomposed or expanded equivalent, or swapping the inputs of an operation declared swappable, never changes the value computed at any output, for all inputs and all parameter values. When the replacement cannot represent the original, it is refused rather than silently computing something else.",
  ["inputs", "configurations"], "all input values; all parameter combinations; all coefficients; all surrounding structures in which the rewrite is accepted",
  "Tests check the type and wiring of rewritten graphs for one or two parameter values and do not compare the computed functions for all values.",
  [L+"core_operations.py", L+"fft_operations.py", L+"wdf_operations.py", L+"operation.py", L+"sfg.py"],
  [("_rewrite_* / _join_* / _combine_* methods", L+"core_operations.py"), ("swap_io", L+"operation.py"), ("SFG.rewrite", L+"sfg.py"), ("split / to_sfg", L+"operation.py")],
  ["SFG.rewrite", "Operation.to_sfg", "Operation.swap_io", "SFG.swap_io_of_operation"])
p("C03", "Wave digital filter adaptors satisfy their wave equations",
  "For all incident waves and all coefficients, the series and parallel adaptors compute reflected waves that satisfy the Kirchhoff law of the connection for the port values the coefficients describe: in a series adaptor the currents are equal and the voltages sum to zero, in a parallel adaptor the voltages are equal and the currents sum to zero, hence the adaptor is lossless. A reflection-free port's reflected wave does not depend on its own incident wave, and each output is declared to require exactly the inputs its value depends on.",
  ["inputs", "configurations"], "all real incident waves, all positive port resistances (hence all coefficient values derived from them)",
  "Tests evaluate adaptors at single coefficient/input values; the equation must hold for the whole coefficient range.",
  [L+"wdf_operations.py"],
  [("adaptor evaluate methods", L+"wdf_operations.py"), ("inputs_required_for_output", L+"wdf_operations.py")],
  ["evaluate of each adaptor", "inputs_required_for_output(s)"])
p("C04", "Signed-digit conversion, resampling helpers and identifiers are exact",
  "Converting any integer or binary-fraction number to canonical signed-digit form yields digits in {-1, 0, 1}, most significant first, whose weighted sum scaled by the returned number of fractional bits is exactly the number, with no two adjacent non-zero digits and no leading or trailing zero digit. Interleaving, down-sampling, up-sampling and polyphase decomposition of sequences place every element exactly where documented. A generated graph identifier consists of the type name and a number and is never one already in use.",
  ["inputs"], "all integers / all binary fractions, any number of fractional bits",
  "Tests convert a handful of constants; exactness and canonicity must hold for every number, through a data-dependent loop.",
  [L+"utils.py", L+"core_operations.py"],
  [("int_to_csd loop", L+"utils.py"), ("float_to_csd", L+"utils.py")],
  ["return values of the conversion helpers"])
p("C05", "Fixed-point quantization and data types round and overflow exactly",
  "Quantizing any value to a word with given fractional and total bits yields a multiple of the least significant bit that is the one the selected rounding/truncation mode defines, wrapped or saturated into the word's range exactly as the selected overflow mode defines; quantizing twice equals quantizing once (except with jamming combined with saturation, where the saturated end of the range need not have its least significant bit set); a combination of modes the function does not implement is refused. Real and imaginary parts are treated alike, and a data type's word-length bookkeeping (word length, integer and fractional bits, bits per component) is consistent for every construction.",
  ["inputs", "configurations"], "all real/complex values, all word lengths, every quantization and overflow mode",
  "Tests quantize a few values per mode; ties, negative values, range ends and mode/overflow interactions are sampled, not covered.",
  [L+"quantization.py", L+"data_type.py", L+"operation.py"],
  [("quantize", L+"quantization.py"), ("DataType", L+"data_type.py"), ("casts", L+"operation.py")],
  ["quantize(...)", "DataType properties"])
p("C06", "Graph connections stay mutually consistent under any edit history",
  "After any sequence of connecting, disconnecting, re-sourcing, re-targeting or clearing of ports and signals, a signal is listed by a port exactly when the signal names that port as its source or destination, an input port has at most one signal, and no signal is listed twice. An operation that raises an error for a forbidden edit leaves every connection as it was.",
  ["histories"], "all finite sequences of port/signal operations from the empty state; all starting connection states satisfying the invariant",
  "Tests exercise single edits on fresh ports; aliasing, repeated and overlapping edits are not explored.",
  [L+"port.py", L+"signal.py", L+"operation.py"],
  [("connect/add_signal/remove_signal/clear", L+"port.py"), ("set_source/set_destination/remove_*", L+"signal.py")],
  ["port.signals, signal.source, signal.destination after each public call"],
  [("port signal lists", "signals attached to a port", L+"port.py"), ("signal endpoints", "source and destination port", L+"signal.py")])
p("C07", "Schedule slacks, move limits and single-operation moves are exact",
  "For any valid schedule with any latencies, start times and delays, the forward and backward slack of an operation is exactly the time its consumer or producer constraints leave, moving an operation by an amount is accepted exactly when it lies within the slacks, and an accepted move keeps every data dependency satisfied with unchanged total delay along every loop and (counting the whole periods by which an input's or output's start time wraps) every input-output path; a don't-care value counts as available from time zero and its delays are immaterial. Moving as late or as soon as possible moves by the whole slack (to the end or start of the schedule when the slack is unlimited), and never changes any other operation's start time.",
  ["inputs", "histories"], "all non-negative latencies, start times, schedule times, delay counts and move amounts, cyclic or not; all histories of moves",
  "Tests move operations in two or three fixed schedules; wrap-around over the schedule boundary and delay bookkeeping depend on exact arithmetic over all values.",
  [L+"schedule.py"],
  [("slacks / forward_slack / backward_slack", L+"schedule.py"), ("move_operation*", L+"schedule.py")],
  ["forward_slack, backward_slack, move_operation, start_times, laps"],
  [("start times", "start time of each operation", L+"schedule.py"), ("laps", "delays carried by each signal", L+"schedule.py")])
p("C08", "Whole-schedule edits keep the schedule valid and its meaning",
  "Changing the schedule time, rotating a cyclic schedule forwards or backwards, moving Y positions, scaling the time resolution and changing operation latencies or execution times keep every data dependency satisfied and every loop's total delay unchanged, or are refused; scaling the resolution up and down by the same factor restores the schedule. The reported maximum end time and minimum feasible times equal those implied by the start times and latencies.",
  ["inputs", "histories"], "all start times, latencies, schedule times, factors, rotation sequences",
  "Tests use fixed schedules and one rotation; interplay of rotation with delays and I/O operations is only sampled.",
  [L+"schedule.py"],
  [("set_schedule_time, rotate_*, increase/decrease_time_resolution, set_latency_of_type", L+"schedule.py"), ("get_max_end_time", L+"schedule.py")],
  ["start_times, laps, schedule_time, latencies after the edit"])
p("C09", "Schedulers produce feasible schedules within all limits",
  "Every scheduler returns a schedule in which each operation starts no earlier than its inputs are available (taking delays and the schedule time into account), no loop gains or loses delay, and, for resource-constrained schedulers, no more operations of a type execute at once and no more reads or writes happen in a time step than allowed. The as-soon-as-possible scheduler gives the earliest start times that the undelayed data dependencies allow; the as-late-as-possible scheduler starts each operation as late as its undelayed consumers, the end of the schedule and the earliest start of its delayed consumers allow. Requested input times and output distances are honoured (modulo the period in cyclic schedules).",
  ["programs", "configurations", "schedules"], "all signal flow graphs, latencies, execution times, schedule times and resource limits",
  "Tests compare a few published schedules; feasibility for every graph, latency and resource vector is a universally quantified claim.",
  [L+"scheduler.py", L+"list_schedulers.py", L+"schedule.py"],
  [("ASAP/ALAP/List/Recursive/ILP schedulers", L+"scheduler.py"), ("ready-operation and resource checks", L+"scheduler.py")],
  ["Schedule(...).start_times, laps, schedule_time"])
p("C10", "Extracted memory variables describe the schedule's data lifetimes",
  "The memory variables and operator processes extracted from a schedule contain exactly one entry per stored output (per executed operation), start when the value becomes available (the operation starts) modulo the schedule time, and end each read exactly when the consumer reads it, counting delays. Splitting a variable by lifetime or into chains covers every original read exactly once, keeps contiguous hand-over times and respects the requested length.",
  ["inputs", "schedules"], "all start times, latency offsets, delays, schedule times, lifetimes and split lengths",
  "Tests check totals on fixed schedules; zero lifetimes, wrap-around and several reads per variable are not covered in general.",
  [L+"schedule.py", L+"process.py", L+"resources.py"],
  [("get_memory_variables / get_operations", L+"schedule.py"), ("split_on_length / split_into_chains", L+"process.py")],
  ["ProcessCollection contents: start times, lifetimes, reads"])
p("C11", "Exclusion graphs and assignments never let processes collide",
  "Two processes are joined in an exclusion graph exactly when their execution intervals (or port accesses) overlap on the cyclic time axis, and every cell or resource assignment and every port-limited split partitions the processes so that no two in a part overlap and no part exceeds its read, write or total ports at any time step (a process that on its own needs more ports than allowed is either refused or accepted at time steps where no other process of its part makes that kind of access). Every input process appears in exactly one part; a process executing longer than the schedule time is refused by an assignment to cells.",
  ["inputs"], "all start times, execution times, lifetimes, schedule times, port limits, cyclic or not",
  "Tests compare known collections; overlaps across the schedule boundary and zero/one-length intervals are sampled only.",
  [L+"resources.py", L+"process.py"],
  [("exclusion_graph_from_execution_time / _from_ports", L+"resources.py"), ("left_edge / graph coloring / ILP cell assignment", L+"resources.py"), ("split_on_ports", L+"resources.py"), ("port bounds", L+"resources.py")],
  ["exclusion graph edges, returned ProcessCollections, *_bound methods"])
p("C12", "Forward-backward register allocation delivers every value on time",
  "For every collection of variables, the forward-backward allocation either refuses (an error is raised) or its table keeps each live variable in exactly one register at each time step from one step after it arrives until it is last read, moves it only along the recorded forward or backward paths, never stores two variables in one register at once, and outputs each variable at every time it is read (from the recorded register, when at most one variable arrives and one is read per time step). It uses exactly the maximum number of simultaneously live variables when the allocation succeeds. A variable alone, and variables arriving at every time step and read after equal lifetimes, are always allocated.",
  ["inputs", "schedules"], "all variable lifetimes, multiple reads, any schedule time",
  "Tests check one published table; correctness must hold for every lifetime chart.",
  [L+"resources.py"],
  [("_ForwardBackwardTable / _ForwardBackwardEntry", L+"resources.py")],
  ["the table's rows: inputs, outputs, registers, back edges"])
p("C13", "Graph transformations preserve input/output behaviour",
  "Copying, flattening, unfolding, inserting, removing and replacing operations, simplifying delays, swapping, and converting a schedule back to a graph produce a graph computing the same outputs for every input sequence (for unfolding: the interleaved sequences; for insertions and replacements: with the new operation's function in place; for delay-adding edits: with exactly the documented delay; for a schedule of a graph of operations giving zero for zero inputs and of delays that start at zero: with inputs and outputs in the sample in which the schedule places them). The original graph is never modified by an operation that returns a new one.",
  ["programs", "inputs"], "all graphs built from the library's operations, all coefficients, all input sequences from the initial state",
  "Tests compare structure or a few samples on fixed graphs; equivalence must hold for all inputs and coefficient values.",
  [L+"sfg.py", L+"schedule.py", L+"operation.py", L+"graph_component.py"],
  [("copy/unfold/insert/remove/replace/simplify delays/connect", L+"sfg.py"), ("Schedule.sfg", L+"schedule.py")],
  ["outputs of evaluate/simulate on the original and transformed graph"])
p("C14", "Simulation computes the graph's difference equations",
  "For every graph, input sequence and initial state, each simulated sample of every node equals the value given by the graph's difference equations: combinational operations of the current sample, each delay outputting its input of the previous sample, or its initial value first. Stepping, running to an iteration, running in bulk, saving results and clearing state give the same samples, and the simulation never alters the graph. A delay-free loop is refused rather than simulated.",
  ["programs", "inputs", "histories"], "all graphs, all input values and sequences, all interleavings of run calls",
  "Tests simulate fixed graphs; partial runs, several delays in series/ring and reused intermediate results are covered for one instance each.",
  [L+"simulation.py", L+"sfg.py", L+"special_operations.py"],
  [("Simulation.run_for/step", L+"simulation.py"), ("SFG.evaluate_output with deferred delays", L+"sfg.py")],
  ["Simulation.results", "SFG.evaluate"])
p("C15", "State-space, transfer-function and precedence analyses match the graph",
  "The state-space matrices of a linear graph without constant terms (the delays of nested graphs included) reproduce, for all inputs, states and coefficients above the analysis threshold, the graph's own difference equations; its impulse responses are the simulated responses from rest, its transfer functions expand into them, and gain, zeros and poles factor the transfer functions up to powers of z. Linearity, constantness, precedence levels, topological order (every operation once, and after its sources in graphs without loops), critical path time, and the iteration period bound (the largest ratio of loop latency to loop delay) equal the values defined by the graph's structure.",
  ["programs", "inputs"], "all linear graphs, all coefficients; all graphs and latencies for the structural analyses",
  "Tests check known textbook filters; the analysis must be right for every structure and coefficient.",
  [L+"state_space.py", L+"transfer_function.py", L+"sfg.py"],
  [("StateSpace / state_space_representation", L+"state_space.py"), ("iteration_period_bound, critical_path_time, get_precedence_list", L+"sfg.py")],
  ["returned matrices, impulse responses, bounds, orders"])
p("C16", "Generators realise the filters and transforms they name",
  "For all coefficients and inputs, the generated FIR, direct-form IIR, matrix, wave digital lattice and all-pass structures have exactly the difference equation defined by their coefficients, and the radix-2 FFT generator computes the discrete Fourier transform for every power-of-two size and input. Requested adders, delays, symmetric variants and names change structure, not function. The matrix inversion generators invert every symmetric positive definite matrix.",
  ["programs", "inputs", "configurations"], "all coefficient vectors and inputs; sizes up to a stated bound",
  "Tests check a few impulse responses with fixed coefficients; symmetric odd lengths, scalings and sizes not in the tests stay open.",
  [L+"sfg_generators/digital_filters.py", L+"sfg_generators/fft.py", L+"sfg_generators/matrix_operations.py", L+"sfg_generators/wave_digital_filters.py", L+"wdf/lattice.py"],
  [("generator functions", L+"sfg_generators")],
  ["simulation of the generated graph"])
p("C17", "Saving and reloading restores the same graph or schedule",
  "Serialising any graph to Python and loading it back yields a graph with the same operations, parameters, names, latencies, execution times, connections and behaviour, and likewise a schedule with the same start times, delays, schedule time and cyclicity. No parameter value is replaced by a default.",
  ["programs", "configurations"], "all graphs over every operation type and every parameter value, including zero, False and empty; all schedules",
  "Tests round-trip two graphs with truthy parameters.",
  [L+"save_load_structure.py"],
  [("sfg_to_python / python_to_sfg", L+"save_load_structure.py"), ("schedule_to_python / python_to_schedule", L+"save_load_structure.py")],
  ["reloaded graph/schedule compared with the original"])
p("C18", "Signal generators produce their defined sequences",
  "For every parameter value and every time index, each signal source (constants, steps, impulses, delayed lists, sinusoids, uniform, Gaussian) and every delayed, upsampled or downsampled source, sequence, file and sum, difference, product and quotient of sources and numbers yields the defined value at that index, with zero outside its support where so documented.",
  ["inputs", "configurations"], "all parameter values and all time indices, all arithmetic combinations",
  "Tests evaluate the first few indices of single sources.",
  [L+"signal_generator.py"],
  [("__call__ of each generator; operator overloads", L+"signal_generator.py")],
  ["generator(time)"])
p("C19", "Resource assignment and architecture agree with the schedule",
  "An architecture of a schedule's operations and memory variables is accepted only if every operation is in exactly one processing element, every value that has to be stored is in exactly one memory, no port limit is exceeded and every value read was written by one of the resources; its reported resource, interconnect and multiplexer counts equal the distinct source/destination pairs the processes imply. Automatic resource assignment gives every process exactly one resource without overlap and within the limits asked for, or raises; adding, moving and removing processes and resources keeps these relations, and a refused change leaves the architecture as it was.",
  ["schedules", "configurations"], "all schedules and all assignments of their processes to resources",
  "Tests build two or three architectures and compare published counts.",
  [L+"architecture.py", L+"resource_assigner.py"],
  [("Architecture._build_dicts / validate_ports / move_process", L+"architecture.py"), ("assign_processing_elements_and_memories", L+"resource_assigner.py")],
  ["Architecture counts, interconnect dictionaries, validation result"])
p("C20", "Generated VHDL computes what the schedule and graph specify",
  "The VHDL generated for an architecture of real-valued fixed-point additions, additions/subtractions (with shifts), constant multiplications and symmetric two-port adaptors, with memories or register files of one read and one write port, is accepted by a VHDL-2008 analyser and, when simulated, puts on every output, in every cycle the schedule names, exactly the bits that evaluating the signal flow graph with every result quantised to the data type gives, whatever the inputs hold in other cycles, whenever en stops the design, and however the don't cares of the generated text are filled in. (Shifts drop bits; graphs without initial values; latencies of at least one cycle, equal within a type; with pipelined control signals or without en, after one period of the schedule and for graphs without delays.)",
  ["programs", "schedules", "inputs", "configurations"], "all such graphs, schedules, assignments, data types, printer options, input sequences and stalls",
  "Tests compare generated text or run one co-simulation.",
  [L+"code_printer/vhdl/vhdl_printer.py", L+"code_printer/vhdl/top_level.py", L+"code_printer/vhdl/memory_storage.py", L+"code_printer/vhdl/register_storage.py", L+"code_printer/vhdl/processing_element.py"],
  [("VhdlPrinter.print_*", L+"code_printer/vhdl/vhdl_printer.py"), ("multiplexers and interconnect", L+"code_printer/vhdl/top_level.py"), ("memories", L+"code_printer/vhdl/memory_storage.py"), ("register files", L+"code_printer/vhdl/register_storage.py")],
  ["simulation of the generated VHDL"])
with open(pathlib.Path(__file__).parent.parent/"properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
