#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "veriloggen/"
p("C01", "Emitted expressions compute the value of the user's expression tree",
  "For every expression built from Veriloggen operators, bit/part selects (including Python-style negative and open-ended slices and array elements), concatenation, repetition, conditionals and system conversions over signals of any width and signedness, the emitted Verilog computes, for every value of those signals, exactly the value the Verilog standard assigns to that tree as the user grouped it. Python operator overloads (including reflected ones) mean the Verilog operator they stand for, and no operand, grouping, operator, width or sign is lost in emission.",
  ["programs", "inputs"], "all expression trees over the public operator set, all operand widths/signs, all operand values",
  "Golden tests compare the text of a few fixed expressions; nothing evaluates nested mixtures of operators, signs and selects over input values.",
  [V+"core/vtypes.py", V+"verilog/to_verilog.py"],
  [("operator overloads", V+"core/vtypes.py:_Numeric"), ("expression emission", V+"verilog/to_verilog.py:VerilogCommonVisitor")],
  ["values printed by the emitted module under iverilog"])
p("C02", "Constants are emitted with exactly the requested value, width, base and sign",
  "Every constant a user creates - Python ints and bools, sized/based/signed integers given as numbers or as Verilog literal strings (with underscores and x/z digits), real numbers and printable strings - appears in the emitted Verilog as a literal denoting exactly that value, width and signedness. Negative values, boundary values of a width and every supported base are preserved.",
  ["inputs"], "all (value, width, base, signed) combinations and literal strings",
  "Tests contain a few dozen literals, none negative with a width and base or at the width boundary.",
  [V+"core/vtypes.py", V+"verilog/to_verilog.py"],
  [("literal parsing", V+"core/vtypes.py:str_to_value,str_to_width,str_to_signed"), ("literal emission", V+"verilog/to_verilog.py:visit_Int")],
  ["%b of each literal, its $bits-wide extension and sign extension under iverilog"])
p("C03", "Procedural statements execute with the semantics the user wrote",
  "For every nesting of If/Elif/Else, Case/Casex with When, For, While, Repeat, blocking and nonblocking assignments (to whole signals, slices, array elements and concatenations), functions and tasks that a user builds, executing the emitted always/initial block leaves every register with the value a direct reading of that program gives. Branch association, statement order, default branches and assignment kind are preserved.",
  ["programs", "inputs"], "all statement trees of the supported constructors and all initial register values",
  "Existing tests execute a handful of straight-line or single-branch programs, mostly compared as text.",
  [V+"core/vtypes.py", V+"verilog/to_verilog.py", V+"core/function.py", V+"core/task.py"],
  [("statement emission", V+"verilog/to_verilog.py:VerilogAlwaysVisitor,VerilogBlockingVisitor"), ("If/Elif/Else chaining", V+"core/vtypes.py:If")],
  ["final register values printed by the emitted module"])
p("C04", "Importing Verilog and re-emitting it preserves behaviour",
  "Reading any supported Verilog source into Veriloggen modules and emitting it again yields a design with the same interface and the same cycle-by-cycle outputs for every stimulus. Emitting, importing and emitting again is also behaviour-preserving for designs built in Python.",
  ["programs", "inputs"], "all Verilog modules in the supported subset; all stimuli",
  "Tests import a few fixed files and compare text; the imported constructs are never exercised against the original in simulation.",
  [V+"verilog/from_verilog.py", V+"verilog/to_verilog.py", V+"core/module.py"],
  [("import visitor", V+"verilog/from_verilog.py:VerilogReadVisitor"), ("stub/embedded modules", V+"core/module.py:StubModule")],
  ["output traces of the original and of the round-tripped text under the same stimulus"])
p("C05", "Hierarchy, parameters, generates and port copies bind what the user named",
  "Whatever the hierarchy depth, instance count, parameterisation (named or positional), submodule wrapping, generate loop/condition or port-copy helper used, every child port and parameter is bound to exactly the signal or value the user gave for it, and the elaborated design computes the composition of the child behaviours. Re-use of an already declared identifier or an unknown port or parameter name is rejected instead of emitted.",
  ["programs", "configurations"], "all module trees, parameter overrides, generate structures and copy helpers with filters",
  "Tests instantiate two or three fixed modules and compare text.",
  [V+"core/module.py", V+"core/submodule.py", V+"core/rename_visitor.py", V+"core/collect_visitor.py", V+"verilog/to_verilog.py"],
  [("instance binding", V+"core/module.py:Instance"), ("submodule wrapper", V+"core/submodule.py"), ("copy helpers", V+"core/module.py:copy_*"), ("definition checks", V+"core/module.py:check_existing_identifier")],
  ["simulation outputs of the elaborated hierarchy; raised exceptions"])
p("C06", "Emission is pure, repeatable and independent of process history and hash seed",
  "The emitted Verilog is a function of the design program alone: it is identical whatever the interpreter's hash seed, whatever other designs were built earlier in the process once the global reset is called, and however often and in whatever order modules are emitted. Emission never changes the design's behaviour, and after the global reset no object of an earlier design leaks into a later one.",
  ["histories", "programs"], "all sequences of design constructions, resets and emissions in one process; all hash seeds",
  "Tests build one design per function after a reset, in a fixed order and with PYTHONHASHSEED=0.",
  [V+"__init__.py", V+"core/module.py", V+"verilog/to_verilog.py", V+"thread/util.py", V+"thread/ram.py", V+"stream/stream.py", V+"thread/compiler.py"],
  [("global reset", V+"__init__.py:reset"), ("tmp counters", V+"core/module.py:TmpReg"), ("emission", V+"core/module.py:to_verilog")],
  ["text of to_verilog() in child processes with different histories and seeds"],
  [("global counters and caches", "names and memoised objects shared across designs", V+"thread/*.py, "+V+"stream/*.py, "+V+"core/*.py")])
p("C07", "Clocked sequences update registers exactly as their conditions say",
  "For every set of conditional, chained (If/Elif/Else), delayed, kept, lazily or eagerly evaluated assignments and previous-value references added to a clocked sequence, each register takes in every cycle the value given by the last enabled assignment due in that cycle and otherwise keeps its value, for every input history. Reset (or the declared initial value) puts every driven register to its initial value, delayed assignments fire exactly the stated number of cycles later under the condition and values captured as specified, and building the sequence as a separate module changes nothing.",
  ["programs", "histories"], "all sequence programs; all input and reset histories",
  "Tests cover one feature at a time on a counter, mostly as golden text.",
  [V+"seq/seq.py", V+"seq/reset_visitor.py", V+"seq/subst_visitor.py"],
  [("condition chaining", V+"seq/seq.py:If,Elif,Else"), ("delayed statements", V+"seq/seq.py:_add_delayed_*"), ("as module", V+"seq/seq.py:make_module")],
  ["per-cycle register trace under iverilog against a cycle-accurate reference interpreter"])
p("C08", "State machines take exactly the specified transitions and actions",
  "For every state machine built with conditional and unconditional transitions, named/indexed states, priority of later transitions, per-state conditional, delayed and kept actions, and any emission style (case, nested if, separate module), the state and all driven registers follow, for every input history, the specified transition relation starting from the initial state after reset. An action runs only in the state it was attached to.",
  ["programs", "histories"], "all machines over the construction API; all input and reset histories",
  "Tests check fixed machines of a few states, mostly by text.",
  [V+"fsm/fsm.py", V+"seq/seq.py"],
  [("transitions", V+"fsm/fsm.py:goto*,_go"), ("case/if emission", V+"fsm/fsm.py:make_case,make_if"), ("delayed actions", V+"fsm/fsm.py:_add_delayed_*")],
  ["per-cycle state and register trace against a reference interpreter"])
p("C09", "A synthesized thread computes what its Python function computes",
  "For every function in the supported thread subset (integer arithmetic, comparisons, if/elif/else, while, for over ranges, break, continue, nested and early return, tuple assignment, augmented assignment, nested and method calls with positional/keyword/default arguments, printing), the hardware thread performs the same observable prints, memory writes and return values in the same order as executing that function in Python, in 32-bit arithmetic, and it terminates whenever the function does.",
  ["programs", "inputs"], "all programs of the supported subset; all argument values",
  "Tests synthesize about a hundred fixed functions and check a final PASSED line.",
  [V+"thread/compiler.py", V+"thread/thread.py", V+"thread/scope.py", V+"thread/operator.py"],
  [("control-flow synthesis", V+"thread/compiler.py:visit_If,visit_While,visit_For"), ("scopes and frames", V+"thread/scope.py"), ("function call/return", V+"thread/compiler.py:_call_FunctionDef")],
  ["$display events of the simulated thread against the Python execution of the same function"])
p("C10", "Thread start, run, join, done, arguments and results are exact",
  "However threads and thread pools are started, run repeatedly with arguments, joined, polled or reset, from whichever parent thread and with whatever relative timing, each run executes the body exactly once with the arguments of that run, a join returns only after that run has finished, done is true exactly when no run is active, and the returned value is the one that run computed.",
  ["schedules", "programs"], "all interleavings and relative delays of parent and child threads; all argument values and run counts",
  "Tests run two or three threads with one fixed timing.",
  [V+"thread/thread.py", V+"thread/pool.py"],
  [("run FSM", V+"thread/thread.py:_synthesize_run_fsm"), ("join/done", V+"thread/thread.py:join,done"), ("pool", V+"thread/pool.py")],
  ["begin/end/join events with values in simulation"])
p("C11", "Mutex, barrier and shared register give their synchronisation guarantees",
  "Under every interleaving of threads, at most one thread is between lock and unlock of a mutex, a try-lock reports success exactly when it acquired it, every requester of a lock that is always released eventually gets it, no thread leaves a barrier round before all parties have entered it, and a shared register's locked read-modify-write sequences are never lost. The same holds for locks attached to memories, FIFOs and bus masters.",
  ["schedules", "histories"], "all interleavings of lock, try-lock, unlock, barrier and shared-register operations by any number of threads",
  "Tests use fixed thread counts with one timing and check a final sum.",
  [V+"thread/ttypes.py"],
  [("mutex", V+"thread/ttypes.py:Mutex"), ("barrier", V+"thread/ttypes.py:Barrier"), ("shared", V+"thread/ttypes.py:Shared")],
  ["timestamped acquire/release/enter/leave events"])
p("C12", "FIFOs deliver every accepted item once, in order, with exact flags",
  "For every width, depth and every pattern of concurrent enqueue and dequeue requests (from logic or threads, blocking or try-variants), the sequence of items delivered equals the sequence accepted, nothing is accepted when full or delivered when empty, and the empty, full, almost-empty/almost-full, count and space indications and try-results agree with the true occupancy.",
  ["schedules", "configurations"], "all depths/widths; all enqueue/dequeue request histories",
  "Tests enqueue and dequeue one fixed burst.",
  [V+"types/fifo.py", V+"thread/fifo.py"],
  [("fifo core", V+"types/fifo.py:mkFifoDefinition"), ("thread interface", V+"thread/fifo.py:FIFO")],
  ["per-cycle port trace of the FIFO checked against a queue model"])
p("C13", "On-chip memories return the last value written",
  "For every width, depth, number of ports, bank structure, initial contents and interleaving of reads and writes through any port or interface (logic, thread, burst, block, packed or broadcast access), a read returns the value most recently written to that address through any port, or the initial content, with the documented latency; other addresses are untouched. The same holds for ROMs and for banked views of several memories.",
  ["histories", "configurations"], "all access histories; all geometries",
  "Tests write and read back one fixed ramp on a few geometries.",
  [V+"types/ram.py", V+"types/rom.py", V+"thread/ram.py"],
  [("ram core", V+"types/ram.py:mkRAMDefinition"), ("thread interface", V+"thread/ram.py:RAM,MultibankRAM")],
  ["read/write events against an array model"])
p("C14", "DMA moves exactly the requested words to exactly the requested places",
  "For every transfer size, alignment, stride, bus/memory width ratio, bank/block/packed/broadcast mode, synchronous or asynchronous request sequence and every memory-side delay, after the wait operation the destination holds exactly the source words in the specified order and no other location changed. Transfers never hang.",
  ["schedules", "inputs", "configurations"], "all sizes, addresses, strides, widths, modes, request sequences and slave timing",
  "Tests run fixed sizes with the default memory timing.",
  [V+"thread/axim.py", V+"types/axi.py", V+"thread/ram.py"],
  [("request/data FSMs", V+"thread/axim.py:_synthesize_*_fsm*"), ("burst splitting", V+"thread/axim.py:_check_4KB_boundary")],
  ["memory images and RAM contents before/after, against a word-copy model"])
p("C15", "Bus masters and slaves obey the AXI channel rules",
  "Under every back-pressure pattern, each generated AXI, AXI-Lite and AXI-Stream endpoint keeps its payload stable while valid and not accepted, never withdraws a valid, issues exactly the announced number of data beats with last on the final one only, never issues a burst crossing a 4-KB boundary or longer than the protocol limit, and returns exactly one response per accepted request, never before the last data beat.",
  ["schedules", "configurations"], "all ready/valid delay patterns and all request sequences",
  "No test observes the channels; only final data is checked with one timing.",
  [V+"types/axi.py", V+"thread/axim.py", V+"thread/axis.py", V+"thread/axistreamin.py", V+"thread/axistreamout.py"],
  [("channel registers", V+"types/axi.py:write_request,write_data,push_read_data"), ("4KB split", V+"thread/axim.py:_check_4KB_boundary")],
  ["every clock edge of every channel, by a protocol monitor"])
p("C16", "AXI slave registers reflect exactly the completed bus and thread accesses",
  "For register-file slaves (full and Lite), every bus read returns the current register value, every bus write (honouring address) updates exactly that register, thread-side reads, writes, waits and self-clearing flag operations see and make exactly the same updates, and no access is lost or duplicated under any timing of the bus master.",
  ["schedules", "histories"], "all sequences of bus and thread accesses with all relative timing",
  "Tests use one start/stop handshake.",
  [V+"thread/axis.py", V+"types/axi.py"],
  [("register FSM", V+"thread/axis.py:_set_register_full_fsm,_set_register_lite_fsm"), ("request arbitration", V+"types/axi.py:pull_request")],
  ["bus transactions and thread prints against a register model"])
p("C17", "AXI-Stream transfers deliver all words once and in order",
  "Words written to an AXI-Stream output by threads or DMA from a memory or FIFO arrive at the consumer in order, once each, with last marking the end, and words received by an AXI-Stream input are delivered to the thread, memory or FIFO likewise, for every size, width ratio and every valid/ready timing.",
  ["schedules", "inputs", "configurations"], "all sizes, width ratios and handshake timings",
  "Tests use fixed sizes and always-ready peers.",
  [V+"thread/axistreamin.py", V+"thread/axistreamout.py", V+"types/axi.py"],
  [("stream DMA FSMs", V+"thread/axistreamin.py, "+V+"thread/axistreamout.py")],
  ["accepted beats on the channel and destination memory contents"])
p("C18", "A stream kernel run produces the dataflow function of its sources",
  "For every dataflow graph of stream operators, every source and sink access pattern (linear, strided, multi-dimensional, multi-pattern, FIFO, constant), parameter value, size and sequence of runs, the sink receives exactly the graph's function applied to the source elements in pattern order, element by element, no other location is modified, and the run completes.",
  ["programs", "inputs", "histories"], "all dataflow graphs, patterns, sizes, parameters and run sequences",
  "Tests use about seventy fixed kernels with one data set.",
  [V+"thread/stream.py", V+"stream/stream.py", V+"stream/stypes.py", V+"stream/scheduler.py"],
  [("source/sink FSMs", V+"thread/stream.py:_synthesize_set_*"), ("run control", V+"thread/stream.py:_synthesize_run"), ("scheduling", V+"stream/scheduler.py")],
  ["RAM contents read back after each run, against a Python evaluation of the graph"])
p("C19", "Pipelined stream operators stay aligned and lose nothing under stalls",
  "For a dataflow graph implemented as a pipeline with valid/ready control, every accepted input produces exactly one output, in order, equal to the graph's function of that input, whatever mixture of operator latencies is joined in the graph and whatever pattern of invalid inputs and stalled outputs occurs. Without stalls each result appears after the pipeline's declared depth.",
  ["programs", "schedules", "inputs"], "all graphs over the operator set; all valid/ready histories; all operand values",
  "Tests use fixed small graphs without random stalls.",
  [V+"stream/stream.py", V+"stream/stypes.py", V+"stream/scheduler.py", V+"stream/mul.py", V+"stream/div.py", V+"stream/madd.py"],
  [("gap filling", V+"stream/scheduler.py:fill_gap,balance_output"), ("valid chain", V+"stream/stream.py:_make_valid_chain"), ("operators", V+"stream/stypes.py")],
  ["accepted input/output beats against a Python evaluation"])
p("C20", "Stream accumulators, counters and history operators keep exact state",
  "Reductions (sum, product, max, min, arg-max/min, custom), counters, pulses, previous-value, ring-buffer, scratchpad and predicate operators produce for every input sequence exactly the running value defined by their size, interval, initial value, step, offset, enable and reset arguments, restart as specified at every window boundary and every new run, and ignore stalled or invalid cycles. What the Valid output of a reduction with an interval reports is not specified.",
  ["histories", "inputs", "configurations"], "all input sequences, window sizes, enables and stall patterns",
  "Tests use one window size on a ramp.",
  [V+"stream/stypes.py", V+"stream/stream.py", V+"thread/stream.py"],
  [("accumulators", V+"stream/stypes.py:_Accumulator,Counter,Pulse"), ("history", V+"stream/stypes.py:_Prev,RingBuffer,Scratchpad,Predicate")],
  ["per-element outputs against a sequential Python model"])
p("C21", "Fixed-point values and operations have their exact arithmetic meaning",
  "For every bit width, binary-point position and signedness, a fixed-point constant holds the nearest representable value under the documented conversion, arithmetic, comparison, shift, casting and conversion to and from integers and reals compute the value defined by aligning binary points and truncating to the result format, and fixed-point memories, FIFOs and printed values agree with it.",
  ["inputs", "configurations"], "all formats and all operand values",
  "Tests use a few formats with a handful of positive values.",
  [V+"types/fixed.py", V+"thread/fixed.py", V+"thread/ram.py", V+"thread/fifo.py"],
  [("operators", V+"types/fixed.py:_FixedBinaryOperator"), ("conversions", V+"types/fixed.py:to_fixed,fixed_to_int,fixed_to_real,adjust")],
  ["values printed in simulation against exact rational arithmetic"])
p("C22", "Constant folding and parameter resolution never change a value",
  "Whenever the library evaluates or simplifies an expression itself - optimising constants, resolving parameters and local parameters, folding operators on literals - the result has, for every value of the remaining signals and every parameter override, the same value as the unsimplified expression would have in the emitted Verilog. Expressions it cannot simplify safely are left unchanged.",
  ["programs", "inputs"], "all constant and partially constant expressions and parameter assignments",
  "Tests resolve five fixed modules and compare text.",
  [V+"resolver/resolver.py", V+"optimizer/optimizer.py", V+"core/vtypes.py"],
  [("resolver", V+"resolver/resolver.py:_Resolver"), ("optimizer", V+"optimizer/optimizer.py:try_optimize"), ("operator folding", V+"core/vtypes.py:*.op")],
  ["simulation of the folded and unfolded expression side by side"])
p("C23", "Dataflow graphs with valid/ready handshakes behave as elastic pipelines",
  "A graph built with the dataflow layer delivers, for each output, exactly the sequence of values its function gives for the sequence of accepted inputs, in order, without loss or duplication, for every graph shape, operator mix and pattern of input valids and output readies; accumulators and previous-value nodes advance only on accepted data.",
  ["programs", "schedules", "inputs"], "all graphs, all handshake histories",
  "Tests apply one or two fixed stall patterns to fixed graphs.",
  [V+"dataflow/dataflow.py", V+"dataflow/dtypes.py", V+"dataflow/scheduler.py", V+"dataflow/visitor.py", V+"dataflow/mul.py", V+"dataflow/div.py"],
  [("handshake generation", V+"dataflow/dtypes.py:_implement"), ("scheduling", V+"dataflow/scheduler.py")],
  ["accepted beats at every input and output"])
p("C24", "Hand-built pipelines keep data, valid and ready in step",
  "Pipelines built stage by stage deliver the value sequence their stage expressions define for the sequence of accepted inputs, in order and without loss or duplication, under every valid/ready history, including joined branches of unequal depth, accumulators and previous-value references.",
  ["programs", "schedules", "inputs"], "all pipeline shapes and handshake histories",
  "Tests use fixed pipelines with one stall pattern.",
  [V+"pipeline/pipeline.py"],
  [("stage creation", V+"pipeline/pipeline.py:_make_prev,stage"), ("handshake", V+"pipeline/pipeline.py:_make_valid,_make_ready")],
  ["accepted beats at inputs and outputs"])
p("C25", "Arithmetic and buffering cores are exact under stalls",
  "The generated multipliers, multiply-adders and dividers return, after their declared latency of enabled cycles, the exact product, sum of product or truncated quotient/remainder for every operand pair, width and sign mode, and the skid buffer passes every accepted word once and in order while fully decoupling ready, under any enable or back-pressure pattern.",
  ["inputs", "schedules", "configurations"], "all operands, widths, depths and stall patterns",
  "Tests use small fixed operand sets.",
  [V+"types/mul.py", V+"types/skidbuffer.py", V+"stream/mul.py", V+"stream/madd.py", V+"stream/div.py", V+"dataflow/mul.py", V+"dataflow/div.py"],
  [("multiplier pipelines", V+"types/mul.py"), ("divider", V+"stream/div.py:mkDiv"), ("skid buffer", V+"types/skidbuffer.py")],
  ["core port traces against integer arithmetic / a queue"])
p("C26", "Simulation helpers drive the design as documented on every back end",
  "Simulating a design through the simulation API prints the same events with the built-in Icarus and Verilator back ends as the emitted Verilog run directly, with clocks of the requested period, reset of the requested polarity, duration and prior statements, and with the given macros, include directories and top module honoured. Simulator failures are reported, never silently turned into an empty result.",
  ["configurations", "programs"], "all clock/reset settings, back ends and simulation options",
  "Tests use one clock/reset setting per back end.",
  [V+"simulation/simulation.py"],
  [("clock/reset setup", V+"simulation/simulation.py:setup_clock,setup_reset"), ("runners", V+"simulation/simulation.py:run_iverilog,run_verilator")],
  ["edge times and printed output of the simulators"])
p("C27", "The IP-XACT package describes exactly the emitted design",
  "The packaged component lists every port of the top module once with its true direction and width (at the declared default parameter values), maps every bus-interface signal to the port that carries it with the right master/slave mode, clock and reset association and polarity, and ships HDL text that is the emitted design.",
  ["configurations", "programs"], "all combinations of bus interfaces, widths, clocks, resets and extra ports",
  "Tests only simulate the packaged design; the XML is never compared with the ports.",
  [V+"types/componentgen.py", V+"types/ipxact.py"],
  [("component generation", V+"types/componentgen.py:ComponentGen"), ("packaging", V+"types/ipxact.py")],
  ["the generated component.xml against ports parsed from the emitted Verilog"])
p("C28", "UART links transfer every byte unchanged",
  "For every baud divisor, byte sequence and inter-byte gap, bytes sent by the UART transmitter appear on the line as correct frames and the receiver delivers each frame on its line exactly once, unchanged and in order.",
  ["inputs", "schedules", "configurations"], "all byte sequences, divisors and gaps",
  "Tests echo one short sequence.",
  [V+"thread/uart.py"],
  [("transmitter", V+"thread/uart.py:UartTx"), ("receiver", V+"thread/uart.py:UartRx")],
  ["bit-level line monitor and received bytes"])
p("C29", "Simulation memory models behave as memories behind a legal AXI slave",
  "The AXI memory models return for every read burst exactly the bytes last written (honouring strobes) or the initial image, for every delay setting, bus and memory width and number of ports, image construction from arrays places every element where a word-indexed access finds it, and thread-side accesses see the same contents.",
  ["histories", "configurations", "inputs"], "all access sequences, image shapes/widths, delays and ports",
  "Tests use one image and the default delays.",
  [V+"types/axi.py"],
  [("memory model", V+"types/axi.py:AxiMemoryModel,AxiMultiportMemoryModel"), ("image", V+"types/axi.py:to_memory_image,set_memory,shape_to_length")],
  ["bus beats and thread reads against a byte-array model"])

# what a statement leaves unspecified (appended to it)
NOTES = {
 "C04": "Constructs the parser or the library has no representation for (for example casez, task calls, indexed part selects, arrays of instances) are refused or out of scope.",
 "C05": "Ports or constants of the same name copied from several modules are merged.",
 "C26": "Only Icarus and Verilator are decided (VCS and ModelSim are not installed); no clock edge coincides with a reset edge; Verilator counts whole clock cycles.",
 "C23": "Where an operator joins a source that has another consumer, the inputs are valid together and the outputs ready together, and either never pause or never stall if an operator takes several cycles (listed finding: the existing tests pin emitted text that breaks the other case); division covers positive operands below half range and signed operands except the lowest value, remainders positive divisors (listed findings). Fixed-point division and remainder, mixed-sign division, division by zero, reset combined with a size, and previous values of a parameter are unspecified.",
 "C24": "Values are unsigned, all previous-value references of a variable use one initial value, and an accumulator is reset only while no item is waiting in it.",
 "C27": "The package carries no user parameters. A bus built without ports is not an interface of the component.",
 "C06": "The name of the temporary memory-image file, which is random by design, is not part of the text compared.",
 "C09": "and/or/not and comparisons give 0 or 1; // and % of negative values by anything but a power of two are unspecified.",
 "C14": "Transfers are whole bus words or whole memory rows and have size at least one.",
 "C16": "Bus writes use full strobes; accesses of the same cycle may take effect in either order.",
 "C17": "Wide-stream FIFO transfers are multiples of the width ratio.",
 "C18": "Regions of different sources and sinks are disjoint, all sources of a run supply the same number of elements, only the bits of the sink width are specified, a conditional sink is given at most as many elements as its condition accepts, overlapped runs keep the memory each variable uses, and runs that never end are not covered.",
 "C19": "Division by zero, mixed-sign division and mixed-sign fixed-point arithmetic are unspecified.",
 "C20": "Combinations of reset with both a size and an enable or interval on one accumulator are unspecified.",
 "C28": "A bit lasts at least two clocks (four for frames without a gap), and a thread receives a byte only while it waits in recv.",
 "C29": "Bursts are aligned, incrementing and full width; overlapping accesses through different ports may take effect in either order.",
}
for x in P:
    if x["id"] in NOTES:
        x["statement"] += " " + NOTES[x["id"]]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
