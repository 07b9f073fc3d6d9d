"""Per-check configuration: run counts, what is real, what may be shrunk."""
CHECKS = {}


def add(cid, **kw):
    kw.setdefault("shrink", [])
    kw.setdefault("level", "exploration")
    CHECKS[cid] = kw


LIB = "peak (all modules exercised run unmodified from /repo), hwtypes, ast_tools, pysmt"

add("C03", technique='seeded histories and thread interleavings of assembling related types; oracle: the same observation alone in a forked fresh process',
    note='seeded sampling of types, histories and interleavings; the code and its dependencies run unmodified',
    runs=dict(quick=1500, thorough=30000), min_runs=400,
    rule="a run is non-trivial when observations touch at least two distinct instruction types in one history",
    real=["peak.assembler", "peak.assembler2", "peak.auto_assembler", "peak.bitfield", LIB],
    stub=["thread scheduler (seeded, one thread at a time)", "iteration order of unordered sets"],
    shrink=["ops", "threads", "types_"], cover_measure="(type kind, observation) pairs and schedule signatures")

add("C05", technique='instruction memory with storage faults (flips, torn, stale, overwritten words); all decoders cross-checked, valid set counted for small types',
    note='sampled types and fault sequences; for words up to 9 bits every word is examined in about a third of the runs',
    runs=dict(quick=1500, thorough=40000), min_runs=400,
    rule="a run is non-trivial when at least one stored word of non-zero width was damaged and decoded again",
    real=["peak.assembler", "peak.assembler2", "typed views over BitVector and SMT words", LIB],
    stub=["instruction memory and its faults (flip, torn, overwrite, stale, all-zero, all-one)"],
    shrink=["faults", "mems"], cover_measure="(type kind, fault kind, accepted/refused, width)")

add("C06", technique='seeded edit histories over live instruction words through four views against a reference model, with misuse injected',
    note='sampled types and histories',
    runs=dict(quick=2000, thorough=40000), min_runs=400,
    rule="a run is non-trivial when at least two live words were created and edited",
    real=["peak.assembler.AssembledADT", "peak.assembler2.AssembledADT", "both assemblers", LIB],
    stub=["the store of live words (reference model)"],
    shrink=["ops"], cover_measure="(operation, type kind)")

add("C04", technique='simulated processes with own set orders, definition orders and hash seeds exchange words over a lossy, reordering, duplicating network with restarts',
    note='orders of unordered sets are simulated through a seam in hwtypes; two real hash seeds per run in addition',
    runs=dict(quick=800, thorough=20000), min_runs=200, cross_hosts=2,
    rule="a run is non-trivial when the exchanged types contain at least one enum, sum or tagged union",
    real=["peak.assembler", "peak.assembler2", "peak.auto_assembler", "peak.bitfield", "typed views", LIB],
    stub=["network between simulated processes", "iteration order of unordered sets"],
    shrink=["msgs"], cover_measure="(top-level kind, number of parts, width)")

add("C01", technique='seeded thread interleavings (line or bytecode granularity) of requests to closures, register generators, assemblers and typed views; oracle: identity over the history and behaviour of the same request alone in a forked fresh process',
    note='seeded sampling of schedules; preemption only inside peak code (dependencies run atomically); hardware family not interleaved',
    runs=dict(quick=500, thorough=20000), min_runs=150,
    rule="a run is non-trivial when two threads were inside the same request at the same time",
    real=["peak.features.family_closure", "peak.family register generators", "peak.assembler*", LIB],
    stub=["thread scheduler (seeded, one thread at a time)", "locks created by the library"],
    shrink=["threads", "pre"], cover_measure="(request kind, family, closure) and schedule signatures")

add("C02", technique='seeded interruption of builds at any executed library line and failure of any file operation, damage of generated files between attempts; oracle: the same request in a forked process without faults',
    note='interrupts land on source lines of peak and of the design, not inside dependencies; hardware elaboration is not interrupted',
    runs=dict(quick=250, thorough=20000), min_runs=80,
    rule="a run is non-trivial when at least one build was cut short by an injected exception or failed file operation and then retried",
    real=["peak.features", "peak.family", "peak.assembler*", "peak.black_box", "peak.mapper", LIB],
    stub=["asynchronous exceptions at line granularity", "SMT solver (honest, seeded choice of models)", "file system operations on generated sources (ENOSPC, EACCES, EIO, torn writes, unreadable source, stale or foreign content)"],
    shrink=["steps"], cover_measure="(request kind, interrupted function and line) and (request kind, file fault)")

add("C07", technique='seeded histories of calls, peeks, assignments, refused and interrupted accesses over many instances, in interleaved threads; oracle: one stored word per instance and per assignment of free symbols',
    note='sampled histories and schedules; the hardware family is covered by C10',
    runs=dict(quick=2500, thorough=60000), min_runs=500,
    rule="a run is non-trivial when at least two instances existed together (one thread) or threads were preempted",
    real=["peak.family registers (value, attribute; Python, rewritten Python, symbolic)", "peak.peak attribute protocol", "peak.register", LIB],
    stub=["thread scheduler (seeded, one thread at a time)", "asynchronous interrupts"],
    shrink=["threads"], cover_measure="(operation, register kind, family, type kind)")

add("C08", technique='seeded access histories over several memories sharing an image, with refused, interrupted and out-of-range accesses and restarts, in interleaved threads; oracle: a list per memory',
    note='sampled histories; negative Python integers as addresses are not part of the property',
    runs=dict(quick=2500, thorough=60000), min_runs=500,
    rule="a run is non-trivial when it made more than three accesses (one thread) or the threads were preempted",
    real=["peak.memory", "peak.register.gen_register2", LIB],
    stub=["thread scheduler (seeded, one thread at a time)", "asynchronous interrupts"],
    shrink=["threads"], cover_measure="(operation, memory kind, cell kind, kind of refusal)")

add("C11", technique='seeded histories over hierarchies of black boxes (calls by position and shuffled keywords, refused and interrupted calls, replaced components), in interleaved threads; oracle: last supplied outputs and last accepted arguments per box, a tree of names per hierarchy',
    note='boxes of the symbolic family; boxes without inputs cannot be called at all and are not generated',
    runs=dict(quick=1500, thorough=40000), min_runs=300,
    rule="a run is non-trivial when at least two boxes were alive (one thread) or the threads were preempted",
    real=["peak.black_box", "peak.family.SMTFamily", LIB],
    stub=["thread scheduler (seeded, one thread at a time)", "asynchronous interrupts"],
    shrink=["threads"], cover_measure="(operation, kind of refusal or call style, inputs, outputs, named, outputs supplied)")

add("C18", technique='seeded histories of additions (duplicates, failing, interrupted, racing threads, several libraries); oracle: a dict per library and an integer interpreter of the functions given',
    note='generated functions and interfaces of bits, bit-vectors and enums; hardware family not elaborated',
    runs=dict(quick=2000, thorough=60000), min_runs=400,
    rule="a run is non-trivial when at least two instructions were successfully added and used",
    real=["peak.ir", "peak.features.family_closure", LIB],
    stub=["thread scheduler (seeded, one thread at a time)", "asynchronous interrupts"],
    shrink=["threads"], cover_measure="(operation, inputs, outputs, duplicate, reserved-looking names)")

add("C12", technique='simulated solver whose choice of models is seeded bit by bit and whose queries can fail; oracle: every returned rule evaluated for every input on an integer model of both designs and sampled on the real Python designs',
    note='generated designs of up to about 16 input bits; the solver decides honestly (z3 on quantifier-free queries)',
    runs=dict(quick=2000, thorough=40000), min_runs=300,
    rule="a run is non-trivial when the mapper returned at least one rule",
    real=["peak.mapper", "peak.assembler", "peak.black_box", LIB],
    stub=["SMT solver (honest, seeded choice of models, injected failures)"],
    shrink=["cfgs", "history"], cover_measure="(forms, formula style, index encoding) and (bound, constant, free inputs of a rule)")

add("C13", technique='simulated solver with seeded choice of models and injected failures (unknown, crash, memory, interrupt) at seeded queries, iteration limits, and retries; oracle: exhaustive search for a rule on an integer model of both designs',
    note='generated designs of up to about 16 input bits; the solver decides honestly (z3 on quantifier-free queries)',
    runs=dict(quick=2000, thorough=40000), min_runs=300,
    rule="a run is non-trivial when a rule exists, a solver failure was injected, or the iteration limit was reached",
    real=["peak.mapper", "peak.assembler", "peak.black_box", LIB],
    stub=["SMT solver (honest, seeded choice of models, injected failures)"],
    shrink=["solves", "history"], cover_measure="(attempt, formula style, solving mode, exists, answer, error, solver failure)")

add("C14", technique='seeded sequences of right, damaged, random and malformed rewrite rules verified under a simulated solver with injected failures; oracle: the rule evaluated for every input on an integer model of both designs',
    note='generated designs of up to about 16 input bits; the solver decides honestly (z3 on quantifier-free queries)',
    runs=dict(quick=2000, thorough=40000), min_runs=300,
    rule="a run is non-trivial when at least one wrong rule was verified",
    real=["peak.mapper", "peak.assembler", "peak.black_box", LIB],
    stub=["SMT solver (honest, seeded choice of models, injected failures)"],
    shrink=["ops", "history"], cover_measure="(kind of rule, right, sum decisions, free inputs, black boxes) and (kind of malformation, error)")

add("C16", technique='seeded problems under seeded path constraints (constant and run-time inputs, several mappers at once, ill-formed constraints), solved repeatedly by a simulated solver with seeded models and injected failures; oracle: exhaustive search for rules under the restriction on an integer model of both designs',
    note='generated designs of up to about 16 input bits; the solver decides honestly (z3 on quantifier-free queries)',
    runs=dict(quick=1500, thorough=40000), min_runs=300,
    rule="a run is non-trivial when a mapper with at least one constraint answered",
    real=["peak.mapper", "peak.assembler", "peak.black_box", LIB],
    stub=["SMT solver (honest, seeded choice of models, injected failures)"],
    shrink=["ops", "ms", "history"], cover_measure="(constraints, formula style, constant or run-time, values allowed, exists, answer) and (ill-formed constraint, error)")

add("C15", technique='rules written as text by a simulated process that may crash mid-write, text damaged by torn, lost, mixed and flipped data and by edits, read back by a fresh simulated process; oracle: the rule as written, an independent reading of the text, and the rule evaluated for every input on an integer model of both designs',
    note='stored as JSON; rules with paths through sums (which name types of their process) are only read back in the process that wrote them',
    runs=dict(quick=1500, thorough=40000), min_runs=300,
    rule="a run is non-trivial when at least one rule was stored and read in another process",
    real=["peak.mapper (serialisation, verification)", "peak.assembler", LIB],
    stub=["process (forked, with its own history)", "storage medium (seeded damage)", "SMT solver (honest, seeded choice of models, injected failures)"],
    shrink=["files"], cover_measure="(outcome, kinds of damage)")

add("C17", technique='simulated solver with seeded choice of models and injected failures (unknown, crash, memory, interrupt), iteration limits and retries; oracle: exhaustive search over wirings and instruction sequences on an integer model of both designs',
    note='one constant input per architecture, sequences of up to three instructions, up to 400 wirings; solves needing very many solver calls are abandoned undecided',
    runs=dict(quick=800, thorough=20000), min_runs=200,
    rule="a run is non-trivial when a solution was found, shown not to exist, or a solver failure was injected",
    real=["peak.mapper.multi", "peak.mapper", "peak.assembler", "peak.black_box", LIB],
    stub=["SMT solver (honest, seeded choice of models, injected failures)"],
    shrink=["solves"], cover_measure="(length, index encoding, concrete search, wirings, exists, error, answer, black boxes)")

add("C09", technique='generated sequential programs in lockstep (plain Python, rewritten, symbolic with constants, with free inputs, and mixed) over seeded histories of steps on interleaved instances, restarts and interrupted steps; oracle: an independent integer interpreter of the program',
    note='generated designs; conditions that are plain Python booleans (enum comparison, match) are used as conditions only, calls are not made under conditions, as the language requires',
    runs=dict(quick=320, thorough=8000), min_runs=80,
    rule="a run is non-trivial when a stateful or later step was compared",
    real=["peak.family", "peak.features", "peak.peak", "peak.assembler", "ast_tools rewriting", LIB],
    stub=["asynchronous interrupts", "instance crash and restart"],
    shrink=["ops"], cover_measure="(state kinds, nesting, returns, instruction types of a component)")

add("C10", technique='event-driven simulation of the elaborated netlist (seeded gate delays) under seeded clocks, asynchronous resets at any instant, input glitches, clock stalls and power loss; oracle: an independent integer interpreter of the program',
    note='netlists come from magma and coreir, one clock domain without skew; reset release and clock edge never coincide; sampled designs and event sequences',
    runs=dict(quick=240, thorough=8000), min_runs=80,
    rule="a run is non-trivial when the elaborated design has registers",
    real=["peak.family.MagmaFamily", "peak.assembler.AssembledADT (hardware views)", "peak.features", "magma, coreir (elaboration)", LIB],
    stub=["circuit, clock, reset and power supply (event-driven netlist simulator)"],
    shrink=["ops"], cover_measure="(state kinds, nesting, returns, instruction kinds) of the components")
