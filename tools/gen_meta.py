#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "blueqat/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration"):
    assert len(title) <= 80, title
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               mechanism=[dict(name=n, where=B + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)),
        technique=technique, note=note, level=level))


prop("C01", "Statevector equals the product of the textbook gate matrices",
     "For every circuit built from the documented unitary gates and their aliases, running it on the default (NumPy) "
     "simulator returns a normalised complex vector of length 2**n equal to the product of the gates' textbook "
     "unitaries, in program order, applied to |0...0>, where qubit k is bit k of the basis-state index. "
     "Rotation and U gates use the SU(2) (determinant one) convention, phase/t/s the diag(1, e^it) convention, and cu1 "
     "is a controlled phase up to a global phase; the angle may be any real number, negative or far beyond 2*pi.",
     ["programs", "inputs"], "all gate sequences, qubit counts, target choices and real parameters",
     "Tests check single gates on one or two qubits at a few angles; gate kernels mix buffers, masks and fallbacks, so "
     "an error can need a particular qubit order, earlier buffer contents or parameter range.",
     ["backends/numpy_backend.py", "gate.py", "circuit.py"],
     [("NumPy gate kernels with swapped buffers", "backends/numpy_backend.py"), ("gate fallback decompositions", "gate.py")],
     ["Circuit.run()"], "online differential monitor against an independent dense reference simulator",
     "Random and per-gate exhaustive-target programs up to 10 qubits; the reference matrices are trusted.")

prop("C02", "Index expressions select the qubits they denote; bad ones are rejected",
     "An integer, negative integer, slice or tuple of these used to apply a gate selects exactly the qubits that the "
     "same expression selects from range(n) for the circuit's final qubit count n, in that order and with "
     "repetitions, and two-qubit gates pair the i-th control with the i-th target. The register grows to include every "
     "index that is named explicitly (an integer, a slice start, a slice stop as exclusive bound) and never otherwise "
     "changes. Control/target selections of unequal length, a control equal to its target, a selection that is not a "
     "pair for a two-qubit gate, and negative integers below -n never produce a result: they raise an error.",
     ["programs", "inputs"], "all index expressions, register sizes and later growth of the register",
     "Tests list a few slices; the space of start/stop/step/negative/tuple combinations, resolved late against a "
     "register that may have grown, is not sampled.",
     ["gate.py", "circuit.py"], [("slicing / qubit_pairs", "gate.py"), ("get_maximum_index", "gate.py")],
     ["Circuit.run()", "Circuit.n_qubits"], "online differential monitor: reference index resolution + recorded gate targets",
     "Selections compared through the final state, through a recording backend and through measured registers.")

prop("C03", "A run's result depends only on the circuit, never on earlier runs",
     "Whatever was done before with a circuit, its copies or the backend object it runs on (runs with any shots or "
     "return form, make_cache, appending gates, growing the register, concatenation, conjugation, a run that failed "
     "half-way), the next run returns what a freshly built circuit with the same gates and qubit count returns. "
     "This includes one backend instance given explicitly to several circuits in turn.",
     ["histories", "fault_sequences", "programs"], "all interleavings of build, run, copy, share and failure operations",
     "Tests run a circuit once or twice; the state-vector cache couples every later result to the history and only "
     "specific histories expose a stale or misaligned cache.",
     ["backends/numpy_backend.py", "circuit.py", "backends/backendbase.py"],
     [("prefix cache with validation", "backends/numpy_backend.py"), ("backend copies", "circuit.py")],
     ["Circuit.run()", "Circuit.make_cache()"], "history + executable model monitor with fault injection",
     "Random operation histories over a pool of circuits and shared backends, judged against a stateless reference.")

prop("C04", "Copies, sums, conjugates and returned results share no mutable state",
     "copy() (or a deep copy), a + b and dagger() return circuits that are independent of their operands: later changes to one never "
     "change the gates, qubit count, default backend or results of another, and a + b leaves both operands as they "
     "were while a += b changes only a; a + b means a's gates followed by b's on a register of the larger size. "
     "Backend instances are not shared either: copy() and + carry over a copy of the backends a circuit has used "
     "(unless copy_backends=False), and dagger() starts with none unless asked for. "
     "Arrays, counters and strings returned by a run belong to the caller: modifying them never changes a later result, and later runs never change them.",
     ["histories", "programs"], "all sequences of building, copying, concatenating, running and mutating returned values",
     "Tests check one copy or one sum; aliasing shows only when a particular later mutation follows a particular copy.",
     ["circuit.py", "backends/numpy_backend.py"], [("Circuit.copy / __add__ / __iadd__ / dagger", "circuit.py")],
     ["Circuit.ops", "Circuit.n_qubits", "Circuit.run()"], "history + executable model monitor (structural and by result)",
     "After every step every circuit in the pool is compared with its model.")

prop("C05", "A circuit followed by its dagger is the identity",
     "For every circuit of unitary gates, dagger() returns a circuit on the same register whose unitary is the exact "
     "inverse, so that c + c.dagger() and c.dagger() + c map every basis state to itself, and dagger twice gives back "
     "the circuit's action. "
     "If the circuit contains measurement or reset, dagger() raises ValueError, and with ignore_measurement=True it is the inverse of "
     "the circuit without those operations; gates that a user has registered are conjugated by their own dagger (one that has none is refused), and dagger() never changes the original circuit.",
     ["programs", "inputs"], "all unitary circuits, parameters and input basis states",
     "Tests conjugate each gate once on one target; order, multi-parameter gates and fallbacks interact.",
     ["circuit.py", "gate.py", "experimental/operations.py"], [("Gate.dagger per class", "gate.py"), ("Circuit.dagger", "circuit.py")],
     ["Circuit.dagger()", "Circuit.run()"], "metamorphic runtime monitor (inverse law) plus reference inverse",
     "Known finding: two-qubit gates over several overlapping pairs; excluded by an exact model of that defect only.")

prop("C06", "Measurement follows the Born rule, collapses the state and records its bit",
     "Measuring a qubit yields 0 or 1 with the Born probabilities of the current state, projects and renormalises the "
     "state accordingly, and a repeated measurement gives the same value. "
     "With shots, the counts are over strings with one character per qubit, character k being the last measured value of "
     "qubit k in that shot ('0' if it was never measured), they sum to the number of shots, and outcomes of zero "
     "probability never occur. "
     "In statevector_and_shots the returned vector is the post-measurement state of one shot whose outcome is in the counter.",
     ["programs", "inputs", "schedules"], "all circuits with measurements anywhere, all outcome sequences",
     "Randomness: tests use deterministic or large-sample cases; joint distributions after mid-circuit measurement and "
     "wrong collapse of entangled partners are not examined.",
     ["backends/numpy_backend.py"], [("gate_measure, store_shot", "backends/numpy_backend.py")],
     ["Circuit.run(shots=...)", "Circuit.run(returns='statevector_and_shots')"],
     "exact branch-enumeration oracle with support check and statistical monitor (p < 1e-9)",
     "Support and post-states exact; frequencies tested with thresholds that make false alarms negligible.")

prop("C07", "Reset puts the qubit in |0> and treats the rest as unread measurement",
     "Resetting a qubit leaves it in |0>, whatever its state, and leaves the other qubits in one of the two states (with the right "
     "probability) that a discarded measurement of the qubit would leave; unentangled partners are not disturbed. "
     "Reset does not change recorded measurement values, may be repeated, and a later gate on the qubit acts on |0>.",
     ["programs", "inputs", "schedules"], "all circuits with reset and measurement interleaved",
     "Tests reset basis states; entangled, repeated or post-measurement resets and the record are not covered.",
     ["backends/numpy_backend.py"], [("gate_reset", "backends/numpy_backend.py")],
     ["Circuit.run()"], "exact branch-enumeration oracle with support check and statistical monitor",
     "As C06, on reset-heavy programs.")

prop("C08", "Run options select the result form and nothing else",
     "With no options a run returns the state vector; giving shots alone returns a counter of that many shots; returns selects "
     "statevector, shots or statevector_and_shots (1024 shots when shots is not given), positionally or by keyword, and any "
     "other value raises ValueError. "
     "ignore_global multiplies the state by a unit phase that makes the first non-negligible amplitude real and positive "
     "and changes nothing else, neither now nor in later runs.",
     ["inputs", "programs", "histories"], "all combinations of options and circuits",
     "Tests exercise a handful of option combinations on fixed circuits.",
     ["backends/numpy_backend.py", "utils.py", "circuit.py"], [("run argument parsing", "backends/numpy_backend.py"), ("ignore_global_phase", "utils.py")],
     ["Circuit.run()"], "runtime contract monitor on every option combination",
     "All option combinations on random circuits, also across successive runs of the same circuit.")

prop("C09", "A rejected operation leaves the circuit exactly as it was",
     "If applying a gate, running, concatenating or changing a setting raises an error because of its arguments (unknown gate or "
     "backend, non-integer index, wrong number of parameters, unknown return form, non-circuit operand), the circuit's gates, "
     "qubit count, default backend and later results are exactly what they were before the attempt.",
     ["fault_sequences", "histories", "inputs"], "all rejected operations at any point of a circuit's life",
     "Tests only assert that an error is raised, not what the object looks like afterwards.",
     ["circuit.py", "gate.py", "backends/numpy_backend.py"], [("gate application order", "circuit.py")],
     ["Circuit.ops", "Circuit.n_qubits", "Circuit.run()"], "fault injection with before/after state monitor",
     "Rejected operations injected at random points of histories.", level="fault_enumeration")

prop("C10", "The printed form of a circuit or operator evaluates to an equal one",
     "For every circuit (also without gates), evaluating the text printed for it gives a circuit with the same qubit count, gates, targets and "
     "parameters, hence the same result; the same holds for experimental operation lists. "
     "For every Pauli operator, term and expression, evaluating its printed form gives an equal operator.",
     ["programs", "inputs"], "all circuits, index expressions, parameters and Pauli expressions",
     "Only a few fixed strings are compared.",
     ["circuit.py", "gate.py", "pauli.py", "experimental/operations.py"], [("__repr__", "circuit.py"), ("Gate.__str__", "gate.py")],
     ["repr()"], "round-trip runtime monitor", "Random circuits and operators with unusual parameters and slices.")

prop("C11", "Independent objects may be used from several threads at once",
     "Circuits, copies of one circuit, Pauli objects, ansaetze and QUBO problems that different threads own do not influence each other: building, running, exporting or evaluating "
     "them gives in every interleaving what each computation gives alone.",
     ["schedules", "programs"], "all interleavings of two to four threads working on separate objects",
     "No test uses threads; shared scratch memory or module-level state is invisible until another thread runs in between.",
     ["circuit.py", "backends/numpy_backend.py", "pauli.py", "vqe.py", "wq.py"], [("per-run contexts", "backends/numpy_backend.py"), ("per-circuit backends", "circuit.py")],
     ["return values in each thread"], "deterministic thread scheduler (seeded switches at line boundaries) and preemption stress, each result compared with the sequential one",
     "Interleavings at line granularity of blueqat's code and at the interpreter's preemption points, 2-4 threads.")

prop("C12", "Seeded simulations repeat, and only sampling uses the generators",
     "With Python's and NumPy's global random generators seeded equally, every operation that samples (shots, reset, samplers, Vqe.run with its default start, annealers, random builders, training) "
     "gives the same result again, whatever was done in between. Operations that do not sample (state-vector runs of unitary circuits, exports, expectation values, Pauli algebra, QUBO builders) leave the generators as they are.",
     ["histories", "inputs"], "all seeds, sampling operations and histories",
     "Tests never fix a seed.",
     ["backends/numpy_backend.py", "vqe.py", "wq.py"], [("random.random in measurement and reset", "backends/numpy_backend.py"), ("np.random in samplers and annealers", "vqe.py")],
     ["return values", "generator states"], "re-execution monitor: equal seeds, equal results; generator states compared around operations that do not sample",
     "The Qiskit bridge is left out (it has its own seed option).")

prop("C13", "An interrupted call leaves objects as before or after it",
     "If an interrupt (a KeyboardInterrupt, delivered at any point where Python may deliver one) ends a call, it reaches the caller and every object stays whole: a circuit has the gates and default backend from before or after the call "
     "(for macros and time evolutions, some first part of the gates they add) and a register that holds them, the registries, QUBOs and layer sizes are those from before or after, and operators, ansaetze and other inputs are unchanged. "
     "Whatever is run, converted, sampled or optimised next gives what freshly built objects would give, so nothing half-computed is kept, and the interrupted call can be repeated.",
     ["crash_points", "histories", "programs"], "all calls and all points of a call at which the interpreter delivers interrupts",
     "No test interrupts a call; interrupting a long simulation and going on is everyday use in notebooks.",
     ["circuit.py", "backends/numpy_backend.py", "backends/_numba_backend_impl.py", "vqe.py", "wq.py"], [("caches of the simulators", "backends/numpy_backend.py"), ("appending to a circuit", "circuit.py"), ("Opt.run, Opt.add, Vqe.run", "wq.py")],
     ["state and results after the interrupt"], "fault injection at every interrupt point (sys.monitoring), before/after and fresh-object oracles",
     "Points are function starts, call returns and loop jumps of Blueqat's own code (a call into a library counts as one); up to 30 points per call, all of them when there are fewer.")

prop("B01", "A custom backend sees every gate once, in order, decomposed correctly",
     "A backend that implements only some gate actions receives, in program order, each gate it implements with the original targets "
     "and parameters, and for the others the gates of a decomposition whose product is the original gate up to global phase "
     "(and up to the documented global-phase replacement of phase gates); pre- and post-processing run exactly once around them, the gates pre-processing returns are the ones run, and each action is handed the context the previous one returned. "
     "A gate with no action and no decomposition raises an error instead of being skipped, and an error raised inside an action (also an AttributeError) reaches the caller.",
     ["programs", "configurations"], "all sets of implemented actions (that suffice for the gates used) and all circuits",
     "The bundled backends implement most gates natively, so most decompositions are never executed by tests.",
     ["backends/backendbase.py", "gate.py"], [("_run_gates / fallback", "backends/backendbase.py"), ("Gate.fallback", "gate.py")],
     ["a user-defined backend's action calls"], "trace monitor in a generated backend, plus reference semantics of the trace",
     "Random subsets of actions; the trace is compared in order and its product with the reference unitary.")

prop("B02", "The symbolic unitary equals the circuit's unitary",
     "For every unitary circuit with numeric parameters, to_unitary() evaluates to the circuit's textbook unitary (qubit k as bit k), up to the replacement of an angle by a simple multiple of pi within 1e-7; "
     "with symbolic parameters, substituting numbers afterwards gives the same as substituting before. "
     "ignore_global changes it only by a global phase, and measurement and reset are ignored with a warning.",
     ["programs", "inputs"], "all unitary circuits, numeric and symbolic parameters",
     "Tests compare a few symbolic matrices of one or two gates.",
     ["backends/sympy_backend.py", "circuit.py"], [("SYMPY_GATE matrices and tensor products", "backends/sympy_backend.py")],
     ["Circuit.to_unitary()"], "differential monitor against the reference unitary, numeric and symbolic",
     "Up to 4 qubits; equality at numeric precision 1e-6.")

prop("B03", "Exported OpenQASM denotes the same circuit",
     "For every circuit of gates that OpenQASM 2.0's standard library has, to_qasm() is a well-formed program "
     "declaring n qubits and n bits whose gates, read with the original OpenQASM paper's definitions, implement the circuit's unitary up "
     "to global phase, with every measurement and reset in its place, measuring qubit k into bit k. "
     "Without prologue the text is the same minus its header.",
     ["programs", "inputs"], "all exportable circuits, slices and parameters",
     "Tests compare fixed strings for single gates.",
     ["backends/qasm_output_backend.py", "gate.py"], [("gate_* text emitters", "backends/qasm_output_backend.py")],
     ["Circuit.to_qasm()"], "differential monitor: independent OpenQASM interpreter vs reference simulator, cross-checked with Qiskit",
     "Own parser of the emitted subset; cu2 (not in qelib1; its text is fixed by an existing test) is read as a controlled u2.")

prop("B04", "The Qiskit bridge runs the same circuit and reads bits in Blueqat order",
     "For every circuit that measures a qubit, running on the ibmq backend executes on the given (or default) Qiskit backend a circuit with the same unitary up to global phase, and returns counts "
     "whose keys list qubit 0 first, sum to shots (default 1024) and contain no outcome of zero probability; 'qiskit_circuit', 'qiskit_job', "
     "'qiskit_result', 'draw' and extra options reach Qiskit unchanged, other return forms raise ValueError, and when Qiskit cannot be imported the error is raised, or returned for returns='_exception'. "
     "A backend generated from a text-consuming function calls it exactly once per run with the circuit's OpenQASM and the caller's options.",
     ["programs", "configurations"], "all circuits and option combinations",
     "Tests cover a few option strings with a mocked backend.",
     ["backends/ibmq_backend.py", "backends/qasm_parser_backend_generator.py"], [("_qasm_runner_qiskit", "backends/ibmq_backend.py")],
     ["Circuit.run(backend='ibmq')"], "differential monitor through Qiskit Aer plus recorded-call monitor",
     "Aer executes the circuits; unitaries compared up to global phase.")

prop("B05", "The Numba kernels compute the same states, for every loop order",
     "For every circuit, the Numba backend returns the same state vector and the same kinds of results as the default simulator, also across successive runs, with or without cache and "
     "for complex64 and complex128. "
     "Its parallel loops give the same result for every order and interleaving of their iterations: no iteration reads or writes an element that another one writes.",
     ["programs", "schedules", "histories"], "all circuits, all iteration orders of every parallel loop",
     "Numba is not installed here, so no test executes these kernels; parallel races depend on the schedule.",
     ["backends/_numba_backend_impl.py", "backends/numba_backend.py"], [("prange kernels", "backends/_numba_backend_impl.py")],
     ["Circuit.run(backend='numba')"], "interpretation under a stand-in numba module with shuffled prange and a per-iteration race detector",
     "Executes the kernels as Python with integer semantics of the declared types approximated; compiled code is not observed.")

prop("B06", "The registries of gates, macros and backends behave like guarded maps",
     "Registering a gate, macro or backend makes it usable under its name on every circuit, old and new, until it is unregistered; a name that is already taken by a circuit attribute, gate, macro or "
     "backend, or (for gates and macros) that starts with run_with_, is refused with ValueError unless overwriting is allowed, and unregistering an unknown name raises ValueError; a refused call changes nothing. "
     "(A circuit that has already run on a backend may keep its instance of it after the name is overwritten.) "
     "The default backend is the circuit's own setting if it has one (None removes it), else the global one, and unknown names are refused.",
     ["histories", "configurations"], "all sequences of registry and default-backend operations",
     "Tests register and unregister single names; interactions between registries and existing circuits are not sequenced.",
     ["circuit.py"], [("GATE_SET, GLOBAL_MACROS, BACKENDS", "circuit.py")],
     ["BlueqatGlobalSetting", "Circuit attributes"], "history + executable model monitor",
     "Random registry histories against a dictionary model; the registry is restored after each case.")

prop("B07", "Circuits handed to Qgate are translated gate for gate",
     "Running on the qgate backend hands the external simulator, in order, one operation per gate and target of every gate that has a Qgate counterpart, with the right "
     "kind, parameters, controls, adjoint flag and qubit, and turns its histogram into strings with qubit 0 first that sum to the shots.",
     ["programs"], "all circuits of gates with a Qgate counterpart", "Qgate is not installed, so no test runs this translation.",
     ["backends/qgate_backend.py"], [("convert_operators, sample", "backends/qgate_backend.py")],
     ["calls received by the external simulator"], "trace monitor in a stand-in qgate module that simulates what it receives",
     "The stand-in follows only the calls the backend makes; the real library is not observed.")

prop("A01", "Pauli arithmetic is a homomorphism into matrices",
     "For all Pauli operators, terms, expressions and numbers (Python or NumPy, on either side), the matrix of a sum, difference, negation, "
     "product, quotient by a number or non-negative integer power is the corresponding combination of the operands' matrices, whatever mixture of the "
     "three types is combined. Operands are never modified, division by zero raises ZeroDivisionError and a negative power ValueError, and any other operand is refused with TypeError unless it brings its own operator.",
     ["inputs", "programs"], "all expression trees over operators, terms, expressions and numbers",
     "Tests compare symbolic results on small fixed expressions; sign/phase or like-term errors need specific combinations.",
     ["pauli.py"], [("operator overloads of Pauli, Term, Expr", "pauli.py")], ["the result's matrix (by an independent evaluator)"],
     "online differential monitor: every operation of random expression trees against dense matrices",
     "Powers are of terms and expressions. Result operators are read through their terms by an independent evaluator, not by to_matrix.")

prop("A02", "simplify() is canonical and equality means equal operators",
     "simplify() never changes the operator it denotes, is idempotent, and gives the same terms for expressions that denote the same operator (each product of distinct qubits once, sorted by qubit, no zero coefficient); "
     "== is reflexive, symmetric across operators, terms and expressions, true exactly when both sides denote the same operator (coefficients compared exactly), and != is its negation.",
     ["inputs"], "all terms and expressions, equal or nearly equal",
     "Tests check a few equalities; canonicity and symmetry quantify over pairs of representations.",
     ["pauli.py"], [("Term.simplify, Expr.simplify, __eq__", "pauli.py")], ["==, simplify()"],
     "metamorphic runtime monitor with independent canonical form",
     "Dyadic coefficients make exact comparison meaningful.")

prop("A03", "Matrix conversion is the Kronecker product, in every storage format",
     "to_matrix() of an operator, term or expression is the sum of coefficient times Kronecker products with qubit k as bit k of the index, identical for the dense form and for all seven "
     "sparse formats, each of the requested type; a larger n_qubits pads with identities and an unknown format raises ValueError. "
     "This holds for unsimplified, zero and constant expressions too.",
     ["inputs", "configurations"], "all operators, register sizes and formats",
     "Tests compare a few expressions; index construction groups terms by their X/Y pattern and differs per format.",
     ["pauli.py"], [("_term_to_dataarray, _kron_1d_rec, Expr.to_matrix", "pauli.py")], ["to_matrix()"],
     "online differential monitor against explicit Kronecker products", "Up to 7 qubits, 12 terms, all formats.")

prop("A04", "Commutator and commutability agree with the matrices",
     "commutator(a, b) denotes ab - ba; is_commutable(a, b) is true when it vanishes and false when its squared coefficients exceed the tolerance, symmetrically, for every mixture of "
     "operators, terms and expressions; is_all_terms_commutable() is true exactly when every pair of terms commutes.",
     ["inputs"], "all pairs of operators", "Tests check a few hand-picked pairs.",
     ["pauli.py"], [("commutator, is_commutable", "pauli.py")], ["commutator()", "is_commutable()"],
     "online differential monitor against dense matrices", "Exhaustive over short terms, random over expressions.")

prop("A05", "Time evolution and gate export of a term implement its operator",
     "The time evolution of a term with real coefficient c and Pauli product P appends to a circuit gates that implement exp(+i*c*t*P) up to global phase for every t, with one sign "
     "convention for all products; it acts only on the term's qubits, and a non-real coefficient raises ValueError. "
     "Appending a term to a circuit as gates implements its Pauli product (up to the coefficient and phase).",
     ["inputs", "programs"], "all terms, times and circuits they are appended to",
     "Tests look at one or two terms; sign and qubit-order errors need mixed products.",
     ["pauli.py"], [("Term.get_time_evolution, append_to_circuit", "pauli.py")], ["the circuit's unitary"],
     "online differential monitor against the matrix exponential", "Up to 5 qubits, relative to a random entangled prefix.")

prop("A06", "Pauli objects are values: parsing, hashing, pickling, properties",
     "Pauli operators, terms and expressions are immutable values: pickling or copying gives an equal object, equal operators have equal hashes, and n_qubits, max_n, coefficient and iteration describe the terms they "
     "hold. term_from_chars reads a string with qubit 0 rightmost and Term.from_chars with qubit 0 leftmost, ignoring I and accepting exactly the letters I, X, Y, Z in either case; "
     "the other constructors (from_pauli, from_paulipair, from_number, from_term, zero) make the operator their arguments say.",
     ["inputs"], "all operators and strings", "Tests check a few strings.",
     ["pauli.py"], [("from_chars, __hash__, __getnewargs__", "pauli.py")], ["value comparison"],
     "round-trip and contract monitors", "Random objects and strings including invalid ones; terms and expressions need not be hashable.")

prop("V01", "The variational energy is the expectation value of the Hamiltonian",
     "For every Hermitian Hamiltonian and circuit, the energy computed with the sparse matrix, and with the exact state-vector sampler, equals <psi|H|psi>, whatever the form of the Hamiltonian "
     "(products on one qubit, constants, odd numbers of Y) and also when the circuit has more or fewer qubits than the Hamiltonian (with fewer, for circuits whose index expressions do not depend on the register's size). "
     "With a shot-based sampler it is an unbiased estimate of it, exact for eigenstates of every term.",
     ["inputs", "programs"], "all Hamiltonians, circuits and samplers",
     "Tests evaluate a few Hamiltonians; measurement bases and bit order matter only for particular states.",
     ["vqe.py", "pauli.py"], [("AnsatzBase.get_energy, get_energy_sparse", "vqe.py")], ["energy values"],
     "online differential monitor against dense expectation values, statistical for sampled ones", "Up to 5 qubits; sampling judged with 1e-9 thresholds.")

prop("V02", "Samplers return the marginal distribution in the order asked for",
     "For a circuit and a sequence of qubits, expect() and the exact sampler return a mapping from bit tuples, in the order of that sequence, to the exact marginal probabilities, containing every outcome of non-zero "
     "probability; the sampling ones return frequencies of the same distribution that sum to 1 and never contain impossible outcomes. "
     "(Qubits beyond the circuit's register read 0 if its index expressions do not depend on the register's size.) "
     "No sampler changes the circuit it is given, and unmeasured qubits, other measurements and the empty sequence are handled.",
     ["inputs", "programs"], "all circuits, qubit sequences and samplers (Qiskit's included)",
     "Tests use symmetric states, for which the order of bits does not matter.",
     ["vqe.py"], [("expect and the samplers", "vqe.py")], ["the returned mapping", "the circuit afterwards"],
     "online differential monitor with exact marginals and support check", "Aer is used for the Qiskit sampler.")

prop("V03", "The QAOA ansatz is the alternating product of its evolutions",
     "For every Hamiltonian of commuting terms, step count and parameters, the QAOA circuit is the initial circuit (by default Hadamards on all qubits) followed per step by the evolution under the Hamiltonian "
     "with the gamma of that step and the mixer (X rotations on every qubit, or the given mixer terms in order) with its beta, betas first in the parameter vector, scaled by 2*pi and pi. "
     "Building it never changes the initial circuit or parameters, and non-commuting Hamiltonians, or a mixer without initial circuit, raise ValueError.",
     ["inputs", "programs"], "all commuting Hamiltonians, steps, parameters, initial circuits and mixers",
     "Tests run whole optimisations and look at the most likely answer, which tolerates many wrong circuits.",
     ["vqe.py", "pauli.py"], [("QaoaAnsatz.get_circuit", "vqe.py")], ["the ansatz circuit's state"],
     "online differential monitor against matrix exponentials", "Global phase ignored.")

prop("V04", "Vqe.run optimises the energy and reports what it found",
     "Vqe.run gives the minimizer an objective whose value at every point is the ansatz energy there, and the number of parameters; the result holds exactly the parameters the minimizer returned and "
     "the circuit for them, its probabilities are that circuit's outcome distribution over all qubits, and most_common(n) lists the n most likely in descending order. "
     "Probabilities are cached unless asked to be recomputed or not stored, and asking never changes the result's circuit. The deprecated Vqe.result is the last result.",
     ["histories", "inputs"], "all ansatz, minimizers, samplers and query sequences",
     "Tests use one optimiser and check the top answer.",
     ["vqe.py"], [("Vqe.run, VqeResult", "vqe.py")], ["objective calls, VqeResult"],
     "trace monitor in scripted minimizers and samplers", "Minimizers are scripted; convergence quality is not judged.")

prop("W01", "QUBO, Ising and Pauli forms have the same energy for every assignment",
     "For every QUBO matrix (any real entries in both triangles) and every bit assignment, the energy sum_ij Q_ij q_i q_j equals the energy of the Pauli form at the "
     "corresponding basis state and the energy of the annealer's Ising form plus its offset.",
     ["inputs"], "all QUBO matrices and all 2**n assignments", "No test covers this module.",
     ["wq.py", "pauli.py"], [("pauli, Opt.qi, Ei", "wq.py"), ("qubo_bit", "pauli.py")], ["energies"],
     "exhaustive assignment monitor against the direct QUBO energy", "All assignments for up to 7 bits.")

prop("W02", "Simulated annealing reports true energies and reaches local minima",
     "Every answer of the simulated annealer is a list of n bits per shot whose reported final energy is exactly the QUBO energy of those bits; with the default schedule the answer is, up to thermal moves at the final "
     "temperature, a local minimum under single-bit flips, and small problems with a clear gap are solved to the optimum in most shots. "
     "Every listed energy is the energy of an assignment, and at a fixed temperature (the last one above the target) the answers follow the Boltzmann distribution. "
     "A QUBO changed after a run, or an Ising form given in its place, is solved as it is then; one shot gives one bit list and one energy list, several shots give one of each per shot, and the QUBO is left unchanged.",
     ["inputs", "schedules", "configurations"], "all QUBO matrices, shots, samplers and annealing parameters",
     "No test covers the annealer.", ["wq.py"], [("Opt.run", "wq.py")], ["answers and Opt.E"],
     "runtime energy monitor plus statistical optimality check", "Optimality is only judged on problems with a gap far above the final temperature.")

prop("W03", "Quantum annealing paths submit and decode the same Ising problem",
     "For a QUBO or an Ising form, the path-integral annealer returns one configuration of +1/-1 spins per Trotter slice and reports, per sweep, the mean slice energy of the problem minus the transverse coupling term, and for small gapped problems most slices end in the optimum; at a fixed field and temperature the answers follow the equilibrium distribution of that path-integral energy. "
     "The D-Wave path submits for exactly the available nodes and edges the biases and couplings of the QUBO's Ising form and returns the answer's bits for the problem's qubits; without the client library it raises ImportError.",
     ["inputs", "schedules", "configurations"], "all QUBO matrices, annealing parameters and solver graphs",
     "No test covers these paths.", ["wq.py"], [("Opt.sqa, Ei_sqa, Opt.dw", "wq.py")], ["spins, Opt.E, submitted problem"],
     "runtime energy monitor and recorded-call monitor through a stand-in solver", "The D-Wave client is a stand-in.")

prop("W04", "QUBO builders produce the energy function they are named for",
     "For every argument, sel(n,k[,favoured]) has as its minimisers the assignments with k ones (preferring favoured bits) with energy (sum-k)**2-k**2 (minus 1/2 per favoured one), sqr and mul are the square and product of linear forms, net has value 1 per distinct edge, "
     "diag, zeros, rands, dbms have the documented shape, and counter counts bit strings. "
     "Builders never modify their arguments, repeated calls are independent, and adding QUBOs (matrices or algebraic text) with weights sums their energies.",
     ["inputs", "histories"], "all arguments and assignments", "No test covers them.",
     ["wq.py"], [("sel, net, sqr, mul, diag, dbms, Opt.add", "wq.py")], ["energies of all assignments"],
     "exhaustive assignment monitor against closed forms", "Sizes up to 8.")

prop("W05", "Symbolic QUBO conversions preserve the energy of every assignment",
     "Converting a quadratic polynomial in bits to a matrix (qn_to_qubo, optm, Opt.add with text) preserves its value at every 0/1 assignment up to the constant term; reducing powers (optx, expand_qubo) preserves the value at every assignment exactly, "
     "whatever the order, signs, repeated or missing variables (the matrix of text whose highest variable cancels may be of any sufficient size).",
     ["inputs"], "all polynomials of degree two in bits (higher powers of one bit allowed where reduced)", "No test covers them.",
     ["wq.py"], [("qn_to_qubo, optm, optx, expand_qubo, qubo_to_matrix", "wq.py")], ["matrix energies"],
     "exhaustive assignment monitor against polynomial evaluation", "Up to 5 bits.")

prop("W06", "Reduction to two-body form preserves minima",
     "For every sum of two or more multilinear terms in bits, of any degree, the reduced problem has only terms of degree at most two, and with the auxiliary bits set to the products they stand for it has the original's value and zero penalty; any other auxiliary "
     "assignment has a penalty of at least one. Each auxiliary stands for the product recorded in the mapping.",
     ["inputs"], "all polynomials and assignments", "No test covers it.",
     ["wq.py"], [("nbody_separation", "wq.py")], ["values at all assignments"],
     "exhaustive assignment monitor", "Up to 5 bits, degree 5; variable names and order are varied.")

prop("W07", "Boltzmann-machine helpers compute the statistics they are defined by",
     "Training complements the visible data (v becomes 1-v). Hidden-unit probabilities are the logistic function of bias plus weighted visible data; the data matrix is their outer statistics; the model matrix is the sample mean of single bits and of visible-hidden pairs; "
     "and each training epoch replaces the weights by alpha times the old plus epsilon times (data minus model), annealing with the shots and target temperature given.",
     ["inputs", "schedules"], "all layer sizes, weights and data", "No test covers them.",
     ["wq.py"], [("rbm_hmodel, rbm_data_qubo, rbm_model_qubo, fit", "wq.py")], ["returned matrices"],
     "runtime differential monitor with a recorded annealer", "The annealer's samples are recorded and the statistics recomputed.")

prop("U01", "Bit-string and phase helpers are exact",
     "to_inttuple converts a bit string, dict or Counter to the same bits as integer tuples with values and container type kept, and rejects other types and strings with other characters with ValueError; ignore_global_phase rotates a vector in place by a unit phase so that its first non-negligible entry is real and positive and returns it.",
     ["inputs"], "all bit strings, containers and vectors", "Tests check a few values.",
     ["utils.py"], [("to_inttuple, ignore_global_phase", "utils.py")], ["return values"], "contract monitor on random inputs", "Random inputs including edge cases.")

prop("U02", "Experimental operation lists are immutable and match Circuit",
     "Appending a gate to, concatenating or conjugating an experimental operation list returns a new list and never changes an existing one; converting it gives a circuit with the same gates and qubit count as "
     "building it directly, and the circuit can be changed without affecting the list. circuit_to_unitary returns the matrix whose column b is the circuit's output for basis state b.",
     ["programs", "histories"], "all programs and sharing patterns", "No test covers them.",
     ["experimental/operations.py", "experimental/utils.py"], [("Ops", "experimental/operations.py"), ("circuit_to_unitary", "experimental/utils.py")],
     ["Ops.ops, to_circuit()"], "history + executable model monitor and differential unitary check", "Random sharing histories.")

prop("U03", "Optional packages are optional, whichever are missing",
     "Whichever subset of SymPy, Qiskit, Numba, Qgate, the D-Wave client and Matplotlib is not installed, Blueqat imports, and everything that does not need a missing package works with the same results. "
     "A feature that needs a missing one raises an ImportError whose message names it and leaves circuits and optimizers usable. The same feature, on the same objects too, works as soon as the package can be imported.",
     ["environments", "histories"], "all subsets of missing packages and all orders of use", "Tests run in one environment, with the packages that happen to be installed.",
     ["circuit.py", "wq.py", "vqe.py", "backends/numba_backend.py", "backends/qgate_backend.py", "backends/ibmq_backend.py", "backends/sympy_backend.py"],
     [("lazy_import", "backends/sympy_backend.py"), ("numba_backend_lazy", "backends/numba_backend.py"), ("optx, optm, Opt.dw", "wq.py")],
     ["results, ImportError messages"], "fault injection: monitored interpreters with blocked imports", "Every subset, random feature orders, arrivals in between.")

prop("U04", "Settings of interpreter and process neither change results nor are changed",
     "Valid computations give the same results, and seeded simulations the same outcomes, in every interpreter: whatever the hash seed, the switches -O, -bb and -X dev, the locale, NumPy's error state and print options, warning filters (also 'error'), decimal and garbage collector settings, "
     "missing standard streams or working directory, and whether called in a thread, a coroutine, a handler or a deep stack. Importing and using Blueqat, refused calls included, leaves all those settings, hooks, logging handlers, threads and signal handlers as they were. "
     "Ordinary use prints nothing, issues no warning and touches no file or process; only verbose calls print, to the sys.stdout of that moment.",
     ["environments", "inputs"], "all combinations of settings and features", "Tests run in one interpreter with ordinary settings and look only at results.",
     ["circuit.py", "gate.py", "pauli.py", "vqe.py", "wq.py", "backends/numpy_backend.py", "backends/sympy_backend.py", "backends/ibmq_backend.py"],
     [("import", "__init__.py"), ("Circuit.run", "circuit.py"), ("Vqe.run", "vqe.py"), ("Opt", "wq.py")],
     ["results across interpreters, process-wide settings, audit events, output, warnings"], "differential runs of monitored interpreters", "Random combinations of 37 settings, switches and places of the call; sys.addaudithook.")

prop("U05", "Memory is released: nothing grows with the number of calls",
     "What the process holds does not grow with the number of calls: once circuits, operators, ansatzes, optimizers and results are dropped, their memory is released, and long-lived objects used again and again, refused calls, failed runs and registrations included, stay as large as their contents (caches of a bounded size aside). "
     "A run on the NumPy backend needs a small fixed multiple of the memory of its state vector, whatever the number of gates, shots, repetitions or evaluations of an objective, and a sparse matrix never the memory of the dense one. "
     "A result held (counts, probabilities, QASM text, a state vector, a copy) keeps no more memory alive than it shows.",
     ["histories", "inputs"], "all sequences of calls of any length", "Tests call each feature once or a few times on a few qubits and look only at results.",
     ["circuit.py", "gate.py", "pauli.py", "vqe.py", "wq.py", "backends/numpy_backend.py", "backends/_numba_backend_impl.py", "backends/backendbase.py", "backends/sympy_backend.py"],
     [("Circuit", "circuit.py"), ("NumPyBackend.run", "backends/numpy_backend.py"), ("Vqe.run", "vqe.py"), ("Opt", "wq.py"), ("Expr.to_matrix", "pauli.py")],
     ["allocator blocks, instances, elements reachable from Blueqat's modules, threads, open files, traced peaks of memory"], "leak meters and traced peaks around repeated calls",
     "43 uses of the public interface on ever new inputs, 26 long-lived objects, 10 kinds of peaks, 13 kinds of held results; suspected growth is followed for 2500 further calls.")

prop("U06", "Work is not done twice",
     "A run on the NumPy or Numba backend executes only the gates that are new since the state of the circuit's leading gates was cached (by make_cache or an earlier run, on this circuit or the one it was copied or summed from), and, of a circuit with measurements, repeats only what follows the first measurement or reset for each shot; a register that grew, or a copy without backends, starts anew. "
     "An evaluation of an objective makes and runs its circuit once and calls the sampler at most once per term of the simplified Hamiltonian, the Hamiltonian's matrix is made once per ansatz, a sampler runs its circuit once whatever the number of samples, Vqe.run makes no more circuits and samples than its minimizer's evaluations and the result need, and a result works its probabilities out once unless asked to rerun. "
     "Exporting, copying, adding, printing or refusing runs no gate, and a circuit makes each of its backends once.",
     ["histories", "inputs"], "all orders of building, caching, copying and running", "Tests look at results, which are the same when everything is done again.",
     ["circuit.py", "vqe.py", "backends/numpy_backend.py", "backends/_numba_backend_impl.py", "backends/backendbase.py"],
     [("NumPyBackend.run", "backends/numpy_backend.py"), ("NumbaBackend.run", "backends/_numba_backend_impl.py"), ("Circuit.make_cache", "circuit.py"), ("AnsatzBase.get_objective", "vqe.py"), ("VqeResult.get_probs", "vqe.py")],
     ["gate actions, runs, sampler calls, circuits, matrices and backend objects made"], "counters on hooked actions against a model of the caches", "Random histories and evaluations; counts may not exceed what the model allows.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"]) + "\n")
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "vf", "props")) if f[0] != "_" and f.endswith(".py")}
    py = "/opt/venv/bin/python check.py "
    checks, na = [], []
    for p in P:
        i = p["prop"]["id"]
        if i in have:
            checks.append(dict(property=i, quick_cmd=py + i + " --tier quick", thorough_cmd=py + i + " --tier thorough",
                               evidence_file=f"evidence/{i}.json", technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=i, reason="no check built yet"))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest", checks=checks, not_applicable=na,
             notes="Runtime monitors of the real code in /repo; no hooks in /repo are needed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks, missing:", [x["property"] for x in na])


main()
