#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Running a circuit yields the exact state vector of its gate sequence",
 "For every circuit of unitary gates, running it returns the product of the gates' defined matrices, in append order, applied to |0...0>, with qubit i stored in bit i of the vector index, and with the documented global-phase conventions (u1/rz symmetric phases, phase/t/s with 1 in the upper-left corner, u2/u3 with determinant 1, cu1 = cphase, cu2/cu3 = controlled determinant-1 u2/u3). This holds for every supported gate and alias, every angle value, every number of qubits and every way of naming targets; with `ignore_global=True`, and in circuits containing cu1, only one common phase may change.",
 ["programs", "inputs"], "all sequences of all gates with all parameter values on all numbers of qubits",
 "Tests compare a few gates at a few random angles on 1-4 qubits, mostly up to global phase or absolute value; an error that depends on gate order, qubit distance, larger registers, special angles or gate combinations is outside them.",
 ["blueqat/gate.py", "blueqat/circuit.py", "blueqat/backends/numpy_backend.py"],
 [("gate_* actions and gate fallbacks", "blueqat/backends/numpy_backend.py; blueqat/gate.py")],
 ["Circuit.run()", "Circuit.run(ignore_global=True)"])
prop("C02", "Results never depend on caching, earlier runs or shared backends",
 "The result of running a circuit is a function of its operations and number of qubits only: running it repeatedly, with any mixture of shots/returns options, calling make_cache at any point, appending more gates between runs, copying it (with or without its backends), adding circuits together, taking its dagger with or without copying backends, or running several circuits through one backend object never changes any result. A vector handed out by a run is not altered by later calls, and altering it does not influence later runs.",
 ["histories"], "all interleavings of append, run, make_cache, copy, +, +=, dagger and backend sharing over any number of circuit objects",
 "Tests cover a handful of run/append/run sequences; the cache stays valid or becomes stale depending on the whole call history.",
 ["blueqat/circuit.py", "blueqat/backends/numpy_backend.py", "blueqat/backends/backendbase.py"],
 [("state cache of the simulator and its invalidation", "NumPyBackend.run/make_cache"), ("backend copies", "Circuit.copy/dagger, Backend.copy")],
 ["Circuit.run", "Circuit.make_cache"], [("cache, cache_idx", "state after the first cache_idx+1 gates", "NumPyBackend")])
prop("C03", "Concatenation and copying compose circuits and leave operands intact",
 "c1 + c2 is a new circuit equal to all operations of c1 followed by all operations of c2 on max(n1, n2) qubits; c1 += c2 does the same in place; neither changes c2, and + changes neither operand. A copy (Circuit.copy, copy.deepcopy or an unpickled pickle) equals its original at that moment and from then on each side may be extended or run without the other one observing it. An append that raises an error leaves the circuit as it was, and every append returns the same circuit object so that calls chain.",
 ["histories"], "all histories of construction, append (valid or not), +, +=, copy over any set of circuit objects, including self-addition",
 "Aliasing between operation lists only shows after a later mutation of the other object; tests check a few fixed sequences.",
 ["blueqat/circuit.py"], [("ops list sharing/copying", "Circuit.__add__, __iadd__, copy, _GateWrapper.__getitem__")],
 ["Circuit.ops", "Circuit.n_qubits", "Circuit.run"])
prop("C04", "Target expressions resolve to the intended qubits, at run time",
 "A target given as an integer, negative integer, slice, or tuple of these resolves like Python indexing into range(n) where n is the circuit's number of qubits when it is run (so slices keep covering qubits added later), in order, and two-qubit gates pair the resolved control and target lists element by element. The circuit grows exactly to the largest qubit named by a non-negative index or slice bound, and never otherwise. Invalid targets (non-integers, out-of-range negative indices, equal control and target, lists of different length) raise an error instead of silently acting on other qubits, and every backend resolves targets in the same way.",
 ["inputs", "histories"], "all target expressions x all register sizes x all later growth of the circuit",
 "Tests contain a dozen slices; the space of start/stop/step, negatives, nesting and later growth is not sampled.",
 ["blueqat/gate.py", "blueqat/circuit.py"], [("slicing, qubit_pairs, get_maximum_index", "blueqat/gate.py")],
 ["Circuit.n_qubits", "Circuit.run", "Circuit.to_qasm", "Gate.target_iter / control_target_iter"])
prop("C05", "Measurement and reset leave a state consistent with the reported bits",
 "After a measurement the reported bit is one that had non-zero probability, and the returned state vector is the normalised projection of the pre-measurement state on that bit, so measuring the same qubit again gives the same bit. Reset leaves the qubit in |0> without disturbing what the other qubits' statistics become. In a result key the i-th character belongs to qubit i, the key has one character per qubit, an unmeasured qubit reads 0, and a qubit measured several times reports the last outcome, at every position of measurements within a circuit.",
 ["programs", "schedules"], "all circuits mixing gates, measurements and resets, and all random outcomes",
 "Tests measure at the end of tiny circuits with deterministic or 50/50 outcomes; mid-circuit measurement, reset of entangled qubits and the post-measurement vector are hardly touched.",
 ["blueqat/backends/numpy_backend.py"], [("gate_measure, gate_reset, classical register", "NumPyBackend")],
 ["Circuit.run(shots=..., returns='statevector_and_shots')"])
prop("C06", "Sampled counts follow the Born rule and add up to the requested shots",
 "run(shots=N) returns counts that sum to N over keys that each have non-zero probability, every key being distributed as the Born rule prescribes for the circuit (independent shots, each starting from |0...0>). Without measurement every shot reads all zeros; the default number of shots is 1024 when only shot results are requested; `returns` selects the statevector, the shots or both.",
 ["programs", "schedules"], "all circuits, all shot numbers, all random number streams",
 "Tests check counts only for deterministic or symmetric distributions and cannot see dependence between shots or a biased outcome for general states.",
 ["blueqat/backends/numpy_backend.py"], [("shot loop with cached prefix, measure", "NumPyBackend.run")],
 ["Circuit.run(shots=N)"])
prop("C07", "dagger() is the inverse of a circuit",
 "For every circuit of unitary gates, c followed by c.dagger() is the identity and c.dagger().dagger() acts as c, exactly including global phase, for every gate, alias, angle and target expression. dagger() returns a new circuit with the same number of qubits and leaves the original unchanged; a circuit with measurement or reset raises ValueError unless ignore_measurement=True, which drops just these operations.",
 ["programs", "inputs"], "all gate sequences, parameters and target expressions",
 "Tests run some gates at one or two angles; the inverse of multi-parameter gates, aliases and slices with late binding is not covered in general.",
 ["blueqat/gate.py", "blueqat/circuit.py", "blueqat/experimental/operations.py"], [("Gate.dagger per class, reversal", "blueqat/gate.py; Circuit.dagger")],
 ["Circuit.dagger", "Gate.dagger"])
prop("C08", "Exported OpenQASM describes the same circuit",
 "to_qasm() of any circuit is an OpenQASM 2.0 text with one n-qubit quantum and one n-bit classical register whose meaning under the qelib1.inc definitions is the circuit's unitary (up to global phase), with every angle carried at full precision and every measurement writing qubit i to classical bit i, in program order. Targets are resolved as in the simulator; without prologue exactly the declarations are left out. A circuit that cannot be expressed raises an error rather than producing a text with another meaning.",
 ["programs", "inputs"], "all circuits, parameter values and target expressions",
 "Tests compare literal text for one example of each gate, so the meaning of the emitted lines and their angles is never evaluated.",
 ["blueqat/backends/qasm_output_backend.py", "blueqat/gate.py"], [("per-gate emission and fallback", "QasmOutputBackend")],
 ["Circuit.to_qasm"])
prop("C09", "The symbolic unitary is the circuit's matrix",
 "to_unitary() of any circuit of unitary gates is the matrix of the circuit with qubit 0 as the least significant bit: substituting numbers for symbolic parameters gives column j equal to the simulated image of basis state j, including global phase, for numeric and symbolic angles alike. With ignore_global=True only a common phase factor is removed: the first diagonal entry that does not vanish identically becomes real and positive, and a matrix whose diagonal vanishes is returned as it is.",
 ["programs", "inputs"], "all circuits with numeric or symbolic parameters on all small registers",
 "Tests compare each gate once with a hand written matrix; sequences, slices, repeated targets, controlled gates at a distance and multi-parameter symbolic use are not covered.",
 ["blueqat/backends/sympy_backend.py", "blueqat/gate.py"], [("gate matrices, tensor placement, fallbacks", "SympyBackend")],
 ["Circuit.to_unitary"])
prop("C10", "Pauli expression arithmetic is the operator algebra",
 "For all Pauli operators, terms and expressions with any (also complex, numpy or zero) numbers, the operations +, -, unary -, *, /, **, simplify, commutator, from-chars construction and qubit_bit conversion represent exactly the corresponding operator on every number of qubits, independently of operand order, of whether operands were simplified before, and of operand types. ==, != compare represented operators symmetrically across types, equal objects that are hashable have equal hashes, is_commutable tells whether the operators commute, no operation changes its operands, and the textual form of an object read as Python is the same operator.",
 ["inputs", "histories"], "all expressions built from the operators, i.e. all expression trees",
 "Tests evaluate a few identities; an algebra bug depends on the combination of operand types, repeated qubits, cancellations and unsimplified forms.",
 ["blueqat/pauli.py"], [("Term/Expr operators, simplify, join_ops", "blueqat/pauli.py")],
 ["Term", "Expr", "simplify", "==", "commutator"])
prop("C11", "Pauli matrices equal the represented operator in every format",
 "to_matrix() of every Pauli operator, term or expression equals the sum of coefficient times Kronecker products with qubit 0 least significant, for every sparse format and for dense output, and for every explicit n_qubits at least as large as needed (identity on the others). Unsimplified and simplified forms, the zero expression and pure numbers give the corresponding matrix too, of dimension 2^n_qubits.",
 ["inputs"], "all expressions x all sparse formats x all register sizes",
 "Tests check some random terms; format specific index construction, the grouping of terms with the same flips and the degenerate cases are not covered together.",
 ["blueqat/pauli.py"], [("_term_to_dataarray, _term_to_indices, Expr.to_matrix grouping", "blueqat/pauli.py")],
 ["to_matrix", "matrix", "n_qubits", "max_n"])
prop("C12", "Time evolution of a Pauli term is its exponential",
 "For every term P with real coefficient c and every t, the gates appended by P.get_time_evolution() act as exp(i c t P) up to global phase - with the same sign convention for X, Y and Z factors - on every register and after any earlier operations, appending only gates on the term's qubits; a term with a complex coefficient raises ValueError and an identity term appends nothing. append_to_circuit appends the operator itself up to its scalar.",
 ["inputs"], "all Pauli strings, coefficients, times and register sizes",
 "Tests check X/Z strings on a few times and Y only in pairs, where a sign error cancels.",
 ["blueqat/pauli.py"], [("basis change, CNOT ladder and rz", "Term.get_time_evolution")],
 ["Term.get_time_evolution", "Term.append_to_circuit"])
prop("C13", "Expectation values agree between matrix, probabilities and sampling",
 "For every ansatz circuit and Hamiltonian, the energy computed through a sampler that returns exact probabilities equals the energy computed from the sparse matrix, which equals <psi|H|psi> (real part); expect() returns exactly the marginal distribution over the requested qubits in the requested order, and each sampler (state vector, measurement, qiskit) estimates that same distribution with frequencies that sum to one. Neither samplers nor energy evaluation modify the circuit they are given.",
 ["inputs", "programs"], "all states, Hamiltonians (including Y factors and unsimplified terms) and orders of measured qubits",
 "Tests use symmetric circuits for which a reversed bit order or a flipped Y sign cannot be seen.",
 ["blueqat/vqe.py"], [("get_energy basis change, expect masks, sampler bit handling", "blueqat/vqe.py")],
 ["AnsatzBase.get_energy", "get_energy_sparse", "expect", "get_*_sampler", "sparse_expectation"])
prop("C14", "QAOA circuits and VQE results are consistent with their definition",
 "QaoaAnsatz.get_circuit(params) is the initial circuit followed, for each step k, by the evolution of every Hamiltonian term by 2*pi*gamma_k and the mixer by pi*beta_k (rx on all qubits by default, otherwise the evolution of each mixer term), for any parameters, number of steps, initial circuit and mixer, leaving the ansatz's own circuit unchanged between calls. Vqe.run() returns the minimizer's parameters, the circuit of exactly these parameters, and probabilities that are that circuit's outcome distribution; most_common lists them in descending order. A result remembers at most one distribution: reading it again without a sampler, rerun or new storing read returns what was stored; a sampler that is given is used and replaces what was stored unless store=False, and several results of one Vqe do not influence each other. Non-commuting Hamiltonians are rejected.",
 ["inputs", "histories"], "all Hamiltonians, mixers, initial circuits, step counts, parameter vectors and call orders",
 "Tests only check that the optimum of some small problems is found, which many wrong circuits also achieve.",
 ["blueqat/vqe.py", "blueqat/wq.py"], [("QaoaAnsatz.get_circuit; Vqe.run; VqeResult", "blueqat/vqe.py")],
 ["QaoaAnsatz", "Vqe.run", "VqeResult.get_probs", "VqeResult.most_common", "Opt.qaoa"])
prop("C15", "QUBO builders and Ising conversions preserve the energy of every assignment",
 "For every QUBO matrix and every 0/1 assignment, the energy x^T Q x equals the eigenvalue of the Pauli Hamiltonian made from it, and for upper-triangular matrices the Ising energy (with offset) used by the annealers. The builders produce matrices with their defined energy for every assignment: sel penalises (sum x - K)^2 up to its constant (minus 0.5 per listed qubit), sqr gives (a.x)^2, mul gives (a.x)(b.x), net one per edge, diag/zeros as named, optm/optx/qn_to_qubo/make_qs/Opt.add the polynomial they are given, and n-body separation keeps the minimum of the polynomial under its constraints.",
 ["inputs"], "all sizes, coefficients, and all 2^n assignments",
 "Tests print or compare one matrix per builder.",
 ["blueqat/wq.py", "blueqat/pauli.py"], [("wq.pauli, Opt.qi, sel, sqr, mul, net, optm, qn_to_qubo, nbody_separation", "blueqat/wq.py")],
 ["wq.*", "Opt.qi", "Opt.add", "pauli.qubo_bit"])
prop("C16", "Annealers report energies and solutions of the given problem",
 "Every state returned by Opt.run/sa is a list of 0/1 of the problem's size (one list for shots=1, one list per shot otherwise), E holds for each shot the energies of that shot's trajectory, and its last entry is exactly the QUBO energy of the returned bits; a run neither changes the QUBO nor depends on earlier runs of the same object. Spin flips follow the Metropolis rule, so downhill moves are always taken and a quench ends in a state no single flip improves; sqa returns tro x N spins of +-1 and reports the energies (with replica coupling) of such a trajectory.",
 ["schedules", "inputs", "histories"], "all (upper-triangular) QUBO matrices, shot numbers, random streams and repeated runs",
 "Tests only look at the ground state of one or two trivial problems.",
 ["blueqat/wq.py"], [("Opt.run, Opt.sqa, Ei, qi", "blueqat/wq.py")],
 ["Opt.run", "Opt.sa", "Opt.sqa", "Opt.E"], [("J, ep, E, qubo", "Ising coefficients, offset, energies, problem", "Opt")])
prop("C17", "Registration of gates, macros and backends behaves like a registry",
 "For every history of register/unregister calls, a circuit attribute resolves to the gate, macro or backend currently registered under that name and raises AttributeError otherwise; registering an occupied or reserved name without allow_overwrite raises ValueError and changes nothing, unregistering removes exactly that entry, and unregistering an unknown name raises ValueError and changes nothing. The backend used by run() is the explicitly given one, else the circuit's own default, else the global default, and setting a default to None (circuit) or an unknown name (ValueError) behaves as documented. Copies and daggers keep the circuit's default unless asked not to, and a sum has the default of its left operand.",
 ["histories"], "all histories of registry operations, default settings and circuit uses",
 "Tests exercise each call once; wrong registry cross-checks depend on names present in another registry or on call order.",
 ["blueqat/circuit.py"], [("BlueqatGlobalSetting, Circuit.__getattr__, backend resolution", "blueqat/circuit.py")],
 ["BlueqatGlobalSetting.*", "Circuit.<name>", "Circuit.set_default_backend", "Circuit.run"],
 [("GATE_SET, GLOBAL_MACROS, BACKENDS, DEFAULT_BACKEND_NAME", "registries", "blueqat/circuit.py")])
prop("C18", "Gate decompositions are equivalent, so partial backends agree",
 "Whenever a backend does not implement a gate natively, the library's decomposition of that gate acts as the gate itself up to one global phase of the whole circuit, for all parameters and target expressions, and is reached recursively; hence any backend implementing a universal subset (e.g. h, cx, rz, u3, cz, rx, ry, ccz) sees, in order, a flat gate list equivalent to the circuit. A gate with neither native action nor decomposition raises an error, and run/make_cache arguments reach the backend unchanged.",
 ["programs", "configurations"], "all gates and parameters x all subsets of natively implemented gates",
 "Tests run the built-in backends only, which implement most gates natively, so most decompositions are never executed.",
 ["blueqat/gate.py", "blueqat/backends/backendbase.py"], [("Gate.fallback; Backend._run_gates, _resolve_fallback", "blueqat/gate.py; blueqat/backends/backendbase.py")],
 ["Backend.run", "Gate.fallback"])
prop("C19", "Immutable operation lists and unitary extraction agree with circuits",
 "Every operation on an Ops value (append, +, dagger) returns a new value and leaves the old ones unchanged, so all values along any branching history keep their meaning, and to_circuit() of any of them is the circuit built by the same calls. circuit_to_unitary(c) has as column j the image of basis state j under c, without changing c.",
 ["histories", "programs"], "all branching histories of immutable values; all circuits",
 "One test builds a single chain.",
 ["blueqat/experimental/operations.py", "blueqat/experimental/utils.py"], [("Ops.__add__/_GateWrapper; circuit_to_unitary", "blueqat/experimental")],
 ["Ops", "circuit_to_unitary"])
prop("C20", "The Qiskit route returns the same circuit's results",
 "Running through the ibmq backend passes the whole circuit to Qiskit, so the returned counts use the same key convention as the simulator (i-th character is qubit i, one character per qubit), sum to the requested shots (default 1024) and follow the same distribution; every `returns` option delivers the documented kind of object and any other value raises ValueError. The Qiskit sampler estimates the same marginals as the exact sampler.",
 ["programs", "configurations"], "all exportable circuits, shot numbers and options",
 "Tests with qiskit are few and use symmetric circuits.",
 ["blueqat/backends/ibmq_backend.py", "blueqat/backends/qasm_parser_backend_generator.py", "blueqat/vqe.py"], [("_qasm_runner_qiskit, bit reversal", "ibmq_backend")],
 ["Circuit.run_with_ibmq", "get_qiskit_sampler"])
prop("C21", "The compiled simulator computes the same results as the specification",
 "The numba simulator returns, for every circuit of unitary gates, the same state vector as the gate definitions prescribe (qubit i in bit i), for every register size and target expression, with measurement, reset, shots and caching behaving as in the default simulator.",
 ["programs", "histories"], "all circuits, register sizes and call histories",
 "The numba tests are skipped where numba is not installed, so its index arithmetic is not executed by the tests here at all.",
 ["blueqat/backends/_numba_backend_impl.py", "blueqat/backends/numba_backend.py"], [("bit-insertion index kernels", "_numba_backend_impl.py")],
 ["Circuit.run(backend='numba')"])
prop("C22", "Result helpers convert without changing content",
 "to_inttuple maps a bit string to the tuple of its bits in order, and a Counter or dict to one of the same type with the same values under converted keys, raising ValueError for anything else. ignore_global_phase multiplies the vector in place by one unit phase making its first non-negligible amplitude real positive, leaving ratios and norm unchanged, and wq.counter counts each bit list exactly once.",
 ["inputs"], "all bit strings, mappings and vectors", "Tests have one or two literals.",
 ["blueqat/utils.py", "blueqat/wq.py"], [("to_inttuple, ignore_global_phase, counter", "blueqat/utils.py; blueqat/wq.py")],
 ["to_inttuple", "ignore_global_phase", "wq.counter"])
prop("C23", "The qgate bridge hands over exactly the circuit",
 "For every circuit it accepts, the qgate backend passes qgate the operations of the circuit in order, with each gate's kind, angles, adjoint flag, control and target qubits as resolved by the circuit, and converts sampled integers to keys whose i-th character is qubit i; unmeasured qubits read 0 and counts are preserved.",
 ["programs"], "all circuits of gates known to the bridge",
 "qgate is not installed in the test environment; no test executes this bridge.",
 ["blueqat/backends/qgate_backend.py"], [("convert_operators, sample key permutation", "QgateBackend")],
 ["Circuit.run(backend='qgate')"])
prop("C24", "The D-Wave route hands over the problem and returns its bits",
 "Opt.dw() submits to the configured solver exactly one Ising problem whose linear coefficients and couplings are the Ising form of the object's current QUBO (upper-triangular; energies equal for every assignment up to the constant), each addressed by the node or edge of its own variable(s) in whatever order the solver lists nodes and edges, and returns the bits (s+1)/2 of the problem's variables; it neither changes the QUBO nor depends on earlier runs or problems of the object.",
 ["inputs", "histories"], "all QUBOs that fit the solver's graph, all solver graphs, all histories of edits, annealing runs and submissions",
 "There is no network or D-Wave client in the test environment; no test executes this route.",
 ["blueqat/wq.py"], [("Opt.dw, Opt.qi", "blueqat/wq.py")], ["wq.Opt.dw"])
prop("C25", "Boltzmann-machine training follows the defined update in every epoch",
 "For weights Q (a QUBO over visible and hidden units), rbm_hmodel gives each hidden unit j the probability sigm(Q_jj + sum_i v_i Q_ij), rbm_data_qubo the matrix with v and these probabilities on the diagonal and v_i h_j between the layers, Opt.rbm_model_qubo the means of bits and visible-hidden products over the samples of one annealing run with the current weights, the requested number of shots and target temperature (one shot included), and every epoch of Opt.fit replaces Q by alpha Q + epsilon (data - model) for one (complemented) datum of the set; setRBM makes random weights on the diagonal and between the two layers only.",
 ["inputs", "histories"], "all layer sizes, weights, data, samples, shot counts, rates and numbers of epochs",
 "No test executes the training functions, and results are random.",
 ["blueqat/wq.py"], [("Opt.fit, Opt.rbm_model_qubo", "blueqat/wq.py"), ("rbm_hmodel, rbm_data_qubo", "blueqat/wq.py")], ["wq.Opt.fit", "wq.Opt.rbm_model_qubo", "wq.rbm_hmodel", "wq.rbm_data_qubo", "wq.Opt.setRBM"])
prop("C26", "The printed form of a circuit denotes that circuit",
 "For every circuit built by appending operations with numeric parameters, repr(circuit) is a Python expression Circuit(n).gate(params)[targets]... that denotes a circuit with the same number of qubits and the same gates in the same order, with the same parameters and with targets that act on the same qubits for every later size of the register (slices stay slices, tuples stay tuples); printing never raises and never changes the circuit.",
 ["inputs"], "all sequences of gates, all target expressions (integers, slices, tuples, nested tuples, empty tuples) and numeric parameters",
 "No test looks at the printed form.",
 ["blueqat/circuit.py", "blueqat/gate.py"], [("Circuit.__repr__", "blueqat/circuit.py"), ("Gate.__str__, _str_args, _str_targets", "blueqat/gate.py")],
 ["Circuit.__repr__", "str(gate)"])
prop("C27", "Printed, pickled and copied Pauli values denote the same operator",
 "For every Pauli operator, term and expression (simplified or not, with integer, real or complex coefficients and any qubit numbers), repr(value) is a Python expression in X, Y, Z, I and numbers that denotes the same operator with exactly the same coefficients, str(value) is the same text, and pickling, copy.copy and copy.deepcopy give an equal value of the same type with the same terms; none of these raises or changes the value.",
 ["inputs"], "all values built by the operators and constructors of the Pauli module, all coefficients that are finite Python or NumPy double precision numbers",
 "One test pickles one expression; no test looks at the printed form.",
 ["blueqat/pauli.py"], [("Term.__repr__, Expr.__repr__, _PauliImpl.__repr__, __getnewargs__", "blueqat/pauli.py")],
 ["repr(pauli expression)", "pickle", "copy"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
