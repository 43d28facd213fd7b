#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are authored here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
B = "blueqat/backends/"
prop("C01", "NumPy simulator applies exactly each gate's unitary to its operand qubits",
 "Running any gate of the gate set (other than measure and reset) on the numpy backend multiplies the state vector by that gate's defining unitary on the operand qubits and by the identity on every other qubit, with qubit k stored as bit k of the amplitude index. "
 "This is exact for every gate except CU1, CU2 and CU3, which may differ by a global phase. "
 "A gate given several targets, or several control-target pairs, acts once for each listed target or pair, in order.",
 ["inputs", "programs"], "every register width, every choice of operand qubits, every angle (including 0 and multiples of pi), every input state",
 "tests run a few angles on registers of at most a few qubits, mostly from |0..0>; most gate/operand-order/angle combinations are never compared with the matrix",
 [B+"numpy_backend.py", "blueqat/gate.py"],
 [("gate_<name> methods with bit masks over the index vector", B+"numpy_backend.py"), ("fallback decompositions", "blueqat/gate.py")],
 ["Circuit.run(returns='statevector')"])
prop("C02", "Numba simulator applies each gate's unitary, without overlapping parallel writes",
 "Running any gate of the gate set (other than measure and reset) on the numba backend multiplies the state vector by the gate's defining unitary on the operand qubits and the identity elsewhere, exactly as on the numpy backend (CU1, CU2, CU3 up to a global phase). "
 "In every parallel loop over amplitudes, different iterations touch different amplitudes and together they cover all that the gate affects, so the result does not depend on the thread schedule.",
 ["inputs", "programs", "schedules"], "every register width, operand choice and ordering, angle, input state, and thread schedule",
 "numba is not installed where the tests run, so no test executes this backend at all; races would not show deterministically anyway",
 [B+"_numba_backend_impl.py"], [("jitted kernels with index-insertion masks", B+"_numba_backend_impl.py")])
prop("C03", "Symbolic unitary backend returns the circuit's exact matrix",
 "For every gate of the gate set other than measure and reset, Circuit.to_unitary() returns the matrix of the circuit over all its qubits (qubit 0 is the least significant bit of the row and column index), with later gates multiplied on the left. "
 "It agrees with the gate's definition for all angles, numeric or symbolic, up to a global phase for gates that the backend only knows through a decomposition (a symbolic amplitude counts as zero only if it vanishes identically); measure and reset are skipped with a warning. "
 "With ignore_global=True the result differs from that matrix only by a unit-modulus factor.",
 ["inputs", "programs"], "every gate, operand placement, register width, symbolic angle",
 "tests compare a handful of gates on one or two qubits",
 [B+"sympy_backend.py", "blueqat/gate.py"], [("SYMPY_GATE table and Kronecker construction", B+"sympy_backend.py")])
prop("C04", "Every gate decomposition equals the gate it replaces",
 "When a backend has no direct implementation of a gate, the list of simpler gates used instead has the same unitary as the gate on the same operand qubits, up to a global phase, for all angles and operand orders. "
 "It acts on no other qubit, and expanding it repeatedly always ends in gates that need no decomposition of their own.",
 ["inputs", "programs"], "all gates with a decomposition, all angles, operands and operand orders, several targets or pairs",
 "which decompositions run depends on the backend; several (marked 'TODO: test') are never compared with a matrix",
 ["blueqat/gate.py"], [("fallback methods", "blueqat/gate.py")])
prop("C05", "dagger() is the inverse of a gate and of a circuit",
 "For every gate other than measure and reset, dagger() returns a gate on the same targets, keeping extra keyword options, whose unitary is the inverse of the original (up to a global phase), for all parameters. "
 "Circuit.dagger() applies the daggers of all operations in reverse order on the same number of qubits; when the circuit contains a measurement or reset it raises ValueError, or with ignore_measurement=True leaves out exactly those operations.",
 ["inputs", "programs"], "all gates, parameters, targets, circuits",
 "tests check a few sample circuits at fixed angles",
 ["blueqat/gate.py", "blueqat/circuit.py"], [("dagger methods", "blueqat/gate.py"), ("Circuit.dagger", "blueqat/circuit.py")])
prop("C06", "Every gate of the gate set can be executed by every bundled backend",
 "Every name in the gate set builds a gate that the numpy, numba, symbolic-unitary and OpenQASM-output backends can process: either they implement it, or its chain of decompositions ends, after finitely many steps, in gates they implement. "
 "No combination of gate and backend fails with an unimplemented-gate, missing-attribute or wrong-arguments error, and the aliases (cnot, r, cr, toffoli, m) denote the same operations as cx, phase, cphase, ccx, measure.",
 ["programs", "configurations"], "all gate x backend combinations (qgate, whose library is not bundled, is excluded)",
 "the tests do not enumerate the product, and numba is not installed",
 ["blueqat/circuit.py", "blueqat/gate.py", B+"backendbase.py"], [("GATE_SET and BACKENDS tables", "blueqat/circuit.py"), ("_get_action dispatch and fallback recursion", B+"backendbase.py")])
prop("C07", "Cached simulator state never changes the result of a run",
 "On the numpy and numba backends, running a circuit that uses its own backend objects gives the same state as running a fresh circuit with the same operations, whatever was done before: earlier runs, make_cache(), appended gates, concatenation, a larger number of qubits, copies, daggers, runs with the cache disabled or with another dtype. "
 "The outcome of a measurement or reset is never kept: each shot and each run draws it anew. "
 "The arrays returned to the caller are not shared with the cache, so modifying them does not affect later runs.",
 ["histories", "inputs"], "all sequences of append/run/copy/concatenate/dagger operations on circuits using their own backends, with any number of shots",
 "the interaction of cached prefix, cache index and random operations spans histories; the tests contain only a few fixed ones",
 [B+"numpy_backend.py", B+"_numba_backend_impl.py", "blueqat/circuit.py"],
 [("cache, cache_idx, save_cache", B+"numpy_backend.py")], None,
 [("cache/cache_idx", "state after the first cache_idx+1 operations", B+"numpy_backend.py")])
prop("C08", "Measurement and reset collapse the state correctly",
 "On the numpy and numba backends, measuring a qubit yields 0 with exactly the squared-norm probability of the amplitudes having that bit 0 and otherwise 1, removes the amplitudes of the other outcome, rescales the remaining ones to norm 1, and records the outcome for exactly that qubit. "
 "Reset does the same without recording, and moves the surviving amplitudes to the qubit's 0 half. Each listed target is treated independently with its own random draw, and no other amplitude relation changes.",
 ["inputs", "histories"], "every normalised state, width, target list and outcome of the random draws",
 "tests measure basis or fixed states; the branch taken is random and the surviving amplitudes are not inspected",
 [B+"numpy_backend.py", B+"_numba_backend_impl.py"], [("gate_measure, gate_reset", B+"numpy_backend.py"), ("_p0calc, _reduce0, _reduce1, _reset1", B+"_numba_backend_impl.py")])
prop("C09", "Measured bits appear at their qubit's position in every sampled result",
 "In the counters returned by the numpy, numba and ibmq backends, character k of each bit string is the outcome of qubit k (qubit 0 leftmost), and qubits never measured read 0. "
 "The samplers of the vqe module return, for each requested qubit in the requested order, that qubit's bit, also when only some qubits are requested or in another order; utils.to_inttuple keeps the order and merges nothing.",
 ["inputs", "programs"], "all widths, measured subsets and request orders",
 "tests mostly use palindromic or complete measurements, for which a reversed order is invisible",
 [B+"numpy_backend.py", B+"_numba_backend_impl.py", B+"ibmq_backend.py", "blueqat/vqe.py", "blueqat/utils.py"],
 [("store_shot", B+"numpy_backend.py"), ("reduce_bits, expect", "blueqat/vqe.py"), ("bit reversal", B+"ibmq_backend.py")])
prop("C10", "OpenQASM output means the same circuit",
 "Circuit.to_qasm() of a circuit with at least one qubit yields an OpenQASM 2.0 program whose register sizes equal the circuit's width and whose statements, read with the qelib1 definitions, perform the circuit's operations in order on the same qubits with the same parameters, up to a global phase. "
 "Every gate name emitted is defined in qelib1, every statement is terminated, measurement of qubit k writes classical bit k, and output_prologue=False leaves out only the header.",
 ["programs", "inputs"], "all gates, parameters, operand lists and circuits",
 "tests compare a few literal texts; nobody checks the text against the qelib1 semantics",
 [B+"qasm_output_backend.py", "blueqat/circuit.py"], [("gate_<name> line templates", B+"qasm_output_backend.py")])
prop("C11", "Circuit operations leave their operands unchanged and copies independent",
 "Adding circuits, copying, taking the dagger, running, making a cache, and exporting leave the operations and width of every circuit involved unchanged (in-place addition changes only its left operand). "
 "Circuits made by copy(), +, dagger() and those passed to vqe samplers share no mutable list or cache with the original, so later changes to one never show in the other, and gate objects are never modified after creation.",
 ["histories", "programs"], "all circuits and all following sequences of operations on original and result",
 "aliasing shows only in particular later mutations that the tests do not make",
 ["blueqat/circuit.py", "blueqat/gate.py", "blueqat/vqe.py", B+"backendbase.py"], [("copy, __add__, __iadd__, dagger", "blueqat/circuit.py")])
prop("C12", "Building a circuit appends exactly the requested gate and tracks the width",
 "Circuit().name(params)[targets] appends exactly one operation of the gate registered under that name with exactly those targets, parameters and keyword options, and returns the same circuit. "
 "The number of qubits becomes the larger of its former value and the highest index mentioned plus one and never decreases; concatenation keeps the operation order and takes the larger width.",
 ["inputs", "programs"], "all gate names, targets (ints, slices, tuples, negative indices) and parameters",
 "tests use a few index forms",
 ["blueqat/circuit.py", "blueqat/gate.py"], [("_GateWrapper", "blueqat/circuit.py"), ("get_maximum_index", "blueqat/gate.py")])
prop("C13", "Pauli arithmetic matches the algebra of the matrices",
 "For Pauli operators, Terms, Exprs and numbers in any combination and on either side, +, -, *, /, unary -, ** and commutator() return an object whose matrix is the corresponding combination of the operands' matrices; simplify() preserves the matrix and yields qubit-sorted products with like terms merged. "
 "n_iter(), max_n(), n_qubits() and the constructors from characters (from_chars, term_from_chars, pauli_from_char, qubo_bit) agree with the written operator. "
 "Two objects are reported commutable exactly when their commutator vanishes (up to the tolerance given). Unsupported operand types other than tuples raise TypeError and division by zero raises ZeroDivisionError.",
 ["inputs"], "all operator/operand type combinations, products of any Paulis on any qubits, all coefficients",
 "the tests sample the table; sign and ordering mistakes for particular type pairs stay invisible",
 ["blueqat/pauli.py"], [("operator methods of _PauliImpl, Term, Expr", "blueqat/pauli.py"), ("_mul_map", "blueqat/pauli.py")])
prop("C14", "Pauli equality is an equivalence that ignores representation; hash agrees",
 "Pauli operators, Terms and Exprs compare equal exactly when they denote the same operator after simplification, whichever side each is on and whichever of the three types each has; != is always the negation. "
 "Comparing with an unrelated object (other than a number or a plain tuple) returns False without an error. Pauli operators of equal kind and qubit (including the identity) are hashable with equal hashes, and different kinds never compare equal on different operators.",
 ["inputs"], "all pairs of values of the three types",
 "symmetry and hash consistency range over type pairs that the tests do not enumerate",
 ["blueqat/pauli.py"], [("__eq__, __ne__, __hash__", "blueqat/pauli.py")])
prop("C15", "Pauli values are immutable and module tables are never exposed",
 "No operation on Pauli operators, Terms and Exprs (arithmetic, simplify, comparison, matrices, time evolution) modifies an operand or a previously returned value. "
 "Matrices handed to the caller are fresh copies: modifying one never changes later results.",
 ["histories", "inputs"], "all operations and all later mutations of returned arrays by the caller",
 "requires mutating results and re-checking everything else",
 ["blueqat/pauli.py"], [("namedtuple representation, .copy() in matrix properties", "blueqat/pauli.py")])
prop("C16", "Time evolution of a Term appends exactly exp(i c t P)",
 "For a Term c*P with real coefficient c, the function returned by get_time_evolution() appends, for any t, gates whose unitary is exp(i*c*t*P) on exactly the term's qubits, up to a global phase, for any product P of X, Y and Z on any qubits; the identity appends nothing. "
 "A term whose simplified coefficient is not real raises ValueError, and append_to_circuit() appends the Pauli gates of the term's product, last factor first.",
 ["inputs"], "all Pauli products, qubits, coefficients and times",
 "the tests check few products, none with an odd number of Y factors",
 ["blueqat/pauli.py"], [("get_time_evolution, append_to_circuit", "blueqat/pauli.py")])
prop("C17", "VQE energy equals the expectation value of the Hamiltonian",
 "Given a sampler that returns the exact outcome probabilities, the energy an ansatz computes from a circuit as wide as its Hamiltonian is the real part of the sum over the Hamiltonian's terms of coefficient times expectation value of the Pauli product in the circuit's state, constants included. "
 "Computing energies or probabilities, with any of the bundled samplers, never modifies the given circuit.",
 ["inputs"], "all Hamiltonians (X, Y, Z products and constants), circuits and samplers",
 "no test uses a Hamiltonian with Y factors through a sampler",
 ["blueqat/vqe.py"], [("AnsatzBase.get_energy", "blueqat/vqe.py"), ("samplers", "blueqat/vqe.py")])
prop("C18", "Registering and unregistering macros, gates, backends is checked and symmetric",
 "register_macro/gate/backend make the name available on every circuit and raise ValueError, changing nothing, when the name is taken by the same or a conflicting registry, a Circuit attribute, or is reserved, unless allow_overwrite=True. "
 "unregister_macro/gate/backend remove exactly that name and raise ValueError when it is not registered in that registry, so registering and then unregistering a new name restores the former state.",
 ["histories", "configurations"], "all names and registration histories",
 "tests register a few names; cross-registry conflicts are not enumerated",
 ["blueqat/circuit.py"], [("BlueqatGlobalSetting", "blueqat/circuit.py")])
prop("C19", "The backend used is the explicit one, else the circuit's, else the global one",
 "run() uses the backend given explicitly (by name or as an object; make_cache() by name), otherwise the circuit's own default, otherwise the global default at the time of the call; run_with_<name>() uses that backend, and all pass the remaining arguments through unchanged. "
 "Setting a default to an unknown name raises ValueError and changes nothing, setting a circuit's default to None returns it to the global default, copies keep the default when asked, and each circuit creates its backend by name once and reuses it.",
 ["configurations", "histories"], "all combinations of the three settings and orders of setting them",
 "tests cover a few combinations",
 ["blueqat/circuit.py"], [("Circuit.run, make_cache, set_default_backend, __getattr__", "blueqat/circuit.py")])
prop("C20", "Optional dependencies are imported only when their feature is used",
 "Importing blueqat or any of its modules (except the private numba implementation) needs only the standard library, numpy and scipy: sympy, numba, qiskit, qgate, matplotlib and dwave are imported only inside the feature that needs them. "
 "When sympy or qiskit is missing, the features that need it raise ImportError; the ibmq backend raises ValueError when importing Qiskit fails in another way, and returns='_exception' gives the import's exception.",
 ["configurations"], "all sets of installed optional packages",
 "the test environment has one fixed set of packages",
 ["blueqat/__init__.py", B+"numba_backend.py", B+"sympy_backend.py", B+"ibmq_backend.py", "blueqat/wq.py", "blueqat/vqe.py"], [("function-level imports guarded by try/except ImportError", "several")])
prop("C21", "Qubit indices, slices and pairs resolve as in Python and bad ones are rejected",
 "A one-qubit gate's targets resolve to the same indices, in the same order, as indexing list(range(n)) with each listed int or slice (negative values down to -n count from the end). "
 "Two-qubit gates pair the resolved controls and targets element by element, and raise ValueError when the targets are not a pair, the numbers differ, or a control equals its target; indices that are neither integers nor slices raise TypeError, and a rejected gate leaves the circuit as it was.",
 ["inputs"], "all index expressions and widths",
 "tests use a few slices",
 ["blueqat/gate.py"], [("slicing, slicing_singlevalue, qubit_pairs", "blueqat/gate.py")])
prop("C22", "Run options select the documented result and exactly the requested shots",
 "On the numpy and numba backends, without options run() returns the state vector; with shots=N it returns a counter whose values sum to N; returns='statevector', 'shots' and 'statevector_and_shots' return what they name, with 1024 shots by default where shots are counted. "
 "An unknown returns value raises ValueError before anything is simulated; ignore_global=True only multiplies the final state by a unit-modulus factor that makes its first non-negligible amplitude real and positive.",
 ["inputs", "configurations"], "all option combinations and shot numbers",
 "tests use few combinations and cannot see numba",
 [B+"numpy_backend.py", B+"_numba_backend_impl.py", "blueqat/utils.py"], [("run", B+"numpy_backend.py"), ("ignore_global_phase", "blueqat/utils.py")])
prop("C23", "experimental.Ops is immutable and agrees with Circuit",
 "Building on an Ops value with a gate, adding two Ops or taking the dagger returns a new Ops and leaves the operands unchanged, with the same operations, order and width that the same steps give on a Circuit. "
 "Every gate name known to Ops denotes the same gate as on Circuit, to_circuit() returns an independent circuit with equal operations and width, and circuit_to_unitary() has as its i-th column the state from basis state i without modifying the circuit.",
 ["programs", "histories"], "all gate names and building sequences",
 "the module has almost no tests",
 ["blueqat/experimental/operations.py", "blueqat/experimental/utils.py"], [("Ops, _GateWrapper", "blueqat/experimental/operations.py")])
prop("C24", "QUBO conversions preserve the energy of every bit assignment",
 "For every QUBO matrix, wq.pauli() gives a Pauli expression whose value for any bit assignment (bit 1 meaning Z = -1) equals the QUBO value, and for every upper-triangular one Opt.qi() gives an Ising matrix (diagonal and upper triangle) and offset with the same energies for spins 2*bit-1; Opt.add, reJ, Ei and Opt.qaoa keep those energies too. "
 "The builders sel, mul, sqr, net and diag return matrices whose QUBO value is the documented polynomial of the bits (mul: the product of its two linear forms), and leave their arguments unchanged.",
 ["inputs"], "all matrices and bit assignments",
 "tests check a few literal matrices",
 ["blueqat/wq.py", "blueqat/pauli.py"], [("pauli, qubo_bit, Opt.qi", "blueqat/wq.py")])
prop("C25", "Pauli matrices have the right entries in every format",
 "to_matrix() of a Pauli operator, Term or Expr (and a Pauli operator's matrix attribute) returns, for any n_qubits at least its own, the 2^n x 2^n matrix of the operator with qubit 0 as the least significant index bit; the dense and all sparse formats hold the same entries, and the result has the format asked for. "
 "The matrix does not depend on the order of the factors' storage, and an unknown format raises ValueError.",
 ["inputs"], "all expressions, widths and formats",
 "tests use a few expressions",
 ["blueqat/pauli.py"], [("_term_to_dataarray, _term_to_indices, to_matrix", "blueqat/pauli.py")])
prop("C26", "The QAOA ansatz builds the alternating circuit it documents",
 "For any commuting Hamiltonian and step count, the QAOA circuit is the initial circuit (Hadamard on every qubit by default) followed, per step, by the time evolution of every Hamiltonian term for 2*pi*gamma and then the mixer (RX of pi*beta on every qubit, or each mixer term's time evolution for pi*beta), taking the first half of the parameters as betas and the second half as gammas. "
 "Non-commuting Hamiltonians raise ValueError, a mixer without an initial circuit raises ValueError, and building circuits never modifies the initial circuit or the parameters.",
 ["inputs"], "all commuting Hamiltonians, step counts, parameters and mixers",
 "tests only check that optimisation finds the optimum of small problems",
 ["blueqat/vqe.py"], [("QaoaAnsatz", "blueqat/vqe.py")])
prop("C27", "Measurement samples follow the state's probabilities",
 "Over many shots the relative frequencies returned by the simulators and samplers converge to the squared amplitudes, with independent draws.",
 ["inputs", "histories"], "all circuits and shot numbers", "statistical statement about the distribution of a pseudo-random generator",
 [B+"numpy_backend.py", "blueqat/vqe.py"], [("random.random, numpy multinomial", "blueqat/vqe.py")])
prop("C28", "Optimisers reach the ground energy",
 "VQE/QAOA with the default minimiser, and simulated (quantum) annealing in wq.Opt, return a parameter set or bit string whose energy is minimal for small problems.",
 ["inputs"], "all Hamiltonians and QUBOs", "convergence of a heuristic numerical search",
 ["blueqat/vqe.py", "blueqat/wq.py"], [("scipy minimize", "blueqat/vqe.py"), ("Opt.run, Opt.sqa", "blueqat/wq.py")])
prop("C29", "Simulated state stays normalised within float precision",
 "After any number of gates the state vector's norm differs from 1 by at most the accumulated rounding error, and cached and uncached runs agree within it.",
 ["inputs", "histories"], "all circuits and lengths", "rounding-error accumulation over run-time values",
 [B+"numpy_backend.py"], [("complex128 arithmetic", B+"numpy_backend.py")])
prop("C30", "Third-party devices return results equivalent to the simulator",
 "Running a circuit through qiskit, qgate or D-Wave gives the same distribution of results as the bundled simulators.",
 ["programs", "configurations"], "all circuits on all external back ends", "depends on external libraries and services, absent or stubbed here",
 [B+"ibmq_backend.py", B+"qgate_backend.py", "blueqat/wq.py"], [("external calls", "several")])
prop("C31", "A variational run returns the minimiser's parameters, circuit, probabilities",
 "Vqe.run() gives the minimiser the ansatz's objective for the run's sampler and the ansatz's number of parameters, and returns a result whose params are what the minimiser returned and whose circuit is the ansatz's circuit for them; verbose=True changes no value, and the deprecated Vqe.result is the last run's result (an empty one before). "
 "VqeResult.get_probs() computes the probabilities of that circuit's qubits with the sampler given to it, else the run's, else exactly; it keeps them and returns the kept ones until rerun=True or a sampler is given, and store=False leaves the kept ones alone. "
 "most_common(n) lists the n most probable outcomes (one by default) in descending order, and get_scipy_minimizer() hands its options to scipy, starts from n_params values and returns scipy's x.",
 ["inputs", "histories"], "all ansatzes, minimisers, samplers and sequences of calls on the result",
 "tests run complete optimisations and look at the final outcome only; which sampler was used, what was stored and what the minimiser received is invisible to them",
 ["blueqat/vqe.py"], [("Vqe.run, VqeResult, get_scipy_minimizer", "blueqat/vqe.py")])
prop("C32", "Simulated annealing makes Metropolis moves of the QUBO and records its energies",
 "wq.Opt.run() starts every shot from a random assignment and, while the temperature (starting from Ts and multiplied by R after every sweep of ite moves) is above the target, flips a randomly chosen bit exactly when that lowers the QUBO's value or a fresh uniform draw is below exp(-increase/temperature). "
 "E holds, for every shot, the QUBO values of the initial assignment and of the one after every temperature, and the returned list of 0s and 1s is the final assignment (one list, or one per shot). The QUBO itself is not modified and an earlier run or another problem leaves no trace in a later one.",
 ["inputs", "histories"], "all upper-triangular QUBO matrices, initial assignments, move choices and random draws",
 "tests only compare the outcome of complete anneals of tiny problems, which hardly depends on single moves",
 ["blueqat/wq.py"], [("Opt.run", "blueqat/wq.py")])
prop("C33", "The ibmq backend hands circuit and options to Qiskit and returns what is asked",
 "Running a circuit with the ibmq backend reads exactly the circuit's OpenQASM text into Qiskit and executes it on the given qiskit_backend (Aer's qasm_simulator by default) with the given number of shots (1024 by default) and all other options unchanged. "
 "returns='shots' (the default), 'draw', 'qiskit_circuit', 'qiskit_job' and 'qiskit_result' give what they name and start no further work, '_exception' gives None when Qiskit can be imported, and any other value raises ValueError before Qiskit is used. Every run makes its own job for the circuit as it is then.",
 ["inputs", "configurations"], "all circuits and all combinations of options",
 "the tests need an installed Qiskit and look only at counts of a few circuits",
 [B+"ibmq_backend.py", B+"qasm_parser_backend_generator.py"], [("_qasm_runner_qiskit", B+"ibmq_backend.py")])
prop("C34", "Symbolic QUBO conversions preserve the value of every bit assignment",
 "make_qs() gives the symbols q0, q1, ... asked for, and for every polynomial in them optx() and Opt.expand_qubo() (an expression or a text, all powers for the latter and squares for the former) return an expression without powers of bits that has the same value for every assignment of 0 and 1. "
 "For a polynomial with at most two different bits per product, optm(), qn_to_qubo(), Opt.qubo_to_matrix() and Opt.add() of a text give an upper-triangular matrix whose QUBO value is the polynomial's value minus its constant, for every assignment, times the weight and added to what the optimizer holds. "
 "nbody_separation() returns a problem with at most two bits per product that has the original value whenever each supplementary bit is the product it is mapped to, and constraints that are 0 exactly for those assignments and positive for all others.",
 ["inputs"], "all polynomials in the bits and all bit assignments",
 "tests check one or two literal expressions each; sums with squares, missing bits, repeated terms or other orders of sympy's sets of symbols are not sampled",
 ["blueqat/wq.py"], [("optx, optm, qn_to_qubo, make_qs, nbody_separation", "blueqat/wq.py"), ("Opt.expand_qubo, qubo_to_matrix, add", "blueqat/wq.py")])
prop("C35", "Quantum annealing makes and records Metropolis moves of the Trotter system",
 "wq.Opt.sqa() starts `tro` (two or more) copies of the bits from random spins and, while the field G (starting from Gs and multiplied by R after every sweep of ite moves) is above Gf, flips a randomly chosen spin of a randomly chosen copy exactly when that lowers the energy of the Trotter system or a fresh uniform draw is below exp(-increase/Tf). "
 "The energy of that system is the average of the copies' QUBO values minus Tf/2*log(coth(G/(Tf*tro))) times the sum, over neighbouring copies on the ring, of the products of their spins. E holds that energy for the initial spins and after every field strength and nothing from earlier runs, the returned array holds the final spins (-1, 1) of every copy, and neither the QUBO nor the settings are modified.",
 ["inputs", "histories"], "all upper-triangular QUBO matrices, initial spins, move choices and random draws",
 "the tests never call sqa(); even a complete anneal hardly depends on single moves",
 ["blueqat/wq.py"], [("Opt.sqa, Ei_sqa", "blueqat/wq.py")])
prop("C36", "A QUBO is submitted to the D-Wave solver as its own Ising problem",
 "wq.Opt.dw() connects to the optimizer's endpoint, token and solver and submits one Ising problem whose linear coefficient for every bit the solver has stands under that bit's number, whatever other nodes are missing or listed, and whose coupling of every solver edge between two bits is theirs, so that its energy is the QUBO's value up to a constant wherever the solver has the bits and edges. "
 "It returns the first sample's spins of the bits as a list of 0s and 1s and does not modify the QUBO.",
 ["inputs", "configurations"], "all upper-triangular QUBO matrices and solver graphs",
 "the tests cannot reach a D-Wave solver and never call dw()",
 ["blueqat/wq.py"], [("Opt.dw, Opt.qi", "blueqat/wq.py")])
prop("C37", "A custom back end receives the circuit's operations, or fallbacks, in order",
 "A back end written against Backend gets each circuit's operations, width and arguments in its preprocessing, and every operation this returns reaches the back end's action of that name (gate_<name>) exactly once and in order, or, where it has no such action, "
 "the operations of the gate's fallback for the circuit's width do, recursively, in their place. Each action receives the context the one before returned, the result of the run is the postprocessing's, and an operation with neither action nor fallback raises NotImplementedError. "
 "_resolve_fallback gives the same sequence as a list, and neither the circuit nor its operations are changed.",
 ["programs", "configurations"], "all circuits, user-defined gates and sets of actions",
 "the tests' back ends are the built-in ones, which share one mutable context and have an action for most gates",
 [B+"backendbase.py", "blueqat/gate.py", "blueqat/circuit.py"], [("Backend._run, _run_gates, _resolve_fallback", B+"backendbase.py")])
prop("C38", "Copied and pickled objects equal the original and are independent of it",
 "copy.copy, copy.deepcopy and a pickle round trip of Pauli letters, terms and expressions, gates, circuits (used or not), Ops, optimizers and results give an object of the same type that is equal to it and has the same hash, text, operations, width, terms, settings, matrix and results. "
 "After a deep copy or a round trip, changing or running either object leaves the other alone; a copied circuit has the default back end and the attributes of the original and no others.",
 ["inputs", "histories"], "all objects, contents and earlier uses of them",
 "no test pickles or deep-copies a circuit or an expression; the attribute lookup of circuits and the named tuples behind Pauli objects take part in the protocol without a line of code saying so",
 ["blueqat/pauli.py", "blueqat/circuit.py", "blueqat/gate.py", "blueqat/experimental/operations.py"], [("Expr.__getnewargs__, Pauli classes", "blueqat/pauli.py"), ("Circuit.__getattr__", "blueqat/circuit.py")])
prop("C39", "The text of a circuit or Pauli object is the expression that builds it",
 "repr() and str() of a circuit, of Ops and of Pauli letters, terms and expressions are a Python expression (with the package's names) that builds a circuit of the same width with the same gates on the same qubits with the same parameters in the same order, or an equal operator; a gate's text is the part of it after 'Circuit().'. "
 "This holds for every form of targets (integers, tuples, slices, pairs of them) and every numeric parameter or coefficient, real or complex. Options of gates and the order of the pairs of an inverted two-qubit gate have no notation. Making the text changes nothing.",
 ["inputs"], "all circuits with numeric parameters and all Pauli expressions with numeric coefficients",
 "the tests never look at the text of a circuit or gate, and at that of few Pauli expressions",
 ["blueqat/gate.py", "blueqat/circuit.py", "blueqat/pauli.py", "blueqat/experimental/operations.py"], [("Gate.__str__", "blueqat/gate.py"), ("Circuit.__repr__", "blueqat/circuit.py"), ("Term.__repr__, Expr.__repr__", "blueqat/pauli.py")])
prop("C40", "Boltzmann-machine helpers give their statistics and the contrastive update",
 "wq.dbms() and Opt.setRBM() make a QUBO that connects bits of neighbouring layers only, with random values in [0, 1) (or the given weight and diagonal 0.5), and setRBM keeps the sizes of the two layers. rbm_hmodel() gives 1/(1+exp(-(bias+sum of weight*datum))) for every hidden bit, "
 "rbm_data_qubo() the data and these probabilities on the diagonal and their products between the layers, rbm_model_qubo() the averages over the shots of the annealed bits and of the products of visible and hidden bits. "
 "Every epoch of fit() draws one row of the data and replaces the QUBO by alpha*QUBO + epsilon*(statistics of the inverted row - statistics of the model), all taken from the QUBO before; the data are not modified. "
 "rands() is a random upper-triangular QUBO and counter() counts bit lists by their text.",
 ["inputs", "histories"], "all weights, data, samples, numbers of shots and epochs and random draws",
 "the tests never call these functions, and a complete training is random",
 ["blueqat/wq.py"], [("dbms, sigm, rbm_hmodel, rbm_data_qubo, rands, counter", "blueqat/wq.py"), ("Opt.setRBM, rbm_model_qubo, fit", "blueqat/wq.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
