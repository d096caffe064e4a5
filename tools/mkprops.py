"""Regenerates /verif/properties.jsonl (the readable source of the property list)."""
import json, os
B = "src/python/zquantum/core/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=[B+f for f in files],
                          mechanism=[dict(name=n, where=B+w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=B+w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "A gate applied to given qubits acts on exactly those qubits, in that order",
 "Applying a gate operation to an n-qubit state, or asking for its full n-qubit matrix, acts as the gate's own matrix on the listed qubits in the listed order (qubit 0 is the most significant bit of a basis index) and as the identity on every other qubit. This holds for every gate matrix, numeric or symbolic, every tuple of distinct qubits (unsorted, gapped, or not touching the ends) and every n large enough to hold them. A state whose length is not a power of two is rejected, and the input state is not modified.",
 ["inputs"], "every matrix of dimension 2^k, every injective tuple of k qubit indices below n, every n, every state vector",
 "Tests compare a handful of fixed gates and qubit tuples at small n with stored matrices; wrong index order for unsorted or gapped tuples on other sizes or for the symbolic path is not reached.",
 ["circuits/_unitary_tools.py", "circuits/_gates.py"],
 [("permutation to make qubits adjacent, then Kronecker products", "circuits/_unitary_tools.py:_lift_matrix"),
  ("operation lifting and application", "circuits/_gates.py:GateOperation.lifted_matrix/apply")])

prop("C02", "Built-in gates implement their documented unitary for every parameter value",
 "Every built-in gate's matrix equals the documented definition of that gate (Pauli, Hadamard, S, T, rotations RX/RY/RZ/RH, PHASE, U3, CNOT, CZ, SWAP, ISWAP, CPHASE and the XX/YY/ZZ/XY interactions) for all real parameter values, and is unitary. The declared number of qubits matches the matrix size, and a gate declared self-inverse is Hermitian, so that its dagger is itself.",
 ["inputs"], "every built-in gate and every real (or symbolic real) parameter tuple",
 "Tests evaluate the matrices at sampled angles and check unitarity there; they do not fix the definition for all angles and allow sign or angle-scaling changes at untested points.",
 ["circuits/_matrices.py", "circuits/_builtin_gates.py"],
 [("matrix factories", "circuits/_matrices.py"), ("gate table: names, arity, self-inverse flags", "circuits/_builtin_gates.py")])

prop("C03", "Dagger and control wrappers compose to the right unitary at any nesting",
 "The dagger of any gate has the adjoint matrix and controlling a gate by k qubits gives the block matrix that applies it only when all k leading control qubits are 1, for gates nested to any depth and in any order (dagger of controlled, controlled of controlled, dagger of dagger). Wrapped gates report the right number of qubits and the parameters of the gate they wrap, and a non-positive number of controls is rejected.",
 ["inputs", "programs"], "every gate reachable from built-in and custom gates by finitely many dagger/controlled steps, every number of controls",
 "Tests try one or two levels of nesting on a fixed gate list; the property is inductive over the nesting.",
 ["circuits/_gates.py"],
 [("wrapper gates", "circuits/_gates.py:ControlledGate, Dagger"), ("base gate", "circuits/_gates.py:MatrixFactoryGate.controlled/dagger")])

prop("C04", "Binding or replacing parameters is substitution and leaves the rest untouched",
 "Binding symbols in a gate, operation or circuit yields an object whose matrices are the original matrices with those symbols substituted, whatever the mixture of wrappers, custom gates and multi-phase operations, and whose free symbols are the original ones minus those bound (plus any introduced by the bound values). Symbols missing from the map, numeric parameters, gate names, wrapper structure, qubit indices, operation order and circuit width are unchanged, and the original object is not modified. Replacing parameters puts exactly the new parameters in place, in order.",
 ["inputs", "programs"], "every circuit of parametrized operations, every symbol map (partial, extra keys, numeric or symbolic values)",
 "Tests bind full numeric maps on short circuits; partial maps, expressions sharing symbols, nested wrappers and explicit circuit widths are sampled sparsely.",
 ["circuits/_gates.py", "circuits/_operations.py", "circuits/_circuit.py", "circuits/_wavefunction_operations.py"],
 [("parameter substitution", "circuits/_operations.py:sub_symbols"), ("gate bind/replace", "circuits/_gates.py:MatrixFactoryGate/ControlledGate/Dagger.bind,replace_params"),
  ("circuit bind", "circuits/_circuit.py:Circuit.bind"), ("free symbols", "circuits/_operations.py:get_free_symbols")])

prop("C05", "Circuit concatenation preserves order, width and meaning",
 "Adding a circuit or an operation to a circuit gives the operations of the first followed by those of the second, on the larger of the two widths, without modifying either operand; addition is associative and its unitary is the second unitary times the first (for circuits on equally many qubits). A circuit's width is the declared one, or else one more than its largest qubit index, and its unitary is the product of its operations' matrices in time order. Its free symbols are listed once each in order of first use, and circuits are equal exactly when widths and operation sequences are equal.",
 ["inputs", "programs"], "every finite sequence of operations and every declared width",
 "Tests concatenate a few short circuits; order, width and mutation effects over all lengths and widths are not quantified.",
 ["circuits/_circuit.py"],
 [("construction, addition, unitary, free symbols", "circuits/_circuit.py:Circuit, _append_to_circuit")])

prop("C06", "Simulation equals applying operations in order, however the circuit is split",
 "Splitting a circuit by a predicate yields consecutive maximal runs with constant predicate value whose concatenation is exactly the original operation sequence, each on the full width. The simulated wavefunction equals applying every operation in order to the given initial state (|0...0> by default), regardless of which operations are natively supported, and the initial state is not modified. The counters of executed circuits and jobs increase by exactly one per natively executed run. Exact expectation values are those of each term of the operator in the simulated state, in order; exact distributions hold the probabilities of the state, first qubit first; samples are drawn from the state of the circuit bound with the symbols given at the call, and a circuit with unbound symbols is rejected.",
 ["inputs", "programs"], "every circuit mixing native and non-native operations, every initial state, every predicate",
 "Tests use a few circuits with one non-native operation; the split must be right for all interleavings.",
 ["circuits/_circuit.py", "interfaces/backend.py", "symbolic_simulator.py", "circuits/_wavefunction_operations.py"],
 [("split_circuit", "circuits/_circuit.py:split_circuit"), ("simulation loop", "interfaces/backend.py:QuantumSimulator.get_wavefunction"),
  ("multi-phase operation", "circuits/_wavefunction_operations.py:MultiPhaseOperation.apply"), ("symbolic simulator", "symbolic_simulator.py")])

prop("C07", "Circuits survive serialization unchanged",
 "Converting any circuit of built-in, custom, controlled and daggered gates (nested in any order, numeric or symbolic parameters, any width) or any list of circuits to its dictionary/JSON form and back yields an equal circuit with the same unitary, without modifying the original. The serialized form contains only JSON-compatible data and carries every custom gate definition that is used, and two different definitions under one name are rejected rather than silently merged.",
 ["inputs", "programs"], "every serializable circuit or circuit list",
 "Tests round-trip a fixed list of example circuits; nesting, symbol names, parameter expressions and custom definitions outside it are not covered.",
 ["circuits/_serde.py", "circuits/_circuit.py", "circuits/symbolic/translations.py", "circuits/symbolic/sympy_expressions.py"],
 [("to_dict/from_dict", "circuits/_serde.py"), ("custom definitions", "circuits/_circuit.py:Circuit.collect_custom_gate_definitions")])

prop("C08", "Circuit generators and layouts place gates exactly where asked",
 "A layer generator produces exactly one gate per requested qubit in the order the qubits are listed, the i-th distinct qubit with the i-th parameters, on top of the existing circuit without altering it; duplicates are ignored; adding an ancilla register appends exactly the requested number of new qubits and changes nothing else. Nearest-neighbour layouts contain every adjacent pair exactly once and qubits within one layer are disjoint; for the two-dimensional layout every layer's pairs are disjoint and drawn from the connectivity; unknown layer types are rejected. Layers, connectivity and orderings survive saving and loading.",
 ["inputs"], "every width, qubit collection, parameter list and grid size",
 "Tests check particular sizes against stored lists.",
 ["circuits/_generators.py", "circuits/layouts.py"],
 [("layer/ancilla generators", "circuits/_generators.py"), ("layouts", "circuits/layouts.py:build_circuit_layers_and_connectivity")])

prop("C09", "Gate decompositions preserve the circuit's unitary",
 "Decomposing a circuit with the provided rules gives a circuit of the same width that implements the same unitary up to one global phase, for every parameter value, (controlled U3 gates only where the phase of the decomposition, exp(-i(phi+lambda)/2), is one), and contains no operation the provided rule still claims. Operations matched by no rule are passed through unchanged and in order, and rules are applied in the given order to the output of the previous rule.",
 ["inputs", "programs"], "every circuit, every U3 parameter triple, every list of decomposition rules",
 "Tests compare sampled angles for single gates and only up to a phase of the wrapped matrix.",
 ["decompositions/_decomposition.py", "decompositions/_zquantum_decompositions.py"],
 [("rule engine", "decompositions/_decomposition.py:decompose_operations"), ("U3 rule", "decompositions/_zquantum_decompositions.py:U3GateToRotation"), ("circuit-level wrapper", "decompositions/_zquantum_decompositions.py:decompose_zquantum_circuit")])

prop("C10", "Symbolic expressions are translated without changing their value",
 "Translating a symbolic expression into the library's neutral expression tree and back, or evaluating that tree in another dialect, gives an expression with the same value for every assignment of its symbols (numbers, symbols, sums, products, differences, quotients, powers, and the supported functions). Unsupported functions are rejected rather than mistranslated, and the natural ordering of symbol names orders embedded numbers numerically and is a consistent total preorder.",
 ["inputs"], "every expression built from the supported operations, every assignment; every list of symbol names",
 "Tests translate a list of small expressions; argument order and sign/quotient special cases in nested expressions are not quantified.",
 ["circuits/symbolic/sympy_expressions.py", "circuits/symbolic/translations.py", "circuits/symbolic/expressions.py", "circuits/symbolic/_sorting.py"],
 [("sympy to neutral tree", "circuits/symbolic/sympy_expressions.py:expression_from_sympy"), ("tree to dialect", "circuits/symbolic/translations.py:translate_expression"), ("natural ordering", "circuits/symbolic/_sorting.py")])

prop("C11", "A wavefunction is normalized at all times and failed updates change nothing",
 "A wavefunction object always has 2^n amplitudes and total probability one (at most one for the numeric part while symbols remain); construction, element or slice assignment and binding that would break this raise an error and leave the object exactly as it was. Probabilities are the squared magnitudes in basis order, outcome strings (last qubit first) carry the probability of the basis state they name, equality compares all amplitudes, and standard states (zero, Dicke) are the documented ones. Reversing qubit order in a state is an involution that permutes amplitudes by reversing index bits, and saving then loading returns the same state.",
 ["inputs", "histories"], "every amplitude vector, numeric or symbolic, and every sequence of assignments and bindings",
 "Tests try one failing scalar assignment; slices, repeated failures and mixed symbolic states are not covered.",
 ["wavefunction.py"],
 [("normalization check and rollback", "wavefunction.py:Wavefunction.__init__/__setitem__/_check_sanity"), ("binding", "wavefunction.py:Wavefunction.bind"), ("probabilities", "wavefunction.py:get_outcome_probs"), ("reordering", "wavefunction.py:flip_wavefunction")])

prop("C12", "Bitstrings, counts and distributions of measurements agree",
 "The counts of a measurement record give, for each bitstring, how often it occurs, sum to the number of shots, and rebuilding a record from counts or adding counts preserves exactly that multiset; the derived distribution is counts divided by shots. Building a record that represents a distribution with N shots yields exactly N bitstrings drawn from its support, namely the rounded ideal frequencies corrected, in one direction only, by the shots needed to reach N. Saving and loading a record returns the same bitstrings in the same order.",
 ["inputs", "histories"], "every list of bitstrings, every counts dictionary, every distribution and number of shots",
 "Tests use small fixed records; rounding in the exact-N construction is exercised on few distributions.",
 ["measurement.py", "utils.py"],
 [("record/counts", "measurement.py:Measurements"), ("exact-N construction", "measurement.py:Measurements.get_measurements_representing_distribution"), ("conversion", "utils.py:convert_bitstrings_to_tuples, convert_tuples_to_bitstrings")])

prop("C13", "Expectation values and parities from measurements match their definition",
 "For every diagonal operator with real coefficients and measurement record, each reported expectation value is the term's coefficient times the sample mean of the product of (-1)^bit over the term's qubits, each correlation is the sample mean of the product of two terms with both coefficients, and each covariance is the documented difference over the shot count, with or without the sample correction. Parity tallies count even and odd outcomes over the same marked qubits and agree with those means. Concatenating or converting results to real values keeps order and values, and an operator with a non-Z factor is rejected.",
 ["inputs"], "every Ising-type operator, every non-empty record, both covariance normalizations",
 "Tests evaluate a few records and operators.",
 ["measurement.py"],
 [("expectation values", "measurement.py:Measurements.get_expectation_values"), ("parities", "measurement.py:get_parities_from_measurements, check_parity"), ("from parities", "measurement.py:get_expectation_values_from_parities"), ("post-processing", "measurement.py:concatenate_expectation_values, expectation_values_to_real")])

prop("C14", "Outcome distributions stay valid and round-trip",
 "An outcome distribution built from distinct outcomes and finite weights holds only equally long tuples of non-negative integers with non-negative probabilities that sum to one after construction (inputs that are not normalized are rescaled proportionally when asked, inputs that are not distributions are rejected). Reordering, marginal or key conversions and converting probability vectors keep each outcome's probability, without modifying the caller's data. Saving and loading one distribution or a set of them returns the same distributions.",
 ["inputs"], "every dictionary of outcomes to probabilities, every probability vector of length 2^n",
 "Tests use binary keys of small length; multi-level keys, string keys and unnormalized inputs are sampled.",
 ["distribution/_measurement_outcome_distribution.py", "bitstring_distribution.py"],
 [("validation and normalization", "distribution/_measurement_outcome_distribution.py:MeasurementOutcomeDistribution"), ("vector conversion", "distribution/_measurement_outcome_distribution.py:create_bitstring_distribution_from_probability_distribution"), ("I/O", "distribution/_measurement_outcome_distribution.py:save/load")])

prop("C15", "Distances between distributions have the properties of their definitions",
 "The kernel-based discrepancy of binary outcomes equals (p-q)K(p-q) for the stated Gaussian kernel, is symmetric, non-negative and zero for equal distributions, over the union of both supports. The clipped log-likelihood equals minus the sum of target probability times log of the clipped measured probability, and the Jensen-Shannon value is half the sum of that quantity in both directions. Neither argument is modified and iteration order of the dictionaries does not matter.",
 ["inputs"], "every pair of distributions with equal or different supports, every kernel width list and clipping value",
 "Tests compare a few stored values.",
 ["distribution/mmd.py", "distribution/clipped_negative_log_likelihood.py", "distribution/jensen_shannon_divergence.py"],
 [("MMD", "distribution/mmd.py"), ("NLL", "distribution/clipped_negative_log_likelihood.py"), ("JS", "distribution/jensen_shannon_divergence.py")])

prop("C16", "Qubit, Ising and fermion operators form the right algebra",
 "Sums, differences, products, scalar multiples, quotients and powers of operators represent the same combinations of the matrices they denote: same-qubit Pauli factors multiply by the Pauli table, different qubits commute, ladder factors keep their order, and equal terms are merged. Operators given as strings, tuples or lists denote the same thing, and non-in-place arithmetic modifies neither operand. Approximate comparison accepts two operators exactly when corresponding coefficients agree within tolerance, and compression removes only parts of coefficients that are negligible in magnitude.",
 ["inputs", "programs"], "every expression over operators of each kind with numeric or symbolic coefficients",
 "Tests sample individual products and sums; the Pauli algebra over all term pairs and aliasing of operands are not exhausted.",
 ["openfermion/ops/operators/symbolic_operator.py", "openfermion/ops/operators/qubit_operator.py", "openfermion/ops/operators/ising_operator.py", "openfermion/ops/operators/fermion_operator.py"],
 [("ring operations", "openfermion/ops/operators/symbolic_operator.py:SymbolicOperator.__imul__/__iadd__/..."), ("Pauli simplification", "openfermion/ops/operators/qubit_operator.py:QubitOperator._simplify"), ("Ising simplification", "openfermion/ops/operators/ising_operator.py:IsingOperator._simplify"), ("comparison/compression", "openfermion/ops/operators/symbolic_operator.py:isclose, compress")])

prop("C17", "Normal ordering, conjugation and commutators preserve operator meaning",
 "Normal ordering returns an operator with the same matrix whose terms have creation factors before annihilation factors with descending indices and no repeated factor; Hermitian conjugation denotes the adjoint matrix and is an involution. Commutators and anticommutators denote AB-BA and AB+BA, and the Hermiticity test agrees with the matrix being self-adjoint. Inputs are not modified.",
 ["inputs"], "every fermionic, bosonic-free qubit or interaction operator",
 "Tests check short products; ladder strings with repeated or far-apart indices in other orders are not covered.",
 ["openfermion/transforms/opconversions/term_reordering.py", "openfermion/utils/operator_utils.py", "openfermion/utils/commutators.py"],
 [("normal ordering", "openfermion/transforms/opconversions/term_reordering.py:normal_ordered"), ("conjugation", "openfermion/utils/operator_utils.py:hermitian_conjugated"), ("commutators", "openfermion/utils/commutators.py")])

prop("C18", "Fermion-to-qubit mappings respect the fermionic algebra and agree",
 "The Jordan-Wigner and Bravyi-Kitaev images of ladder operators satisfy the canonical anticommutation relations, and each map is linear and multiplicative, so the image of any fermionic operator has the same spectrum as the original. The direct routes from interaction operators (Jordan-Wigner of tensors, reverse Jordan-Wigner, interaction-operator extraction) agree with going through the fermionic operator for self-adjoint tensors. Tensor representations add, subtract, scale and rotate like the operators they stand for, and freezing orbitals restricts the operator to them. Projecting tensors keeps exactly the entries whose set of indices is selected, and enumerating distinct terms yields one of each symmetry class. Mapping does not modify its input.",
 ["inputs"], "every fermionic or interaction operator on every number of modes",
 "Tests check small numbers of modes and selected terms; index arithmetic in the tree-based encoding varies with the number of modes.",
 ["openfermion/transforms/opconversions/jordan_wigner.py", "openfermion/transforms/opconversions/bravyi_kitaev.py", "openfermion/transforms/opconversions/reverse_jordan_wigner.py", "openfermion/transforms/repconversions/conversions.py", "openfermion/ops/representations/polynomial_tensor.py", "openfermion/transforms/repconversions/operator_tapering.py"],
 [("Jordan-Wigner", "openfermion/transforms/opconversions/jordan_wigner.py"), ("Bravyi-Kitaev", "openfermion/transforms/opconversions/bravyi_kitaev.py"), ("inverse", "openfermion/transforms/opconversions/reverse_jordan_wigner.py"), ("tensor conversion", "openfermion/transforms/repconversions/conversions.py")])

prop("C19", "Operator conversions, matrices and saved files denote the same operator",
 "Converting an operator to a sparse matrix, expanding a matrix into Pauli terms, changing operator type, reversing qubit order, building Pauli circuits from terms and computing expectation values all denote the same operator under the convention that qubit 0 is the most significant bit. Spectra and lowest eigenstates computed from an operator are those of its matrix. Reversing qubit order is an involution that maps index i to n-1-i and rejects too small n. Saving and loading operators, lists of operators and interaction operators or density matrices returns equal objects.",
 ["inputs"], "every operator, every matrix of dimension 2^n, every qubit count",
 "Tests use a few operators; conventions are only checked on symmetric or tiny cases.",
 ["openfermion/zapata_utils/_utils.py", "openfermion/zapata_utils/_io.py", "openfermion/linalg/sparse_tools.py", "openfermion/utils/operator_utils.py"],
 [("conversions", "openfermion/zapata_utils/_utils.py"), ("I/O", "openfermion/zapata_utils/_io.py"), ("sparse matrices", "openfermion/linalg/sparse_tools.py")])

prop("C20", "Measurement grouping partitions the operator into co-measurable groups",
 "Grouping an operator's terms puts every term, with its coefficient, into exactly one group, and within each group any two terms act with the same Pauli on every qubit they share, for every sorting option. The measurement-basis circuit of a group turns each of its terms into the diagonal operator measured in its place, with the same coefficient, and groups of differing bases are never merged. Per-group sampling statistics (counts, variances and totals) follow the coefficients they are defined from.",
 ["inputs"], "every qubit operator with any number of terms, every sorting strategy",
 "Tests group a few operators; greedy grouping must be right for all term orders.",
 ["hamiltonian.py", "estimation/_estimation.py"],
 [("greedy grouping", "hamiltonian.py:group_comeasureable_terms_greedy"), ("co-measurability", "hamiltonian.py:is_comeasureable"), ("basis change", "estimation/_estimation.py:perform_context_selection, hamiltonian.py"), ("statistics", "hamiltonian.py:compute_group_variances, estimate_nmeas_for_frames")])

prop("C21", "Shot allocation distributes exactly the available budget",
 "Allocating a total number of shots in proportion to weights gives non-negative integers that sum to exactly the total and differ from the exact proportion by less than one each. Allocation rules keep every task's operator and circuit and the order of tasks, change only the number of shots, and reject a non-positive budget or weights that do not match the tasks.",
 ["inputs"], "every weight vector, every budget, every list of tasks",
 "Tests check sums for a few weight vectors; rounding ties and sizes are not quantified.",
 ["utils.py", "estimation/_estimation.py"],
 [("proportional rounding", "utils.py:scale_and_discretize"), ("allocation rules", "estimation/_estimation.py:allocate_shots_uniformly, allocate_shots_proportionally")])

prop("C22", "Estimation returns one result per task, in task order, with the right value",
 "Estimating a list of tasks returns exactly one result per task in the order given, regardless of how tasks with and without measurable parts are interleaved; tasks that need no measurement contribute their constant, and other tasks contribute the expectation values computed from their own circuit's samples with their own number of shots. Binding, basis-change and grouping preprocessors act on each task separately and leave the inputs unchanged. The exact estimator agrees with the operator's expectation in the simulated state.",
 ["inputs", "programs"], "every list of tasks, every pattern of measurable and constant tasks, every preprocessor chain",
 "Tests use lists of a few tasks in favourable order.",
 ["estimation/_estimation.py"],
 [("split and reorder", "estimation/_estimation.py:split_estimation_tasks_to_measure, estimate_expectation_values_by_averaging"), ("constant tasks", "estimation/_estimation.py:evaluate_non_measured_estimation_tasks"), ("preprocessors", "estimation/_estimation.py:evaluate_estimation_circuits, group_..., get_context_selection_circuit")])

prop("C23", "Cost functions evaluate the requested operator at the given parameters",
 "A cost function's value is the sum of the estimated expectation values of its tasks with the i-th parameter bound to the i-th circuit symbol in the documented ordering, after adding the fixed parameters and the documented noise if requested. The caller's parameter array is never modified, repeated evaluations do not influence each other, and every preprocessor is applied once in the given order. Helper functions that merge, fix or relabel parameters keep every value at its position.",
 ["inputs", "histories"], "every ansatz or parametrized circuit, every parameter vector, every preprocessor list, every sequence of calls",
 "Tests evaluate one or two ansatzes with few symbols, where alphabetical and numeric order coincide.",
 ["cost_function.py", "utils.py", "interfaces/ansatz_utils.py"],
 [("cost functions", "cost_function.py:create_cost_function, get_ground_state_cost_function, AnsatzBasedCostFunction"), ("task factories", "cost_function.py:substitution_based_estimation_tasks_factory, dynamic_ansatz_estimation_tasks_factory"), ("symbol map", "utils.py:create_symbols_map"), ("fixing parameters", "interfaces/ansatz_utils.py:combine_ansatz_params")])

prop("C24", "Gradients and time-evolution derivatives equal their defining formulas",
 "The numerical gradient's i-th component is the central difference of the function along the i-th coordinate with the given step, evaluated at otherwise unchanged parameters, and the caller's parameters are not modified. The time-evolution derivative returns circuits and factors whose weighted sum of expectation values is the derivative of the Trotterized evolution with respect to time.",
 ["inputs"], "every function, dimension, parameter vector, step; every Hamiltonian, evolution time and number of Trotter steps",
 "Tests check quadratics and few Hamiltonians at sampled times.",
 ["gradients.py", "evolution.py"],
 [("finite differences", "gradients.py:finite_differences_gradient"), ("derivative circuits", "evolution.py:time_evolution_derivatives")])

prop("C25", "Time evolution applies each term's exponential the right number of times",
 "The evolution circuit of a single Pauli term implements exp(-i t c P) up to the global phase of the identity term, for every Pauli string, real coefficient and numeric or symbolic time. The evolution circuit of a Hamiltonian with N Trotter steps is N repetitions of the product over its terms, in term order, of the exponentials for time t/N. Unsupported methods are rejected, and so are operators with several terms where a single term is expected.",
 ["inputs"], "every Pauli string on every set of qubits, every coefficient, every time (symbolic too), every number of steps",
 "Tests compare a few Hamiltonians and times numerically.",
 ["evolution.py"],
 [("term evolution", "evolution.py:time_evolution_for_term"), ("Trotter product", "evolution.py:time_evolution")])

prop("C26", "Recording history never changes results and records every requested call",
 "Wrapping a function in a recorder returns the same values and gradients as the wrapped function, passes each artifact through, and records, in call order and with consecutive numbers, exactly the calls selected by the save condition, with the parameters and value of the call. Calls to function and gradient are recorded separately, artifacts belong to the call that stored them, and combining histories keeps order. Optional augmentations (logging and other side effects) of the function and of its gradient act only when their condition holds and leave values and attributes of the wrapped function accessible. Minimising through the optimizer interface preprocesses the function, records it exactly when history is requested, and hands on the start and the flag; the result lists the recorded calls of function and gradient. A copy of a recorder has the function, condition, call count and entries of the original and goes on counting from there; a deep copy shares no history with it.",
 ["histories", "inputs"], "every sequence of calls to function and gradient, every save condition, artifacts stored or not",
 "Tests run short call sequences; interleaved function, gradient and artifact calls are not covered.",
 ["history/recorder.py", "history/save_conditions.py", "interfaces/optimizer.py", "interfaces/functions.py", "cost_function_augmentations.py"],
 [("recorders", "history/recorder.py"), ("save conditions", "history/save_conditions.py"), ("history merging", "interfaces/optimizer.py:construct_history_info, extend_histories"), ("augmentations", "cost_function_augmentations.py")],
 state=[("history, call counter, stored artifacts", "what has been recorded so far", "history/recorder.py:SimpleRecorder")])

prop("C27", "A cached ansatz circuit always reflects the current settings",
 "Reading an ansatz's parametrized circuit after any sequence of changes to its circuit-defining settings gives the circuit for the current settings, and re-reading without changes does not rebuild it. The executable circuit for a parameter vector binds the i-th parameter to the i-th symbol in the ansatz's documented ordering, the number of parameters equals the number of free symbols, and a negative number of layers or missing parameters are rejected.",
 ["histories", "inputs"], "every sequence of attribute changes and circuit reads, every parameter vector",
 "Tests change one property once.",
 ["interfaces/ansatz.py", "interfaces/ansatz_utils.py"],
 [("cache", "interfaces/ansatz.py:Ansatz.parametrized_circuit"), ("invalidation", "interfaces/ansatz_utils.py:ansatz_property, invalidates_parametrized_circuit"), ("binding", "interfaces/ansatz.py:Ansatz.get_executable_circuit")],
 state=[("cached parametrized circuit", "circuit for the current settings or nothing", "interfaces/ansatz.py:Ansatz._parametrized_circuit")])

prop("C28", "Number, bitstring and array conversions are exact inverses",
 "Converting between integers and bit lists of a given positive length is inverse in both directions, most significant bit first, and rejects numbers that do not fit. Converting non-empty arrays (real or complex, any shape), value estimates and lists to dictionaries or files and back returns equal values, and tuple/bitstring conversions are inverse and order preserving. Unitarity and matrix-comparison helpers accept exactly the matrices they describe within numpy's closeness for the given tolerance.",
 ["inputs"], "every integer, bit list, array and matrix",
 "Tests use small fixed values; boundary values such as powers of two are missed.",
 ["utils.py"],
 [("bit conversions", "utils.py:dec2bin, bin2dec"), ("array/dict", "utils.py:convert_array_to_dict, convert_dict_to_array"), ("value estimates and lists", "utils.py:ValueEstimate, save_list, load_list"), ("matrix helpers", "utils.py:is_unitary, compare_unitary, is_identity")])

prop("C29", "Saved artifacts and graphs load back equal",
 "Encoding any supported artifact (optimization results with histories and artifacts, value estimates, non-empty arrays, outcome distributions, bitstring tuples, lists and name-keyed dictionaries of these) to JSON and decoding it gives an equal object, sequences coming back as lists, whatever the nesting, and saving does not change the saved object. Saving and loading a graph returns the same nodes, edges and weights, node numbering is a bijection in node order, generated graphs have the requested shape with one sampled weight per edge, and graph comparison accepts a copy and rejects a graph with other nodes or edges.",
 ["inputs"], "every supported artifact and nesting, every graph",
 "Tests encode a few objects and small graphs.",
 ["serialization.py", "graph.py"],
 [("encoder/decoder", "serialization.py:OrquestraEncoder, OrquestraDecoder, save_optimization_results, load_optimization_results"), ("graphs", "graph.py")])

prop("C30", "Backends count and track every run without altering results",
 "A backend counts every executed (non-empty) circuit and job exactly once (one job per started batch when batching), also through the derived calls, and rejects a non-positive number of samples without counting. Running a set of circuits with one number of samples per circuit returns one result per circuit in order with the number of samples requested for it. A tracking wrapper returns exactly what the wrapped backend returns, forwards every argument, and writes to its file the circuit, counts and sizes of the runs it just made.",
 ["histories", "inputs"], "every sequence of calls, every list of circuits and sample sizes, every batch size",
 "Tests call each method once or twice.",
 ["interfaces/backend.py", "trackers.py", "interfaces/mock_objects.py"],
 [("counters and batching", "interfaces/backend.py:QuantumBackend"), ("tracking", "trackers.py:MeasurementTrackingBackend")],
 state=[("circuit and job counters", "work executed so far", "interfaces/backend.py:QuantumBackend.__init__")])

prop("C31", "Model Hamiltonians and coupled-cluster generators are their defining sums",
 "The Fermi-Hubbard model on any grid is the sum over the edges of the grid graph (each edge once, also across the boundary of periodic grids and when a dimension is 1 or 2) and over its sites that its documentation gives, spinful or spinless, with or without particle-hole symmetric repulsion. Number and interaction operators act on exactly the given modes. A coupled-cluster generator is the sum of the given excitations, from lists or arrays, minus their conjugates when it is anti-Hermitian. The singlet generator is made of the spin-summed excitations from occupied to virtual spatial orbitals, their squares and their products, in the order in which amplitudes are packed and counted, and conserves particle number and spin.",
 ["inputs"], "every grid, boundary condition and set of amplitudes; every list or array of excitation amplitudes; every even number of spin orbitals and number of electrons in them",
 "Tests build a few fixed small grids and fixed amplitudes; other shapes, boundary conditions, odd electron numbers and larger orbital spaces are not reached.",
 ["openfermion/hamiltonians/hubbard.py", "openfermion/hamiltonians/special_operators.py", "openfermion/hamiltonians/general_hubbard.py", "openfermion/circuits/unitary_cc.py", "openfermion/utils/indexing.py"],
 [("lattice neighbours and sums", "openfermion/hamiltonians/hubbard.py"), ("number operators", "openfermion/hamiltonians/special_operators.py:number_operator, general_hubbard.py"), ("excitations", "openfermion/circuits/unitary_cc.py")])

prop("C32", "Molecular integrals, reduced Hamiltonians and density matrices agree",
 "Spin-orbital tensors made from real spatial integrals give every entry to exactly the spin-conserving index combinations, so that the operator is the documented spin-summed Hamiltonian. Restricting to an active space with doubly occupied core orbitals, directly or through a molecule, gives the same matrix elements as the full Hamiltonian between states with that core, and leaves the given integrals unchanged. The reduced Hamiltonian for n electrons (n at least 2) acts on n-electron states as the original operator. A reduced density matrix evaluates interaction operators and qubit operators to the expectation value of the state it comes from, the density matrix rebuilt from qubit expectation values is that of the state (expectation values that are not given count as zero), and a molecule made from an interaction operator, or saved and loaded back, holds the same data.",
 ["inputs", "histories"], "every real integral tensor, active and occupied set, number of electrons, self-adjoint interaction operator and particle-number state",
 "Tests compare stored integrals of one or two molecules.",
 ["openfermion/ops/representations/interaction_operator.py", "openfermion/ops/representations/interaction_rdm.py", "openfermion/measurements/get_interaction_rdm.py", "openfermion/chem/molecular_data.py", "openfermion/chem/reduced_hamiltonian.py"],
 [("spin-orbital tensors and active spaces", "openfermion/ops/representations/interaction_operator.py:get_tensors_from_integrals, get_active_space_integrals"), ("density matrices", "openfermion/ops/representations/interaction_rdm.py, openfermion/measurements/get_interaction_rdm.py"), ("reduced Hamiltonian", "openfermion/chem/reduced_hamiltonian.py"), ("molecules", "openfermion/chem/molecular_data.py:MolecularData, spinorb_from_spatial")],
 state=[("molecular data file", "the molecule's metadata, integrals and results", "openfermion/chem/molecular_data.py:MolecularData.save, load")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
