"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

GATES = ["projectq/ops/_gates.py", "projectq/ops/_basics.py"]
ANG = "unit tests sample a handful of angles; the statement is for every real angle"

p("G01", "Every gate's matrix is its documented operator",
  "For every built-in gate and every real parameter value, the matrix the gate exposes is unitary and equals the operator its documentation defines (fixed gates, rotations with half-angle convention, phase gates, two-qubit rotations, square roots, entry order with the first qubit as least significant bit). Angles are normalised without changing the operator: rotations are 4*pi periodic and phases 2*pi periodic.",
  ["inputs"], "every built-in gate, every real angle (all windings)", ANG, GATES,
  [("gate matrices", "projectq/ops/_gates.py"), ("angle normalisation", "projectq/ops/_basics.py")], "gate.matrix, gate.angle")
p("G02", "The inverse of a gate undoes it exactly",
  "For every gate that offers an inverse, applying the gate and then its inverse is exactly the identity, including global phase, so it stays correct under additional controls. Taking the inverse twice gives back the same operation, and gates with irreversible effects never offer an inverse.",
  ["inputs"], "every built-in gate, every parameter value", ANG,
  GATES + ["projectq/ops/_metagates.py", "projectq/ops/_time_evolution.py", "projectq/ops/_qubit_operator.py"],
  [("get_inverse", "projectq/ops"), ("DaggeredGate", "projectq/ops/_metagates.py")], "get_inverse(gate)")
p("G03", "Merging two gates equals applying them one after the other",
  "Whenever two consecutive gates agree to be merged, the merged gate is exactly the operator of applying the first and then the second, including global phase and order for non-commuting operands. Gates whose product cannot be expressed refuse to merge.",
  ["inputs"], "all ordered pairs of built-in gates, every parameter value", ANG,
  GATES + ["projectq/ops/_uniformly_controlled_rotation.py", "projectq/ops/_time_evolution.py", "projectq/ops/_qubit_operator.py"],
  [("get_merged", "projectq/ops")], "gate.get_merged(other)")
p("G04", "Gates that compare equal or claim to be identity act that way",
  "Two gates that compare equal implement the same operation (up to the documented numerical tolerance), equal hashable gates have equal hashes, and a gate that reports being the identity acts as the identity operator (not -1 times it). Gates with different parameters outside the tolerance never compare equal.",
  ["inputs"], "all pairs of built-in gates, every parameter value", ANG, GATES + ["projectq/ops/_metagates.py", "projectq/ops/_uniformly_controlled_rotation.py"],
  [("__eq__/__hash__/is_identity", "projectq/ops")], "gate == other, hash(gate), gate.is_identity()")
p("C01", "Control patterns select exactly the requested basis states",
  "A control pattern given as an integer, a bit string or the all-zero/all-one shorthand denotes one well-defined bit per control qubit, in the order of the control qubits given, and a controlled operation acts exactly on the basis states whose control bits match and nowhere else. Patterns of the wrong length or value and conflicting requirements for the same qubit are rejected.",
  ["inputs", "programs"], "all control counts up to the bound, all patterns, all qubit-id orderings",
  "tests use a few patterns on qubits that are already in id order", ["projectq/meta/_control.py", "projectq/ops/_command.py"],
  [("canonical_ctrl_state", "projectq/meta/_control.py"), ("Command control ordering", "projectq/ops/_command.py")], "commands received by the next engine / simulator state")
p("C02", "Copying, inverting and merging commands keeps controls and tags",
  "An applied operation keeps its target qubits, control qubits, control pattern and tags when it is copied, inverted or merged with another one, and two applied operations compare equal only if they have the same effect (same gate, targets, controls with the same required values, tags). Exchanging interchangeable target qubits or the order in which controls are listed never changes the meaning or the equality.",
  ["programs"], "all orderings of target/control ids, all control patterns", "tests look at a few fixed commands with all-one controls",
  ["projectq/ops/_command.py"], [("Command", "projectq/ops/_command.py")], "Command objects reaching engines")
p("M01", "Control blocks condition every operation inside them",
  "Running a program fragment inside a control block applies the fragment exactly when the control qubits have the requested values and does nothing otherwise, for every nesting of control blocks, every control pattern and every mixture with compute/uncompute and inversion blocks. Allocation and release of helper qubits inside the block is not conditioned, and control qubits that were released or duplicated are rejected.",
  ["programs", "inputs"], "every fragment over a gate alphabet up to the bound, all patterns, all initial states",
  "tests compare a few concrete command lists", ["projectq/meta/_control.py", "projectq/meta/_compute.py", "projectq/ops/_metagates.py"],
  [("Control", "projectq/meta/_control.py"), ("ControlledGate, C()", "projectq/ops/_metagates.py")], "unitary of the received circuit")
p("M02", "Inverted blocks implement the exact inverse of their contents",
  "A program fragment run inside an inversion block acts as the exact inverse (including controlled phases and control patterns) of the same fragment run directly, including nested inversion, control and compute blocks and locally allocated helper qubits. Fragments that cannot be inverted (measurements, unbalanced allocation) are rejected rather than silently mis-inverted.",
  ["programs", "inputs"], "every fragment over a gate alphabet up to the bound, all angles, all initial states",
  "tests compare a few concrete command lists", ["projectq/meta/_dagger.py"], [("Dagger", "projectq/meta/_dagger.py")], "unitary of the received circuit")
p("M03", "Compute/action/uncompute restores helper state exactly",
  "A compute section followed by an action and an uncompute section has the effect of the computation, the action and the exact inverse of the computation, also when the whole is controlled or inverted (where compute and uncompute may stay uncontrolled). Helper qubits allocated in the compute section are available in the action and released exactly once, and misuse (missing or repeated uncompute, leaking qubits) is reported.",
  ["programs", "inputs"], "every fragment over a gate alphabet up to the bound, all angles, all initial states",
  "tests compare a few concrete command lists", ["projectq/meta/_compute.py"], [("Compute/Uncompute/CustomUncompute", "projectq/meta/_compute.py")], "unitary and allocation events of the received circuit")
p("M04", "Loop blocks equal repeating their body",
  "A loop block has exactly the effect of its body executed the requested number of times, both when the following engines support loops natively and when the loop is unrolled, for nested loops, control patterns and locally allocated helper qubits. Iteration counts that are not positive integers and qubits that escape the body are handled as documented.",
  ["programs"], "all repetition counts up to the bound and bodies over a gate alphabet", "tests use one or two bodies and counts",
  ["projectq/meta/_loop.py"], [("Loop", "projectq/meta/_loop.py")], "commands/unitary received by the next engine")
p("D01", "Every built-in decomposition rule preserves the operation",
  "For every built-in decomposition rule, whenever it accepts an operation, the replacement circuit has exactly the same effect on every input state, for every parameter value, register size within bounds, additional control qubits and control pattern; global phase may differ only where the operation is not controlled. Helper qubits introduced are returned to zero.",
  ["inputs", "programs"], "every rule, every parameter value, all states", ANG, ["projectq/setups/decompositions"],
  [("decomposition rules", "projectq/setups/decompositions")], "unitary of the replacement circuit")
p("D02", "Arbitrary (controlled) one-qubit unitaries are decomposed correctly",
  "For every one-qubit unitary matrix the rotation decomposition reproduces it up to a global phase, and the decomposition of its controlled version reproduces the controlled operation exactly including the relative phase. This includes all degenerate matrices (diagonal, anti-diagonal, real, negative determinant).",
  ["inputs"], "all 2x2 unitaries including degenerate ones", "tests sample a list of matrices",
  ["projectq/setups/decompositions/arb1qubit2rzandry.py", "projectq/setups/decompositions/carb1qubit2cnotrzandry.py"],
  [("arb1qubit2rzandry", "projectq/setups/decompositions/arb1qubit2rzandry.py"), ("carb1qubit2cnotrzandry", "projectq/setups/decompositions/carb1qubit2cnotrzandry.py")], "unitary of the replacement circuit")
p("D03", "State preparation and uniformly controlled rotations hit their target",
  "Preparing a register in a given normalised state yields exactly those amplitudes with their phases from the all-zero state, and a uniformly controlled rotation applies to the target, for each value of the control register, the rotation listed for that value. Both also hold when the operation is itself controlled or inverted.",
  ["inputs"], "all angle lists / amplitude vectors for register sizes within bounds", "tests use random vectors at fixed seeds",
  ["projectq/setups/decompositions/stateprep2cnot.py", "projectq/setups/decompositions/uniformlycontrolledr2cnot.py", "projectq/ops/_uniformly_controlled_rotation.py"],
  [("ucr", "projectq/setups/decompositions/uniformlycontrolledr2cnot.py"), ("stateprep", "projectq/setups/decompositions/stateprep2cnot.py")], "unitary of the replacement circuit")
p("D04", "Fourier transform, phase estimation, amplification do what they say",
  "The Fourier transform gate implements the discrete Fourier transform in the library's bit order on every register size; phase estimation applied to an eigenstate writes the phase distribution of that eigenvalue into the readout register and leaves the eigenstate intact; amplitude amplification performs the requested number of iterations of the documented operator. All hold for every eigenphase and starting state.",
  ["inputs", "programs"], "register sizes within bounds, every eigenphase", "tests use a few phases with sampling tolerances",
  ["projectq/setups/decompositions/qft2crandhadamard.py", "projectq/setups/decompositions/phaseestimation.py", "projectq/setups/decompositions/amplitudeamplification.py"],
  [("QFT/QPE/QAA rules", "projectq/setups/decompositions")], "unitary/state of the replacement circuit")
p("D05", "Time evolution and Pauli operators act as exp(-iHt) and as the operator",
  "Applying a time evolution under a Hamiltonian of commuting Pauli terms implements exp(-i t H) exactly, including the phase of identity terms when controlled, for every evolution time and coefficients; evolution times add up when merged and invert by negation. Applying a Pauli-product operator to a register applies exactly those Paulis to the referenced qubits with its phase.",
  ["inputs", "programs"], "all Pauli strings up to the bound, all real times and coefficients", "tests sample a few Hamiltonians and times",
  ["projectq/ops/_time_evolution.py", "projectq/ops/_qubit_operator.py", "projectq/setups/decompositions/time_evolution.py", "projectq/setups/decompositions/qubitop2onequbit.py"],
  [("TimeEvolution", "projectq/ops/_time_evolution.py"), ("decomposition", "projectq/setups/decompositions/time_evolution.py")], "unitary of the received circuit")
p("R01", "Compiling to a restricted gate set keeps meaning and obeys the gate set",
  "Compiling any program with the provided compilation setups yields a circuit that has the same effect (up to global phase) as the source program and contains only operations allowed by the chosen gate set and supported by the back-end. Operations for which no route exists raise an error instead of being dropped or passed through.",
  ["programs", "inputs", "configurations"], "programs over the gate alphabet incl. control patterns, all angles, the shipped setups", "tests compile a few programs per setup",
  ["projectq/setups", "projectq/cengines/_replacer"], [("AutoReplacer/InstructionFilter", "projectq/cengines/_replacer/_replacer.py"), ("setups", "projectq/setups")], "commands received by the back-end")
p("R02", "Decomposition rules are selected by applicability and inverse",
  "The automatic replacer applies a rule to an operation only if the rule is registered for the operation's class (or for a class it specialises, or for the inverse operation, in which case the inverted circuit is used) and its recogniser accepts it; operations the rest of the pipeline supports are left untouched. Tags of the replaced operation are carried over to every replacement operation.",
  ["programs", "configurations"], "rule sets and gate hierarchies up to the bound", "tests use two hand-made rule sets",
  ["projectq/cengines/_replacer"], [("AutoReplacer", "projectq/cengines/_replacer/_replacer.py"), ("DecompositionRuleSet", "projectq/cengines/_replacer/_decomposition_rule_set.py")], "commands received by the next engine")
p("O01", "Local optimisation never changes what a circuit does",
  "For every gate sequence, cache size and flush point, the circuit that leaves the local optimiser has the same effect (exactly, including control patterns and controlled phases) as the one that entered, keeps the order of operations on every qubit up to cancellations and merges, and after a flush nothing is withheld, duplicated or lost.",
  ["programs", "inputs", "configurations"], "all gate sequences over the alphabet up to the bound, all angles, several cache sizes", "tests run a few short sequences",
  ["projectq/cengines/_optimize.py", "projectq/ops/_command.py"], [("LocalOptimizer", "projectq/cengines/_optimize.py")], "commands received by the next engine")
p("O02", "Optimisation respects measurement, allocation and release",
  "Gates are never moved across a measurement, allocation or release of the same qubit, never cancelled against each other across one, and operations that must be executed immediately are forwarded at once together with everything they depend on. Gates with different tags or different controls are never merged or cancelled.",
  ["programs", "histories"], "all sequences mixing gates with measurement/allocation/release up to the bound", "tests contain few such mixtures",
  ["projectq/cengines/_optimize.py"], [("LocalOptimizer", "projectq/cengines/_optimize.py")], "commands received by the next engine")
p("L01", "Qubit identities and measurement results are tracked faithfully",
  "Every allocated qubit gets an identity never used before and is announced and released exactly once; a measurement result read for a qubit is the one reported for that qubit's identity, can only be read once it exists (reading it earlier, or releasing a qubit twice through the engine, raises an error). Releasing registers, clean-up at program end and weak copies never release a qubit twice or leave one unreleased.",
  ["histories", "programs"], "all allocate/measure/release histories up to the bound", "tests run a few histories",
  ["projectq/cengines/_basics.py", "projectq/cengines/_main.py", "projectq/types/_qubit.py"], [("MainEngine", "projectq/cengines/_main.py"), ("Qubit", "projectq/types/_qubit.py")], "commands received by the back-end, int(qubit)")
p("P01", "Linear mapping preserves the program and the chain connectivity",
  "The circuit produced for a linear or ring-shaped chain uses two-qubit operations only between neighbours, has, after translating qubit identities with the reported mapping, exactly the effect of the original program for every sequence of one- and two-qubit operations, allocations, releases and cache limits, and reports each measurement under the identity of the original qubit.",
  ["programs", "configurations"], "all interaction sequences up to the bound on chains up to the bound", "tests use fixed small circuits",
  ["projectq/cengines/_linearmapper.py", "projectq/cengines/_basicmapper.py"], [("LinearMapper", "projectq/cengines/_linearmapper.py")], "commands received by the next engine, current_mapping")
p("P02", "Grid mapping preserves the program and the grid connectivity",
  "The circuit produced for a two-dimensional grid uses two-qubit operations only between grid neighbours (after translating back-end labels), has, after translating qubit identities with the reported mapping, exactly the effect of the original program for every sequence of operations, allocations, releases and cache limits, and reports each measurement under the identity of the original qubit. Moving qubits between any two placements is done with neighbour swaps only and ends in exactly the requested placement.",
  ["programs", "configurations"], "all interaction sequences and placements up to the bound on grids up to the bound", "tests use fixed or randomly sampled cases",
  ["projectq/cengines/_twodmapper.py", "projectq/cengines/_basicmapper.py"], [("GridMapper", "projectq/cengines/_twodmapper.py")], "commands received by the next engine, current_mapping")
p("P03", "Fixed-layout mapping and CNOT flipping respect the device and the program",
  "The five-qubit layout mapper either finds a placement in which every two-qubit operation joins a connected pair and preserves the program, or raises an error; manual and bounded mappers translate identities consistently. Reversing a CNOT or replacing a swap to fit a directed coupling map leaves the effect, controls and tags unchanged and uses only available directions.",
  ["programs", "configurations"], "all CNOT sequences up to the bound, all coupling directions", "tests use fixed circuits",
  ["projectq/cengines/_ibm5qubitmapper.py", "projectq/cengines/_swapandcnotflipper.py", "projectq/cengines/_manualmapper.py", "projectq/backends/_ionq/_ionq_mapper.py"],
  [("IBM5QubitMapper", "projectq/cengines/_ibm5qubitmapper.py"), ("SwapAndCNOTFlipper", "projectq/cengines/_swapandcnotflipper.py")], "commands received by the next engine")
p("S01", "The C++ simulator applies every gate exactly",
  "For every state, every one- to five-qubit gate matrix, every choice and order of target qubits and control qubits, and every grouping of consecutive gates, the compiled simulator's state afterwards is the exact linear-algebra result, in both the vectorised and the portable build. Identities of unrelated qubits and their amplitudes are untouched.",
  ["inputs", "programs"], "all states, all matrices, all qubit placements within the bound", "tests apply a few gates to a few states",
  ["projectq/backends/_sim/_cppkernels", "projectq/backends/_sim/_cppsim.cpp"], [("kernels", "projectq/backends/_sim/_cppkernels"), ("fusion", "projectq/backends/_sim/_cppkernels/fusion.hpp")], "simulator cheat()/amplitudes")
p("S02", "C++ simulator measurement, release and queries follow quantum mechanics",
  "In the compiled simulator a measurement returns an outcome according to the squared amplitudes for the drawn random number, never one of probability zero, and leaves the renormalised projected state; collapse, probability, amplitude, state setting, allocation and release act on exactly the named qubits and reject impossible requests without corrupting the state.",
  ["inputs", "histories"], "all states within the bound, all random draws, all outcome patterns", "tests sample random numbers",
  ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_cppsim.cpp"], [("measure/collapse/deallocate", "projectq/backends/_sim/_cppkernels/simulator.hpp")], "simulator queries")
p("S03", "The Python simulator applies every gate exactly",
  "For every state, gate matrix, choice and order of target and control qubits and interleaving with allocation and release, the pure-Python simulator's state afterwards is the exact linear-algebra result. It gives the same answers as the compiled simulator.",
  ["inputs", "programs"], "all states, all matrices, all qubit placements within the bound", "tests apply a few gates to a few states",
  ["projectq/backends/_sim/_pysim.py"], [("PySim", "projectq/backends/_sim/_pysim.py")], "simulator cheat()/amplitudes")
p("S04", "Python simulator measurement, release and queries follow quantum mechanics",
  "In the pure-Python simulator a measurement returns an outcome according to the squared amplitudes for the drawn random number, never one of probability zero, and leaves the renormalised projected state; collapse, probability, amplitude, state setting, allocation and release act on exactly the named qubits and reject impossible requests without corrupting the state.",
  ["inputs", "histories"], "all states within the bound, all random draws, all outcome patterns", "tests sample random numbers",
  ["projectq/backends/_sim/_pysim.py"], [("measure_qubits etc.", "projectq/backends/_sim/_pysim.py")], "simulator queries")
p("S05", "Expectation values, operator application and time evolution are exact",
  "In both simulators the expectation value of a Pauli-sum operator equals the quantum-mechanical one for every state, applying such an operator yields exactly the transformed state vector, and the emulated time evolution matches exp(-i t H). None of these queries changes the state except where documented.",
  ["inputs"], "all states, all Pauli sums up to the bound, all coefficients", "tests use random states",
  ["projectq/backends/_sim"], [("get_expectation_value/apply_qubit_operator/emulate_time_evolution", "projectq/backends/_sim")], "simulator queries")
p("S06", "Simulator back-end translates programs and queries faithfully",
  "The simulator back-end executes every accepted operation on the qubits, controls and bit order the program names, stores measurement results under the program's qubit identities, and answers probability, amplitude and state queries in the order of the qubits given, also behind a mapper. Operations it cannot execute faithfully (such as unsupported control patterns) are declined or rejected, never mis-executed.",
  ["programs", "inputs", "configurations"], "programs up to the bound, all id permutations of a mapper", "tests use identity mappings mostly",
  ["projectq/backends/_sim/_simulator.py"], [("Simulator", "projectq/backends/_sim/_simulator.py")], "Simulator public queries")
p("S07", "The unitary simulator returns the unitary of the executed circuit",
  "The unitary back-end's reported matrix is the product of the executed gates with the library's qubit order for every gate sequence, control pattern and history of allocations, flushes and measurements it accepts; completed matrices are kept unchanged in its history and measurement obeys the squared amplitudes.",
  ["programs", "histories"], "all gate sequences up to the bound, all angles", "tests use a couple of circuits",
  ["projectq/backends/_unitary.py"], [("UnitarySimulator", "projectq/backends/_unitary.py")], "unitary, history, measured bits")
p("S08", "The classical simulator computes permutations correctly",
  "The classical simulator maps every basis state through multi-controlled NOTs and arithmetic gates exactly as the documented integer functions prescribe, for every register layout and control condition, reads and writes bits of exactly the qubits named, and rejects gates it cannot execute.",
  ["inputs", "programs"], "all register contents and layouts within the bound", "tests use fixed registers",
  ["projectq/backends/_sim/_classical_simulator.py"], [("ClassicalSimulator", "projectq/backends/_sim/_classical_simulator.py")], "read_bit/read_register")
p("A01", "Quantum arithmetic gates compute their documented integer functions",
  "The reversible circuits behind quantum addition, subtraction, comparison, multiplication and division map every pair of register contents to the documented integer result (modulo register size, with the documented carry or flag), leave inputs and helper qubits as documented, act only when their controls are set, and are undone exactly by their inverses.",
  ["inputs"], "all register contents for register sizes within the bound", "tests run a few numbers",
  ["projectq/libs/math/_quantummath.py", "projectq/libs/math/_default_rules.py", "projectq/libs/math/_gates.py"], [("quantum arithmetic", "projectq/libs/math/_quantummath.py")], "basis-state map of the compiled circuit")
p("A02", "Arithmetic with classical constants is correct for every constant",
  "Adding, subtracting, multiplying by classical constants, plain and modulo N, maps every register content satisfying the documented preconditions to the documented integer result, restores helper qubits, respects controls, and is undone exactly by its inverse, for every constant and modulus.",
  ["inputs"], "all constants, moduli and register contents within the bound", "tests run a few numbers",
  ["projectq/libs/math/_constantmath.py", "projectq/libs/math/_default_rules.py", "projectq/libs/math/_gates.py"], [("constant arithmetic", "projectq/libs/math/_constantmath.py")], "basis-state map of the compiled circuit")
p("A03", "Emulated arithmetic agrees with the circuits",
  "The integer function attached to every arithmetic gate (used when a simulator executes it in one step) is a bijection on the register contents and agrees with the gate's documented function, with its circuit and, for inverse gates, with the inverse map; the compiled simulator's specialised versions agree with it for every constant it can represent.",
  ["inputs"], "all register contents and constants within the bound", "tests run a few numbers",
  ["projectq/libs/math/_gates.py", "projectq/backends/_sim/_cppsim.cpp", "projectq/backends/_sim/_simulator.py"], [("BasicMathGate functions", "projectq/libs/math/_gates.py"), ("emulate_math_*", "projectq/backends/_sim/_cppsim.cpp")], "gate math function, simulator state")
p("Q01", "Pauli-operator algebra is the algebra of Pauli matrices",
  "Sums, differences, scalar multiples, products, negation, division, powers-as-products and in-place variants of Pauli-operator expressions denote exactly the corresponding matrices for all operands and complex coefficients, in the written order; in-place forms do not alter other operands. Comparison within tolerance and compression treat operators as their coefficient maps.",
  ["inputs", "programs"], "all Pauli strings up to the bound, all complex coefficients", "tests use fixed examples",
  ["projectq/ops/_qubit_operator.py"], [("QubitOperator", "projectq/ops/_qubit_operator.py")], "terms of the result")
p("B01", "Resource counts equal what was executed",
  "The resource counter reports, for every circuit, exactly the number of each gate (by gate and number of controls) received, the true maximal number of simultaneously live qubits and the true depth of the dependency graph, and passes every operation through unchanged when it is not the last engine.",
  ["programs", "histories"], "all operation sequences up to the bound", "tests use one circuit",
  ["projectq/backends/_resource.py"], [("ResourceCounter", "projectq/backends/_resource.py")], "gate_counts, gate_class_counts, max_width, depth_of_dag")
p("B02", "IBM back-end submits the circuit it was given",
  "The job and assembly text submitted by the IBM back-end describe exactly the operations received, in order, on the mapped qubits and with the right parameters for every angle; operations outside the device's set are declined. Returned counts are turned into measurement results and probabilities under the program's qubit identities and order.",
  ["programs", "inputs"], "all operation sequences up to the bound, all angles, mappings and outcome tables", "tests submit one or two fixed circuits",
  ["projectq/backends/_ibm/_ibm.py"], [("IBMBackend", "projectq/backends/_ibm/_ibm.py")], "submitted job, get_qasm, measurement results, get_probabilities")
p("B03", "AQT back-end submits the circuit it was given",
  "The job submitted by the AQT back-end describes exactly the operations received, in order, on the mapped qubits and with the angle (in units of pi, at the device's two-decimal resolution); operations outside the device's set are declined. Returned samples are turned into measurement results and probabilities under the program's qubit identities and order.",
  ["programs", "inputs"], "all operation sequences up to the bound, all angles, mappings and samples", "tests submit one or two fixed circuits",
  ["projectq/backends/_aqt/_aqt.py"], [("AQTBackend", "projectq/backends/_aqt/_aqt.py")], "submitted job, measurement results, get_probabilities")
p("B04", "IonQ back-end submits the circuit it was given",
  "The job submitted by the IonQ back-end describes exactly the operations received, in order, with targets, controls and rotation for every angle; operations outside the device's set and gates on already measured qubits are rejected, and only those. Returned probabilities are turned into measurement results and probabilities under the program's qubit identities and order.",
  ["programs", "inputs"], "all operation sequences up to the bound, all angles, mappings and outcome tables", "tests submit one or two fixed circuits",
  ["projectq/backends/_ionq/_ionq.py"], [("IonQBackend", "projectq/backends/_ionq/_ionq.py")], "submitted job, measurement results, get_probabilities")
p("B05", "Braket back-end submits the circuit it was given",
  "The program submitted by the Amazon Braket back-end describes exactly the operations received, in order, with targets, controls and angle, using only instructions the selected device offers; other operations are declined. Returned probabilities are turned into measurement results and probabilities under the program's qubit identities and order.",
  ["programs", "inputs", "configurations"], "all operation sequences up to the bound, all angles and devices, outcome tables", "tests submit one or two fixed circuits",
  ["projectq/backends/_awsbraket/_awsbraket.py"], [("AWSBraketBackend", "projectq/backends/_awsbraket/_awsbraket.py")], "submitted program, measurement results, get_probabilities")
p("B06", "Azure back-end submits the circuit it was given",
  "The program submitted by the Azure back-end (both the JSON and the assembly format) describes exactly the operations received, in order, with targets, controls and angle; other operations are declined. Returned results are turned into integer measurement results and probabilities under the program's qubit identities and order, and one job's data never leaks into the next.",
  ["programs", "inputs", "histories"], "all operation sequences up to the bound, all angles, mappings and outcome tables", "tests submit one or two fixed circuits",
  ["projectq/backends/_azure/_azure_quantum.py", "projectq/backends/_azure/_utils.py"], [("AzureQuantumBackend", "projectq/backends/_azure/_azure_quantum.py")], "submitted program, measurement results, get_probabilities")
p("B07", "Printing and drawing back-ends show the circuit and pass it on unchanged",
  "The command printer and the circuit drawers represent every received operation once, in an order consistent with the program, on the qubits it acts on and with its controls, and forward the operations unchanged to a following engine. As last engine they report the measurement outcome entered (or the default) under the program's qubit identity.",
  ["programs", "histories"], "all operation sequences up to the bound", "tests draw one or two fixed circuits",
  ["projectq/backends/_printer.py", "projectq/backends/_circuits"], [("CommandPrinter, CircuitDrawer", "projectq/backends")], "printed text, circuit description, forwarded commands")
p("B08", "Tags and modifiers change only what they say",
  "The tag remover strips exactly the listed tags and nothing else, a command modifier's output is sent in order with nothing lost, and comparison and dummy engines record every operation in order; circuit comparison reports equality exactly for circuits equal up to reordering of operations on disjoint qubits.",
  ["programs"], "all operation sequences up to the bound", "tests use fixed lists",
  ["projectq/cengines/_tagremover.py", "projectq/cengines/_cmdmodifier.py", "projectq/cengines/_testengine.py"], [("TagRemover, CommandModifier, CompareEngine", "projectq/cengines")], "commands received by the next engine")
p("B09", "Clients of remote devices submit once, wait and return their own answer",
  "For every sequence of answers a remote service can give (accepted, refused, running, finished, failed, too slow, empty or foreign), the client of each vendor submits the job exactly once with the description it was given, asks only about that job, stops asking once the job has ended, and returns only that job's answer; refusals, failures, offline or too small devices and exhausted patience end in the documented error or in no result, never in someone else's or invented data.",
  ["inputs", "faults"], "all sequences of service answers within the bound", "tests use a few recorded dialogues",
  ["projectq/backends/_ionq/_ionq_http_client.py", "projectq/backends/_aqt/_aqt_http_client.py", "projectq/backends/_ibm/_ibm_http_client.py", "projectq/backends/_awsbraket/_awsbraket_boto3_client.py", "projectq/backends/_azure/_azure_quantum_client.py"],
  [("send, retrieve", "projectq/backends")], "requests sent to the service, value returned or error raised")
p("K01", "Reversible-logic oracles implement the given function",
  "Oracles synthesised from a Boolean function or permutation by the reversible-logic library implement exactly that function on every basis state.",
  ["inputs"], "all functions/permutations within the bound", "tests use fixed functions",
  ["projectq/libs/revkit"], [("PermutationOracle, PhaseOracle, ControlFunctionOracle", "projectq/libs/revkit")], "circuit received")
p("K02", "Measurement histograms show the back-end's probabilities",
  "The histogram shows, for each outcome of the given register, the probability the back-end reports, labelled in register order.",
  ["inputs"], "all probability tables within the bound", "tests use one register",
  ["projectq/libs/hist/_histogram.py"], [("histogram", "projectq/libs/hist/_histogram.py")], "axes and returned probabilities")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
