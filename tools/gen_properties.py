"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

prop("G01", "Gates are unitary and their inverse is the exact adjoint",
 "Every built-in gate that exposes a matrix exposes a unitary one, for every parameter value, equal to the documented operator; asking such a gate for its inverse returns a gate implementing the conjugate transpose. "
 "Gates without a matrix that do return an inverse (Fourier transform, time evolution, Pauli strings, uniformly controlled rotations, arithmetic gates, controlled, tensor and daggered gates) return one that undoes them, and a gate that cannot be undone says so instead of returning something else.",
 ["inputs"], "all built-in gate classes, all real angles / phases / coefficients / constants, all nestings of inverse",
 "Angles, coefficients and constants are unbounded; the tests compare a handful of parameter values and some inverses (comparator, adder carry) are never applied at all.",
 ["projectq/ops/_gates.py", "projectq/ops/_basics.py", "projectq/ops/_metagates.py", "projectq/ops/_time_evolution.py", "projectq/ops/_qubit_operator.py", "projectq/ops/_uniformly_controlled_rotation.py", "projectq/libs/math/_gates.py"],
 [("matrix properties and get_inverse", "ops/_gates.py, ops/_basics.py"), ("DaggeredGate / get_inverse fallback", "ops/_metagates.py"), ("arithmetic gate inverses", "libs/math/_gates.py")],
 ["gate.matrix", "get_inverse(gate)", "effect of gate followed by its inverse on a simulator"])

prop("G02", "Merging, equality and identity tests on gates never change the operator",
 "When two gates can be merged, the merged gate is the operator obtained by applying the first and then the second; a gate that reports itself as the identity acts as the identity on every state. "
 "Two gates that compare equal implement the same operator (up to the documented angle/matrix tolerance) and equal gates have equal hashes (gates defined by an approximately compared matrix excepted).",
 ["inputs"], "all pairs of built-in gates and all parameter values, including angles near multiples of the period and products of non-commuting operators",
 "Optimizers cancel and merge purely on the strength of these answers; tests try a few pairs, mostly of the same simple class, with commuting or identical parameters.",
 ["projectq/ops/_basics.py", "projectq/ops/_gates.py", "projectq/ops/_metagates.py", "projectq/ops/_qubit_operator.py", "projectq/ops/_time_evolution.py", "projectq/ops/_uniformly_controlled_rotation.py", "projectq/libs/math/_gates.py"],
 [("get_merged / is_identity / __eq__ / __hash__", "ops/_basics.py and each gate class")],
 ["gate.get_merged(other)", "gate == other", "gate.is_identity()", "hash(gate)"])

prop("C01", "Copying, inverting, merging and comparing commands preserves the operation",
 "A copy of a command is the same operation: same gate, target qubits, control qubits, required control values, tags and engine; its inverse and its merge with another command keep targets, controls and required control values, and are refused when the two commands act on different targets, controls or control values. "
 "Two commands compare equal only if they denote the same operation with the same tags, and listing interchangeable target qubits or control qubits (with their values) in another order yields an equal command.",
 ["inputs"], "all gates, qubit lists, control sets and control values (all-ones, all-zeros, mixed), and tag lists",
 "The combination of control values with copying/inversion/merging is a product space; existing tests only look at commands whose controls all act on value one.",
 ["projectq/ops/_command.py", "projectq/meta/_control.py"],
 [("Command copy/inverse/merge/equality and canonical ordering", "ops/_command.py")],
 ["copy.deepcopy(cmd)", "cmd.get_inverse()", "cmd.get_merged(other)", "cmd == other"])

prop("M01", "A control block controls exactly the operations issued inside it",
 "Every operation issued inside a control block reaches the next engine exactly once and in order, with the block's control qubits and required control values added to its own; only classical instructions and operations belonging to a compute/uncompute section opened inside the block pass without the extra controls. "
 "Hence the block acts on the whole state as the controlled version of its body, also when blocks are nested or combined with compute/uncompute, and leaving the block restores the engine chain. Applying a controlled gate C(g, n) is applying g in a block controlled by its first n qubits; registers which do not split there are refused.",
 ["programs", "inputs"], "all programs of operations issued inside (possibly nested) control blocks, all control registers and control values, with or without compute/uncompute sections inside",
 "Nesting depth, control values and interleaving with compute sections form an unbounded program space; tests check a couple of literal circuits.",
 ["projectq/meta/_control.py", "projectq/meta/_util.py", "projectq/ops/_command.py", "projectq/ops/_metagates.py"],
 [("ControlEngine._handle_command / receive", "meta/_control.py"), ("Command.add_control_qubits", "ops/_command.py")],
 ["commands seen by the engine after the block", "final state"])

prop("M02", "Uncompute undoes exactly the compute section, for every program",
 "After a compute section, some action, and an uncompute, the operations emitted for the uncompute are the inverses of the compute section's operations in exactly reverse order, each acting on the corresponding qubits with the corresponding controls and tagged as uncompute; qubits allocated during compute are deallocated exactly once by the uncompute and local ones get fresh replacements. "
 "Misuse (uncompute without a compute section, deallocating outer qubits inside compute, leaving a compute-allocated qubit alive in a custom uncompute) is reported instead of silently emitting a wrong circuit, and a custom uncompute passes the user's operations unchanged apart from tags.",
 ["programs", "histories"], "all compute bodies including allocations and deallocations of ancillas and nested compute sections, all actions",
 "Body length, allocation pattern and nesting are unbounded; tests cover a few fixed bodies.",
 ["projectq/meta/_compute.py", "projectq/meta/_util.py"],
 [("ComputeEngine.run_uncompute / end_compute", "meta/_compute.py"), ("UncomputeEngine", "meta/_compute.py")],
 ["commands emitted after Uncompute", "tags", "raised errors"])

prop("M03", "A dagger block emits the inverse of its body in reverse order",
 "Nothing leaves a dagger block until it ends; then the inverses of all operations issued inside are emitted exactly once in exactly reverse order with unchanged targets, controls, control values and tags. "
 "Qubits allocated inside must also be deallocated inside (otherwise an error is reported) and then appear with allocation and deallocation exchanged; an operation without a known inverse is emitted as its own dagger, never dropped or replaced, and refused by backends that cannot execute it; nested dagger blocks restore the body.",
 ["programs"], "all bodies (any length, nesting and allocation pattern) and all control values",
 "Body length and nesting are unbounded; tests use short literal bodies.",
 ["projectq/meta/_dagger.py", "projectq/ops/_command.py"],
 [("DaggerEngine.run / receive", "meta/_dagger.py")],
 ["commands emitted at the end of the block", "raised errors"])

prop("M04", "A loop block repeats its body exactly the requested number of times",
 "The operations emitted by a loop block are equivalent to emitting its body, in order, exactly the given number of times (zero included), whether the loop is unrolled or passed on as loop-tagged operations to an engine that supports loop tags, in which case each body operation is sent once carrying the right repetition count. "
 "Qubits allocated inside the body must be deallocated inside it; each repetition of an unrolled loop gets its own fresh qubits, and a body leaving qubits alive or deallocating outer qubits is reported as an error.",
 ["programs", "inputs"], "all bodies, all repetition counts, nested loops, with and without loop-tag support downstream",
 "Repetition count, body and nesting are unbounded.",
 ["projectq/meta/_loop.py"],
 [("LoopEngine.run / receive", "meta/_loop.py")],
 ["commands emitted by the block", "loop tags", "raised errors"])

prop("Q01", "Every qubit is allocated and deallocated exactly once; reads need a measurement",
 "Each allocated qubit gets an id never used before by that main engine, its allocation is announced to the pipeline exactly once, and its deallocation exactly once - when it is released, goes out of scope or the engine is flushed for good - with dirty qubits tagged as dirty on both. "
 "Measurement results read back from a qubit are exactly the value last reported by the backend for that logical qubit, and reading a qubit that was never measured or has been deallocated raises an error instead of returning a value.",
 ["histories", "programs"], "all histories of allocation, deallocation (explicit, by scope, dirty), measurement, flush and engine shutdown",
 "Object lifetimes and histories are unbounded; tests exercise single allocations.",
 ["projectq/cengines/_main.py", "projectq/cengines/_basics.py", "projectq/types/_qubit.py"],
 [("allocate_qubit / deallocate_qubit", "cengines/_basics.py"), ("measurement store and active qubit set", "cengines/_main.py")],
 ["Allocate/Deallocate commands reaching the backend", "int(qubit)", "NotYetMeasuredError"])

prop("E01", "The local optimizer never changes the meaning of a circuit",
 "For every command stream the commands leaving the local optimizer implement the same operation as the commands that entered it: only adjacent inverse pairs, mergeable pairs and identity gates may disappear or be combined, relative order on every qubit is kept, and no other command is lost, duplicated, invented or altered, for every cache size. "
 "After a flush nothing remains cached, and the flush itself is passed on after everything that preceded it.",
 ["programs", "histories"], "all command streams over any number of qubits (multi-qubit, controlled and parameterised gates, allocations, measurements, flushes) and all cache sizes",
 "The optimizer's effect depends on the interleaving of per-qubit pipelines; tests cover a few hand-written sequences on one or two qubits.",
 ["projectq/cengines/_optimize.py"],
 [("LocalOptimizer._optimize / _send_qubit_pipeline / _check_and_send", "cengines/_optimize.py")],
 ["commands leaving the optimizer", "unitary of the emitted circuit"])

prop("E02", "Automatic replacement emits only supported commands and an equivalent circuit",
 "The replacer forwards unchanged every command the rest of the pipeline supports and replaces any other by the commands of an applicable registered rule (applied recursively, chosen by the user-supplied chooser when given, or the inverse of a rule for the inverse gate), keeping the original command's tags; it never emits a command its successor cannot execute and raises an error when no rule applies. "
 "The outcome depends only on the rule set and the command, not on what was compiled before.",
 ["inputs", "configurations", "histories"], "all commands, rule sets, available gate sets and compilation histories",
 "Rule sets and availability predicates are arbitrary and history effects need repeated use; tests use a single small rule set once.",
 ["projectq/cengines/_replacer/_replacer.py", "projectq/cengines/_replacer/_decomposition_rule.py", "projectq/cengines/_replacer/_decomposition_rule_set.py"],
 [("AutoReplacer._process_command", "cengines/_replacer/_replacer.py"), ("DecompositionRuleSet", "cengines/_replacer/_decomposition_rule_set.py")],
 ["commands leaving the replacer", "raised NoGateDecompositionError"])

prop("E03", "Observing and filtering engines pass every command on unchanged, once, in order",
 "Tag removers, command modifiers, forwarders, instruction filters, printers, drawers, resource counters and comparison/dummy engines hand every command they receive to the next engine exactly once and in the order received, changing nothing but what they document (the removed tags, the user's modification). "
 "Their availability answer is that of the rest of the pipeline (or their own documented predicate), and inserting or removing such an engine leaves the remaining chain intact.",
 ["programs", "configurations"], "all command lists and batchings, all tags, all positions in the pipeline",
 "Batch structure, tags and pipeline positions are unbounded.",
 ["projectq/cengines/_tagremover.py", "projectq/cengines/_cmdmodifier.py", "projectq/cengines/_basics.py", "projectq/cengines/_testengine.py", "projectq/backends/_printer.py", "projectq/backends/_resource.py", "projectq/backends/_circuits/_drawer.py", "projectq/backends/_circuits/_drawer_matplotlib.py", "projectq/cengines/_replacer/_replacer.py", "projectq/meta/_util.py"],
 [("receive methods", "the listed engines"), ("insert_engine / drop_engine_after", "meta/_util.py")],
 ["commands seen by the next engine", "is_available answers"])

prop("E04", "Qubit mappers keep a one-to-one placement and only adjacent interactions",
 "At every moment a mapper assigns live logical qubits to distinct physical locations of the device; every command it emits uses exactly the current locations of the logical qubits of the command received, two-qubit operations (including the swaps it inserts) only touch neighbouring locations for the linear, ring and grid mappers, and order on every qubit is preserved. "
 "The emitted circuit, read through the placement (swaps moving the data), is the received circuit: no command lost or duplicated, measurements announce the logical qubit, deallocated locations are freed for reuse, and after a flush nothing is left waiting.",
 ["programs", "histories", "configurations"], "all command streams with at most two-qubit gates, all device sizes and shapes, allocation/deallocation histories and flush positions",
 "Placement depends on the whole history of interactions and deallocations; tests sample fixed streams on one size.",
 ["projectq/cengines/_linearmapper.py", "projectq/cengines/_twodmapper.py", "projectq/cengines/_basicmapper.py", "projectq/cengines/_manualmapper.py", "projectq/cengines/_ibm5qubitmapper.py", "projectq/backends/_ionq/_ionq_mapper.py"],
 [("LinearMapper/_run, return_new_mapping, odd-even transposition", "cengines/_linearmapper.py"), ("GridMapper routing", "cengines/_twodmapper.py"), ("current_mapping and id substitution", "cengines/_basicmapper.py")],
 ["mapper.current_mapping", "commands leaving the mapper"])

prop("E05", "Direction flipping for restricted couplings preserves the circuit",
 "For any connectivity given as directed pairs, the direction flipper emits a circuit with the same action as the one received in which every controlled-NOT runs along an allowed direction and every swap has become controlled-NOTs along allowed directions, with tags kept. "
 "Commands that already comply are passed on unchanged, and a controlled-NOT or swap between unconnected locations is reported as an error.",
 ["inputs", "configurations"], "all connectivity relations and all commands",
 "Connectivities are arbitrary; tests use one pair in each direction.",
 ["projectq/cengines/_swapandcnotflipper.py"],
 [("SwapAndCNOTFlipper.receive", "cengines/_swapandcnotflipper.py")],
 ["commands leaving the engine"])

prop("D01", "Fixed-size decomposition rules are exact for all parameters and controls",
 "Every registered decomposition of a gate of fixed size (rotations, phases, arbitrary one-qubit matrices with zero or one control, square-root and plain swap, Toffoli, controlled-NOT, controlled phase and z-rotations, Hadamard) emits a circuit implementing the decomposed command for every parameter value, up to a global phase only where no control can make that phase observable. "
 "A rule is only offered for commands it handles correctly.",
 ["inputs"], "all angles, all one-qubit unitaries, all numbers of control qubits the rule accepts, each registered rule",
 "Angles and matrices range over continua with special cases near degenerate values; tests evaluate a few points and the first applicable rule.",
 ["projectq/setups/decompositions/arb1qubit2rzandry.py", "projectq/setups/decompositions/carb1qubit2cnotrzandry.py", "projectq/setups/decompositions/cnot2cz.py", "projectq/setups/decompositions/cnot2rxx.py", "projectq/setups/decompositions/crz2cxandrz.py", "projectq/setups/decompositions/globalphase.py", "projectq/setups/decompositions/h2rx.py", "projectq/setups/decompositions/ph2r.py", "projectq/setups/decompositions/r2rzandph.py", "projectq/setups/decompositions/rx2rz.py", "projectq/setups/decompositions/ry2rz.py", "projectq/setups/decompositions/rz2rx.py", "projectq/setups/decompositions/sqrtswap2cnot.py", "projectq/setups/decompositions/swap2cnot.py", "projectq/setups/decompositions/toffoli2cnotandtgate.py"],
 [("all_defined_decomposition_rules", "each decomposition module")],
 ["unitary of the commands emitted by each rule"])

prop("D02", "Register-sized decomposition rules implement their gate at every size",
 "The decompositions of gates of variable size (Fourier transform, state preparation, uniformly controlled rotations, multi-controlled gates, negative controls, entangling, Pauli strings, time evolution of commuting Hamiltonians, phase estimation, amplitude amplification, barriers) implement the gate's documented action for every register size and parameter list, work ancillas being returned to zero. "
 "Adding control qubits to the command controls the whole effect, including phases, and inputs a rule cannot handle are refused with an error.",
 ["inputs"], "all register sizes, numbers and values of control qubits, angles, amplitudes and Hamiltonians with commuting terms",
 "Size and parameters are unbounded; tests fix one or two sizes.",
 ["projectq/setups/decompositions/qft2crandhadamard.py", "projectq/setups/decompositions/stateprep2cnot.py", "projectq/setups/decompositions/uniformlycontrolledr2cnot.py", "projectq/setups/decompositions/cnu2toffoliandcu.py", "projectq/setups/decompositions/controlstate.py", "projectq/setups/decompositions/entangle.py", "projectq/setups/decompositions/qubitop2onequbit.py", "projectq/setups/decompositions/time_evolution.py", "projectq/setups/decompositions/phaseestimation.py", "projectq/setups/decompositions/amplitudeamplification.py", "projectq/setups/decompositions/barrier.py"],
 [("_decompose_* functions", "the listed modules")],
 ["action of the emitted commands on states", "ancilla values"])

prop("S01", "The Python simulator applies every gate exactly as its definition says",
 "Applying any gate with any control qubits on the Python simulator maps the state vector to the one obtained by multiplying with the gate's matrix on the targets (first listed qubit least significant) on the subspace where all controls are one, and leaves all other amplitudes alone; arithmetic gates permute basis states by their function, Pauli-string operators and time evolution act as their definition. "
 "Allocation appends a qubit in state zero, deallocation of a classical qubit removes exactly it, and neither disturbs the others.",
 ["inputs", "histories"], "all states, matrices, target orders, control sets, qubit numbers and allocation histories",
 "States and matrices are continuous and index arithmetic depends on every position; tests use few positions.",
 ["projectq/backends/_sim/_pysim.py", "projectq/backends/_sim/_simulator.py"],
 [("apply_controlled_gate, emulate_math, apply_qubit_operator, emulate_time_evolution, allocate/deallocate", "backends/_sim/_pysim.py")],
 ["cheat()", "amplitudes"])

prop("S02", "The C++ simulator computes the same states and values as the definition",
 "For every command stream the compiled simulator produces the state vector, probabilities, amplitudes, expectation values and measurement behaviour prescribed by the gates' definitions - whatever gates its fusion step combines and in whatever order, with every control set, target order and number of qubits, with either instruction-set variant. "
 "Arithmetic and time-evolution emulation agree with the mathematical definition for all constants in range.",
 ["inputs", "histories", "configurations"], "all gate streams, control sets, target orders, qubit counts, both kernel variants (vectorised and portable)",
 "Fusion state and bit positions depend on the whole stream; tests cover tiny registers and few orders.",
 ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_cppkernels/fusion.hpp", "projectq/backends/_sim/_cppkernels/nointrin", "projectq/backends/_sim/_cppkernels/intrin", "projectq/backends/_sim/_cppsim.cpp"],
 [("Fusion::perform_fusion", "fusion.hpp"), ("kernel loops", "nointrin/intrin kernels"), ("Simulator methods", "simulator.hpp")],
 ["cheat()", "get_probability", "get_expectation_value", "measurement results"])

prop("S03", "Measurement collapses consistently and queries do not disturb the state",
 "Measuring qubits returns outcomes with nonzero probability, leaves the normalised projection of the previous state onto those outcomes, and a repeated measurement returns the same result; results are registered for the measured logical qubits, also behind a mapper. "
 "Probability, amplitude and expectation-value queries return exactly the value defined by the current state for the qubits in the order given, do not change the state, and reject invalid input; collapsing or setting the wavefunction acts on precisely the qubits named.",
 ["inputs", "histories"], "all states, all qubit subsets and orders, all outcome strings, all observables, all random draws",
 "States and random draws are continuous; tests sample a few.",
 ["projectq/backends/_sim/_simulator.py", "projectq/backends/_sim/_pysim.py"],
 [("measure_qubits, collapse_wavefunction, get_probability, get_amplitude, get_expectation_value, set_wavefunction", "backends/_sim/_pysim.py"), ("logical/physical id translation", "backends/_sim/_simulator.py")],
 ["returned values", "state before/after"])

prop("S04", "The unitary-matrix simulator accumulates exactly the circuit's unitary",
 "After any sequence of gates, the matrix reported by the unitary simulator is the product of the embedded gate matrices in order, with targets in the listed order and controls respected, over all live qubits, with one block per segment separated by measurement or deallocation. "
 "Histories of earlier segments are kept unchanged and new qubits extend the current matrix by an identity factor.",
 ["inputs", "histories"], "all circuits, target orders (including non-symmetric multi-qubit gates) and allocation histories",
 "Target orders and histories are unbounded; tests use symmetric cases.",
 ["projectq/backends/_unitary.py"],
 [("UnitarySimulator._handle and qubit masks", "backends/_unitary.py")],
 ["backend.unitary", "backend.history"])

prop("S05", "The classical simulator computes the exact reversible function",
 "For every circuit of (multi-)controlled NOTs and arithmetic gates the classical simulator's bits are those of the classical function computed, over any number of qubits, with controls respected and registers read least-significant bit first; reading and writing bits and registers touches only those qubits. "
 "Deallocation removes precisely the given qubit, measurement reports the stored bit, and operations it cannot simulate are declared unavailable.",
 ["inputs", "histories"], "all circuits of classical gates, register layouts and allocation/deallocation histories",
 "Bit positions shift with every deallocation; tests use a handful of qubits.",
 ["projectq/backends/_sim/_classical_simulator.py"],
 [("ClassicalSimulator._handle, bit masks and deallocation shifts", "backends/_sim/_classical_simulator.py")],
 ["read_bit / read_register", "measurement results"])

prop("L01", "Arithmetic circuits compute the documented integer functions",
 "Each circuit of the arithmetic library (addition with/without carry, subtraction, comparison, conditional addition, multiplication, division, constant and modular addition and multiplication) maps every computational basis input satisfying the documented preconditions to the documented result, restores all ancillas, and its inverse circuit undoes it. "
 "The built-in emulation of the same gate gives the same result on those inputs, and inputs violating the stated preconditions on sizes or constants are rejected.",
 ["inputs"], "all register sizes, all register values, all constants and moduli within the documented preconditions, with and without control",
 "Values times sizes is far beyond enumeration; tests check one or two numbers.",
 ["projectq/libs/math/_quantummath.py", "projectq/libs/math/_constantmath.py", "projectq/libs/math/_gates.py", "projectq/libs/math/_default_rules.py"],
 [("adders, comparator, divider, multiplier", "libs/math/_quantummath.py"), ("Fourier adders and modular arithmetic", "libs/math/_constantmath.py"), ("emulation functions", "libs/math/_gates.py")],
 ["register contents after the circuit", "emulated register contents"])

prop("L02", "Pauli-operator sums form the Pauli algebra",
 "Sums, differences, products, scalar multiples, quotients and negation of Pauli-operator sums denote exactly the corresponding operators, for every number of terms and qubits, leave their operands unchanged unless used in place, and equality up to tolerance and compression respect the denoted operator. "
 "Terms given in any accepted form denote the operator they spell, malformed terms are rejected, and applying a single unit-length term to qubits acts as that Pauli string including its phase.",
 ["inputs"], "all operators (any number of terms, qubit indices, complex coefficients) and all pairs of operands",
 "Terms and coefficients are unbounded; tests use a few terms.",
 ["projectq/ops/_qubit_operator.py"],
 [("QubitOperator arithmetic", "ops/_qubit_operator.py")],
 ["terms of the result", "commands issued when applied"])

prop("B01", "Resource counts equal the circuit that passed through",
 "For every command stream the resource counter's per-gate and per-class counts (keyed with the number of controls) are exactly the numbers of such commands received, its maximal width is the largest number of simultaneously live qubits, and its depth is the longest dependency chain of the circuit. "
 "Every kind of gate can be counted, and counting forwards all commands unchanged.",
 ["programs", "histories"], "all command streams, gates, control counts and allocation histories",
 "Counts, depth and width are functions of the whole history; tests check one circuit.",
 ["projectq/backends/_resource.py"],
 [("ResourceCounter._add_cmd", "backends/_resource.py")],
 ["gate_counts", "gate_class_counts", "max_width", "depth_of_dag"])

prop("B02", "Hardware backends submit exactly the circuit they accepted",
 "For every command a hardware backend declares available, the instruction it submits denotes the same operation on the same qubit locations with the same angle and controls in the backend's published instruction set; commands are submitted in order, each exactly once, and a command it does not declare available is refused rather than translated. "
 "After a submission the next circuit starts empty.",
 ["inputs", "programs"], "all available commands, qubit locations and angles, for the IBM, AQT, IonQ, AWS Braket and Azure Quantum backends",
 "Locations and angles are unbounded and tests compare a few literal strings.",
 ["projectq/backends/_ibm/_ibm.py", "projectq/backends/_aqt/_aqt.py", "projectq/backends/_ionq/_ionq.py", "projectq/backends/_awsbraket/_awsbraket.py", "projectq/backends/_azure/_azure_quantum.py", "projectq/backends/_azure/_utils.py"],
 [("is_available and _store/to_json/to_qasm", "the listed backends")],
 ["the circuit handed to the HTTP client"])

prop("B03", "Hardware results are attributed to the right logical qubits",
 "After a run, the value registered for each measured logical qubit is the bit the device reported for the location that qubit was mapped to, for one outcome that actually occurred in the returned statistics and is drawn with its reported probability; the probabilities reported for a register are the marginals of the returned statistics over that register in the order given, and sum to one. "
 "Results of a later run never mix with those of an earlier one.",
 ["inputs", "histories"], "all returned statistics, qubit mappings, measurement orders, random draws, and sequences of runs",
 "Permutation of mapping, outcome and draw is unbounded; tests use one fixed outcome with identity mapping.",
 ["projectq/backends/_ibm/_ibm.py", "projectq/backends/_aqt/_aqt.py", "projectq/backends/_ionq/_ionq.py", "projectq/backends/_awsbraket/_awsbraket.py", "projectq/backends/_azure/_azure_quantum.py"],
 [("_run and get_probabilities", "the listed backends")],
 ["int(qubit) after flush", "get_probabilities"])

prop("R01", "Restricted gate-set setups admit only the requested gates",
 "In the restricted gate-set setup (and the linear and grid setups built the same way) every non-classical command reaching the backend is one of the gates the user allowed with the allowed number of qubits and controls, where listing a class allows all its instances and listing an instance allows only equal gates. "
 "Classical instructions always pass, arguments of an unsupported kind are rejected, and the trapped-ion chooser always picks one of the offered decompositions of the command at hand.",
 ["configurations", "inputs"], "all allowed-gate configurations and all commands",
 "Configurations and commands form an open product space; tests use one or two configurations.",
 ["projectq/setups/restrictedgateset.py", "projectq/setups/_utils.py", "projectq/setups/linear.py", "projectq/setups/grid.py", "projectq/setups/trapped_ion_decomposer.py"],
 [("filter predicates of the setups", "setups/restrictedgateset.py, setups/_utils.py"), ("chooser_Ry_reducer", "setups/trapped_ion_decomposer.py")],
 ["commands reaching the backend", "raised TypeError"])

prop("R02", "Setups compile all library gates to accepted gates of the same operation",
 "With the engine list of every setup - the hardware setups (AQT, the AWS Braket devices, the IBM devices, IonQ), the default and trapped-ion setups, and the restricted, linear and grid setups with the documented gate sets (Rz and at least one of Ry, Rx, H; CNOT or CZ) - every gate which the library decomposes, with any parameters, controls and control values, reaches the backend as commands which its target accepts. "
 "These commands implement the same operation on the same logical qubits up to a global phase, and work qubits end where they began.",
 ["configurations", "inputs", "programs"], "all setups and gate sets, all library gates, one-qubit unitaries, parameters, numbers of controls and control values",
 "Setups, gate sets, gates, controls and angles form a product space of which the tests compile a few circuits and check only which gates occur.",
 ["projectq/setups/_utils.py", "projectq/setups/restrictedgateset.py", "projectq/setups/linear.py", "projectq/setups/grid.py", "projectq/setups/default.py", "projectq/setups/trapped_ion_decomposer.py", "projectq/setups/ibm.py", "projectq/setups/aqt.py", "projectq/setups/ionq.py", "projectq/setups/awsbraket.py"],
 [("get_engine_list of every setup", "setups/*.py")],
 ["commands reaching the backend and their unitary"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
