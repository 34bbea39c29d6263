#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, in one readable place)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
C = "dwave/gate/circuit.py"; B = "dwave/gate/operations/base.py"; O = "dwave/gate/operations/operations.py"
P = "dwave/gate/primitives.py"; R = "dwave/gate/registers/registers.py"; CY = "dwave/gate/registers/cyregister.pyx"
S = "dwave/gate/simulator/simulator.pyx"; G = "dwave/gate/simulator/operation_generation.py"
QC = "dwave/gate/qir/compiler.py"; QI = "dwave/gate/qir/instructions.py"; QL = "dwave/gate/qir/loader.py"
M = "dwave/gate/mixedproperty.py"; T = "dwave/gate/tools/unitary.py"; ID = "dwave/gate/tools/counters.py"
out = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    out.append({"id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "The active-context slot is exclusive and always released",
 """Entering a circuit's context makes it the one active context, and is refused with an error that changes nothing
 when the circuit is locked (CircuitError) or when any context is already active (RuntimeError). Leaving a context,
 normally or through any exception, always frees the active slot, runs every deferred exit action once and leaves none
 behind, locks the circuit (for a parametric circuit also freezing its parameter register, which unlocking thaws again)
 and lets the exception propagate.""",
 ["histories", "fault_sequences"], "every history of entering and leaving contexts of any circuits, with an exception at any point of the body",
 "Tests enter and leave a few contexts and raise at one or two points; they cannot enumerate exits through every exception or every deferred action.",
 [C], [("CircuitContext.__enter__/__exit__", C), ("ParametricCircuitContext", C), ("ParametricCircuit.unlock", C)],
 ["CircuitContext.active_context", "Circuit.is_locked()", "exception leaving the with block"])

prop("C02", "A locked circuit never gains an operation",
 """While a circuit is locked, no route that applies operations (appending, extending, constructing an operation or
 applying a circuit as a template in its context) adds an operation to it; the attempt raises CircuitError and leaves
 the operation list and the operation itself as they were. Locking takes effect at once and lasts until an explicit
 unlock or reset, and only those make the circuit accept operations again.""",
 ["histories", "programs"], "every program that applies operations to a circuit in any lock state",
 "Tests check append on one locked circuit; who else may write the operation list is a whole-program question.",
 [C, B], [("Circuit.append lock check", C), ("who-may-write the operation list", C)],
 ["Circuit.circuit", "Circuit.is_locked()"])

prop("C03", "Only operations on the circuit's own qubits are recorded, once, in order",
 """Appending an operation puts exactly that operation at the end of the operation list, once, if every qubit it acts on
 belongs to the circuit; otherwise ValueError is raised and the list stays as it was. Extending appends each operation in
the order given by the same rules, the circuit's own operations included, and removing an operation deletes exactly the first equal one, or raises ValueError and
 changes nothing when there is none.""",
 ["inputs", "histories"], "all operations, all circuits and all sequences of append/extend/remove",
 "Tests append two or three hand-picked operations; foreign qubits in any position and mixed operation kinds are not enumerated.",
 [C, B], [("Circuit.append/extend/remove", C), ("ParametricOperation.__eq__", B)],
 ["Circuit.circuit", "exception raised"])

prop("C04", "Constructing an operation records it exactly where it should",
 """Constructing an operation (or re-applying one by calling it) inside an active, unfrozen context appends that very
 operation once to that context's circuit; outside any context, or while the context is frozen, it is recorded nowhere.
 Inside a context qubits are required (TypeError), and a wrong number of qubits or parameters is refused (ValueError)
 before anything is recorded. The constructed operation keeps its parameters and its qubits in the order given, and a controlled operation
 splits the same qubits into leading controls and trailing targets however they were passed.""",
 ["inputs", "programs"], "every operation class, every way of passing qubits and parameters, every context state",
 "Tests build a few gates; the construction chain (parametric, controlled, parametric-controlled, measurement, custom) is not covered for every combination of context state and argument form.",
 [B, C], [("Operation.__init__ chain", B), ("ControlledOperation.__init__", B), ("_check_qubits/_check_parameters", B)],
 ["Circuit.circuit", "Operation.qubits/control/target/parameters", "exception raised"])

prop("C05", "Freezing a context suspends recording and always restores it",
 """Inside a freeze block of the active context no constructed operation is recorded; when the block ends, normally or
 through an exception, the context is exactly as frozen as it was before the block, so blocks nest. Freezing without an
 active context raises CircuitError, and freezing never affects operations of other circuits or later contexts.""",
 ["histories", "fault_sequences"], "every nesting of freeze blocks and every exception leaving one",
 "Tests use one freeze block that ends normally.",
 [C, B], [("CircuitContext.freeze", C), ("Operation.__init__ frozen test", B)],
 ["CircuitContext.frozen", "Circuit.circuit"])

prop("C06", "Applying a circuit as a template maps every operation positionally",
 """Calling a circuit inside another circuit's context applies each of its operations exactly once, in order, as the same
 kind of operation with the same parameters and conditions, with every qubit (and, for measurements and conditions, every
 bit when bits are passed) replaced by the passed one at the same position in the called circuit. A wrong number of qubits
 or bits (ValueError), no active context (CircuitError) or its own context (TypeError) is refused before anything is
 applied, and the called circuit itself is not changed.""",
 ["inputs", "programs"], "all template circuits, all qubit/bit arguments (single or sequence), all mixtures of operations",
 "Tests apply small templates of a few gate kinds; conditions, multi-control gates, falsy bits and out-of-order qubits are not enumerated.",
 [C, B], [("Circuit.__call__", C), ("ParametricCircuit.__call__", C)],
 ["Circuit.circuit of the active circuit"])

prop("C07", "Evaluating parameters replaces every variable and nothing else",
 """Evaluating an operation or circuit replaces each variable parameter by the passed value at its position or, without
 passed values, by the variable's own set value (zero included), and raises ValueError for a variable that has none;
 numeric parameters, qubits and the order of operations stay as they were. Unless in-place evaluation is asked for, the
 original is untouched and shares no parameter list with the result. A variable is set and reset exactly by its set and reset calls,
 an operation appended to a circuit without variables holds only values, and values bound when a parametric circuit is applied are
 cleared again when the context is left.""",
 ["inputs", "histories"], "all parameter lists, values (zero included), in-place or not, all operation kinds",
 "Tests evaluate with truthy values and one or two parameters.",
 [B, C, P], [("ParametricOperation.eval", B), ("ParametricCircuit.eval", C), ("Circuit.append evaluation", C), ("ParametricCircuit.__call__/reset_variables", C), ("Variable", P)],
 ["Operation.parameters", "Variable.value"])

prop("C08", "The flat qubit and bit views always agree with the registers",
 """After any sequence of adding registers, qubits and bits and of resetting, the circuit's qubits and bits (and their
 counts) are exactly the items of its registers in register order, with no stale, missing or duplicated entry. Adding a
 register creates exactly the requested number of new items, labelled consecutively from the current count, under the given or next default label.""",
 ["histories"], "every sequence of add_qubit, add_bit, add_qregister, add_cregister and reset interleaved with reads",
 "The views are cached, so a stale cache needs a particular read/mutate interleaving; tests sample a few.",
 [C, R], [("cached qubits/bits and their invalidation", C), ("add_*/reset", C)],
 ["Circuit.qubits", "Circuit.bits", "Circuit.num_qubits", "Circuit.num_bits"])

prop("C09", "Adding and finding qubits and bits respects register membership",
 """Adding a qubit or bit puts it (or one new one) into exactly the requested register, or the first register when none is
 named, creating a missing register; an item of another type is refused (TypeError), and an item already in the circuit or
 a label already taken is refused (ValueError), without changing any register's items. Finding an item returns the register (index or label) that holds
 it and its position there, getting one by label searches exactly the requested register or all in order and returns the first or all
 matches, and absent items raise ValueError. Bits keep the value they were last set to (0 or 1), overwriting only when forced, until reset.""",
 ["inputs", "histories"], "all circuits, all items (bits of any value included) and labels, all search modes",
 "Tests use one or two registers, unset bits and truthy labels.",
 [C, P], [("add_qubit/add_bit", C), ("get_*/find_*", C), ("Bit.set/reset", P)],
 ["Circuit.qregisters", "Circuit.cregisters", "return values of find_*/get_*"])

prop("C10", "Registers behave as ordered sets whose index is the exact inverse of position",
 """In any register, item lookup by position, membership, index, length and iteration always agree: every item occurs once,
 index is the inverse of position, and appending adds at the end, removing keeps the order of the rest, relabelling changes only the mapped items,
 copies and sums are independent of the originals and usable as registers. A duplicate is refused (ValueError). A frozen
 register refuses additions (RegisterError) and never grows, also by indexing; an unfrozen self-incrementing register grows by
 exactly the missing variables when indexed past its end.""",
 ["histories", "inputs"], "every sequence of register operations with any hashable labels, integers included",
 "The two maps are sparse and kept in step by hand; a broken pairing shows only for particular label/index coincidences.",
 [CY, R], [("cyRegister paired maps", CY), ("Register.add/freeze/__add__", R), ("SelfIncrementingRegister.__getitem__", R)],
 ["Register iteration/index/len/contains"])

prop("C11", "A circuit's stored state is validated, exclusive and consistent",
 """Setting a state accepts exactly vectors of length 2^n and 2^n-by-2^n matrices that are normalized (unit norm, or unit
 trace for a matrix), optionally normalizing first, and refuses to overwrite a set state unless forced; a refused call changes nothing. After setting, exactly the pure
 state or exactly the density matrix is the set one and the other is dropped; reading the pure state of a mixed circuit raises CircuitError,
 and the density matrix of a pure state is its outer product with its conjugate.""",
 ["inputs", "histories"], "all states, all flags, all orders of setting and reading",
 "Tests use real-valued, rank-one examples.",
 [C], [("Circuit.set_state/_assert_state", C), ("Circuit.state/density_matrix", C)],
 ["Circuit.state", "Circuit.density_matrix"])

prop("C12", "Simulation applies each gate to its own qubits, once, in order",
 """State-vector simulation starts from the all-zero state and applies the operations of the circuit in order, each exactly once, with
 the operation's own matrix, on the indices its qubits have in the circuit, each index in its role (control or target), in the requested
 endianness; operations blocked by a zero conditional bit have no effect at all. The result is stored on the circuit, an unsupported
 operation raises instead of being skipped, and every random draw comes from the seeded generator.""",
 ["inputs", "configurations"], "all circuits, all gate kinds and qubit assignments, both endiannesses, all seeds",
 "Tests simulate small circuits; not each gate kind with each assignment of roles and option.",
 [S], [("apply_instruction dispatch", S), ("simulate", S), ("Operation.is_blocked", B)],
 ["Circuit.state"])

prop("C13", "Density-matrix simulation applies each gate and its conjugate",
 """Mixed-state simulation applies every operation of the circuit in order exactly twice: with its matrix to the row qubits and with
 the complex conjugate of its matrix to the corresponding column qubits, with the same roles, in the requested endianness and with the same seeded generator
 as state-vector simulation. The result is stored as the circuit's density matrix, a 2^n-by-2^n matrix.""",
 ["inputs", "configurations"], "all circuits without measurements, both endiannesses",
 "Tests compare a few circuits; gates with complex matrices on every dispatch branch are not enumerated.",
 [S], [("_simulate_circuit_density_matrix", S), ("conjugate_gate", S)],
 ["Circuit.density_matrix"])

prop("C14", "Measurements store the collapse outcome of each qubit in its own bit",
 """Simulating a measurement keeps a private copy of the state before measuring, then samples and collapses each measured qubit once, in
 order, storing each outcome in the bit at the same position (or warning when there is none) and remembering exactly those qubits, however often the circuit is
 simulated. Assigning bits keeps the first as many as there are qubits, in order, and refuses too few. Sampling afterwards returns one outcome per requested
 (by default every measured) qubit per sample, each sample drawn from a fresh copy of the kept state, and neither the kept state nor the circuit changes; without a simulated state, or for a qubit outside
the state, it raises and changes nothing, as sampling a state directly does.""",
 ["inputs", "histories"], "all measurements, bit assignments, repeated simulations and sampling calls",
 "Tests measure a few qubits and simulate once.",
 [S, B], [("_measure/sample_qubit", S), ("Measurement.__or__/sample/expval", B)],
 ["Bit.value", "Measurement.sample()", "Measurement.state"])

prop("C15", "Gate kernels update exactly the addressed amplitudes by the gate matrix",
 """For every number of qubits and every choice of distinct targets and controls, in both endiannesses, a gate kernel visits each
 basis-state group of the other qubits exactly once, changes only amplitudes whose control bits are all one, and replaces each group's
 amplitudes by the gate matrix (or, for swaps, the swap permutation) times the old ones, reading all of them before writing any.
 The entry points hand state, matrix, targets and controls to the kernel of the requested endianness in the right roles.""",
 ["inputs"], "all qubit counts, all target/control choices, both endiannesses, all gate matrices",
 "Tests run a handful of gates on up to three or four qubits; index arithmetic faults need specific qubit positions.",
 [G, S], [("generate_op_c_code / generated kernels", G), ("generate_op wrappers", G)],
 ["Circuit.state after simulation"])

prop("C16", "Measurement kernels select, collapse and renormalize consistently",
 """A measurement draws one uniform number from the given generator, selects the first outcome whose cumulative probability exceeds it
 (the last one otherwise), where each outcome's probability is the squared norm of its projection and the projections are exactly those of the measured qubit. If collapse is requested the same outcome's projection is
 applied to the whole state, scaled by one over the square root of its probability; otherwise the state is unchanged, and the selected outcome is returned.""",
 ["inputs"], "all states, qubits, draws, both endiannesses, with and without collapse",
 "Outcome selection is random; tests look at a few draws and cannot see which kernel was used for which outcome.",
 [G], [("generate_op_set", G), ("collect_norm / amplitude factor variants", G)],
 ["return value and state after sample_qubit"])

prop("C17", "Every gate matrix is the standard unitary of its gate",
 """For all parameter values, the matrix of every built-in gate is unitary and equals the standard definition of that gate (with the
 usual half-angle rotations), has the dimension its qubit count demands and uses its parameters in their declared order; aliases denote the same gate. Each access gives a fresh
 array, so callers cannot corrupt a gate.""",
 ["inputs"], "all built-in gates and all real parameter values",
 "Tests compare matrices at a few parameter values.",
 [O], [("matrix properties", O), ("aliases", O)],
 ["Operation.matrix"])

prop("C18", "Controlled operations act as their target gate exactly when all controls are one",
 """Outside a context, the matrix of a controlled gate is the identity except where all control bits are one, where it is
 the target gate's matrix (evaluated at the operation's own parameters) on the target; qubit positions are taken big-endian. Building such a
 matrix refuses overlapping controls and targets and indices outside the requested size (ValueError) and several targets
 (NotImplementedError), and the class-level counts of controls, targets and qubits agree with the operation.""",
 ["inputs"], "all controlled gates, parameters, control/target positions and sizes",
 "Tests build a few matrices of up to three qubits.",
 [B, T, O], [("ControlledOperation.matrix", B), ("ParametricControlledOperation.matrix", B), ("build_controlled_unitary", T)],
 ["Operation.matrix", "build_controlled_unitary()"])

prop("C19", "A custom operation represents exactly the circuit it was made from",
 """An operation class created from a circuit has the circuit's qubit and parameter counts and the requested name, and its matrix is the product, in order of application, of the
 matrices of the circuit's operations on their own qubits, where every variable takes the value of the custom operation's parameter of the same index each time it occurs.
 Computing the matrix changes neither the circuit nor the operation, and always reflects the circuit's current operations.""",
 ["programs", "inputs"], "all circuits of single-qubit and controlled gates, all parameter values, repeated access",
 "Tests use each variable once and never change a circuit after computing its matrix.",
 [B, T], [("create_operation", B), ("build_unitary", T)],
 ["CustomOperation.matrix", "build_unitary()"])

prop("C20", "QIR compilation emits every operation once, in order, on its own qubits and bits",
 """Compiling a circuit to QIR declares as many qubits and results as the circuit has and emits one instruction per operation, in order, in the body, with the operation's
 parameters followed by the references of its qubits, numbered by their position among all qubits of the circuit; each measured qubit
 gives one measurement into the reference of its own bit and one output record. Identity operations are skipped; anything that has no valid representation, an operation after a
 measurement included, raises instead of being dropped or altered, and external gates are declared once with their parameter and qubit types in argument order.""",
 ["inputs", "programs"], "all circuits, any number of registers, both external modes",
 "Tests compile circuits with one register and a few gates.",
 [QC, QI], [("qir_module", QC), ("Operations tables", QI), ("Instruction.execute", QI)],
 ["Circuit.to_qir()"])

prop("C21", "A QIR module keeps its instructions through compile, reset and recompile",
 """Compiling a module emits its body, then measurement, then output instructions, each once and in insertion order, followed by the return, and reports verification
 errors when strict; compiling again requires force and emits the same non-external instructions again. Resetting with instruction removal leaves an empty, uncompiled
 module, reset or not the text and bitcode come from the current compilation, a set return value is only replaced by force, and an instruction accepts only valid
arguments, is executed as what its type says, and equals another one exactly when name, type, parameters and the numbers of
qubits and results agree.""",
 ["histories"], "every sequence of adding instructions and functions, compiling, resetting and reading",
 "Tests follow a few sequences.",
 [QC, QI], [("BaseModule.compile/reset", QC), ("Instruction", QI)],
 ["BaseModule.qir", "BaseModule.bitcode"])

prop("C22", "Loading QIR reproduces its gate calls on the same qubits, in order",
 """Loading a QIR program adds one operation per gate call in program order, stopping at each function's return, as the gate the name stands for, with the call's parameters and qubits
 by index, growing the circuit to hold every qubit and bit used and never shrinking it; an unknown gate raises. All
 measurements are added together after the gates as one measurement of the measured qubits into their own result bits, and the name tables used for loading are the exact inverse of those used for compiling.""",
 ["inputs", "programs"], "all base-profile programs, with or without a given circuit",
 "Tests load a few programs.",
 [QL, QI], [("_module_to_circuit", QL), ("_deconstruct_call_instruction", QL), ("Operations tables", QI)],
 ["Circuit.from_qir()"])

prop("C23", "Each gate's OpenQASM text names the standard gate with operands in role order",
 """Every gate writes its own OpenQASM name, its parameters in declared order and its qubits in role order (controls before targets), each
 qubit as the register and index given by the mapping, or by position without one; an operation without qubits writes the bare gate. Gate declarations use the gate's own name and operand counts, and operations
 without an OpenQASM form raise NotImplementedError.""",
 ["inputs"], "all gates, parameters, qubits and mappings",
 "Tests check one rendering per gate with default labels.",
 [O, B], [("to_qasm of each gate", O), ("Operation._map_qubits", B)],
 ["Operation.to_qasm()"])

prop("C24", "Circuit OpenQASM declares what it uses and lists every operation in order",
 """The OpenQASM text of a circuit has the header, then one declaration per quantum and per classical register with its size, then every operation once, in order, and each operand
 refers to the declared name of the register holding the qubit and the index of the qubit in that register, with generated or user labels alike. Requested gate declarations appear once per
 gate kind before use; other versions, parametric circuits, and conditional or other operations without an OpenQASM form raise instead of being written without their meaning.""",
 ["inputs", "configurations"], "all circuits, register layouts, label options",
 "Tests use few layouts; agreement of declared and used names is a relation over all of them.",
 [C, R], [("Circuit.to_qasm", C), ("QuantumRegister.to_qasm / ClassicalRegister.to_qasm", R)],
 ["Circuit.to_qasm()"])

prop("C25", "Equality and hashing of qubits, bits, variables and operations are consistent",
 """Qubits and bits are equal to their own kind exactly when their identifiers agree, variables exactly when their names agree, and equal ones hash alike whatever their labels and values.
 Operations are equal exactly when their kind, qubits and (where they have them) parameters agree; a bit or variable that holds a value also equals that value and no other; comparing with anything else answers false and never raises.""",
 ["inputs"], "all pairs of objects",
 "Tests compare a few pairs.",
 [P, B], [("__eq__/__hash__", P), ("Operation.__eq__/ParametricOperation.__eq__", B)],
 ["==", "hash()"])

prop("C26", "Identifiers handed out are never repeated",
 """Without a counter reset, every identifier handed out differs from all handed out before, over any number of requests and refreshes: batches are drawn from a non-repeating enumeration
 and lengths only grow. When the supply is exhausted a request raises instead of repeating, every new qubit and bit takes a fresh identifier that
 never changes, and a reset applies exactly the requested length and batch size (or the defaults).""",
 ["histories"], "every sequence of requests and refreshes",
 "Tests draw some thousand identifiers.",
 [ID, P], [("IDCounter.next/refresh/reset", ID), ("Qubit/Bit construction", P)],
 ["IDCounter.next()", "Qubit.id", "Bit.id"])

prop("C27", "Mixed properties resolve on class and instance alike and cannot be overwritten",
 """A mixed property calls its function with the class, and with the instance (or nothing) when the function takes it, whether read on
 the class or on an instance; one that requires an instance reads as None on the class. It cannot be assigned on an
 instance (AttributeError), an operation class's matrix cannot be assigned (ValueError), and other class attributes can be set as usual.""",
 ["inputs", "programs"], "all mixed properties, both access paths",
 "Tests exercise some properties on one path.",
 [M, B], [("mixedproperty.__get__/__set__", M), ("ABCLockedAttr.__setattr__", B)],
 ["attribute access on Operation classes and instances"])

prop("C28", "Reading a circuit or operation never changes it",
 """Inspecting a circuit, register or operation (printing, comparing, iterating, finding and counting qubits, reading matrices and
 decompositions, exporting to OpenQASM or QIR, reading state and density matrix) leaves its operations, their qubits, parameters and conditions, registers, bits, lock and context state as they
 were, and records no operation in any active context.""",
 ["histories", "programs"], "every read-only entry point, in or outside a context",
 "Absence of effects over all call paths is a whole-program property.",
 [C, B, O, R, QC, T], [("effects of read-only entry points", C)],
 ["public attributes before and after"])

prop("C29", "Resetting a circuit returns it to a clean, reusable condition",
 """Resetting a circuit empties its operation list, unlocks it and gives it a fresh context; keeping the registers also clears every bit's value and keeps every qubit and bit, dropping them leaves no
 register, qubit or bit behind. The circuit can be entered and filled again afterwards, and no other circuit is affected.""",
 ["histories"], "every circuit history before a reset",
 "Tests reset one or two circuits.",
 [C], [("Circuit.reset", C)],
 ["Circuit.circuit", "Circuit.qregisters", "Circuit.qubits", "Bit.value"])

prop("C30", "An operation is executed unless one of its conditional bits is zero",
 """Conditioning an operation on one bit or several attaches exactly those bits and returns the same operation; it is
 blocked exactly when at least one of them currently has value zero, and an operation without conditions is never blocked.
 The condition is evaluated at execution time, not when the operation is created.""",
 ["inputs", "histories"], "all operations, sets of bits and bit values",
 "Tests cover one or two bits.",
 [B, P], [("Operation.conditional/is_blocked", B), ("Bit.__bool__", P)],
 ["Operation.is_blocked"])

prop("C31", "A declared decomposition denotes its operation",
 """Where an operation offers a decomposition, applying the named operations in order, on the same qubits and taking the operation's parameters in order, has the operation's matrix for all
 parameter values. The decomposition read on the class and on an instance is the declared one; where none is declared, reading it raises NotImplementedError.""",
 ["inputs"], "all operation classes and parameter values",
 "Tests check that the two declared lists exist; that they multiply to the matrix is a statement about all angles.",
 [O, B], [("Z/Rotation _decomposition", O), ("Operation.decomposition", B)],
 ["Operation.decomposition"])

prop("N01", "Measurement samples follow the Born distribution",
 """Over many samples the relative frequency of each outcome converges to the squared magnitude of the state's amplitudes, and expectation values converge accordingly.""",
 ["inputs"], "all states and all random streams",
 "A statistical statement about random draws; tests can only bound it loosely.",
 [B, G], [("Measurement.sample/expval", B)], ["Measurement.sample()", "Measurement.expval()"])

prop("N02", "Simulated states stay normalized within floating-point tolerance",
 """After simulating any circuit the state has unit norm up to rounding, however many gates it has.""",
 ["inputs"], "all circuits of any depth",
 "Rounding accumulates with depth; tests use shallow circuits.",
 [S, G], [("gate kernels", G)], ["Circuit.state"])

prop("N03", "A circuit exported to QIR and loaded again has the same unitary",
 """For every circuit of base-profile gates, loading its QIR text gives a circuit whose unitary and measurements equal the original's.""",
 ["inputs"], "all circuits of base-profile gates",
 "Round trips are sampled on a few circuits.",
 [QC, QL], [("qir_module", QC), ("_module_to_circuit", QL)], ["Circuit.to_qir()", "Circuit.from_qir()"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in out:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(out))
