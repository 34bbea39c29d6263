"""Reading never changes anything."""
import copy
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
from dwave.gate.operations.base import Measurement, Barrier, ControlledOperation, ParametricOperation, create_operation
from dwave.gate.operations import operations as defined
from dwave.gate.registers.registers import QuantumRegister
from dwave.gate.primitives import Qubit, Bit, Variable
from dwave.gate.tools.unitary import build_unitary


def layout(registers):
    return [(label, list(r), r.frozen) for label, r in registers.items()]


def about(op):
    """What can be seen of one operation."""
    seen = [op.qubits, tuple(condition_of(op) or ())]
    if isinstance(op, ParametricOperation):
        seen.append(list(op.parameters))
    if isinstance(op, ControlledOperation):
        seen.append((op.control, op.target))
    if isinstance(op, Measurement):
        seen.append(list(op.bits or ()))
    return seen


def values(op):
    """The values of an operation's variables."""
    return [p.value for p in op.parameters if isinstance(p, Variable)]


def look(c):
    """What can be seen of a circuit."""
    return [list(c.circuit), layout(c.qregisters), layout(c.cregisters), list(c.qubits), list(c.bits), c.qubits.frozen, c.bits.frozen, [b.value for b in c.bits],
            c.is_locked(), c.num_qubits, c.num_bits, c.num_parameters]


def surroundings():
    a = CircuitContext.active_context
    if a is None:
        return [None]
    return [a, a.frozen, list(a.circuit.circuit), a.circuit.is_locked()]


def unchanged(read, c, msg):
    """Reading leaves the circuit, every operation and the active context as they were."""
    k = any_index(c.circuit, "k") if choose(False, len(c.circuit) > 0) else None
    seen, around = look(c), surroundings()
    known = None if k is None else about(c.circuit[k])
    attempt(read)
    same_strict(look(c), seen, "the circuit after " + msg)
    same_strict(surroundings(), around, "the context after " + msg)
    if k is not None:
        same_strict(about(c.circuit[k]), known, "an operation after " + msg)


def a_circuit():
    return choose(lambda: any_circuit("c"), lambda: any_circuit("pc", ParametricCircuit))()


def scen_circuit():
    """looking at a circuit"""
    c = a_circuit()
    unchanged(*choose((lambda: repr(c), c, "repr"), (lambda: str(c), c, "str"), (lambda: c == any_value("other"), c, "comparing"),
                      (lambda: [op for op in c.circuit], c, "iterating"), (lambda: c.num_qubits + c.num_bits + c.num_parameters, c, "counting"),
                      (lambda: c.parametric, c, "parametric"), (lambda: c.is_locked(), c, "is_locked"), (lambda: c.qubits, c, "qubits"), (lambda: c.bits, c, "bits")))


def scen_find():
    """finding qubits and bits"""
    c = a_circuit()
    q, b, label = any_inst(Qubit, "q"), any_inst(Bit, "b"), any_str("label")
    unchanged(*choose((lambda: c.find_qubit(q), c, "find_qubit"), (lambda: c.find_qubit(q, qreg_label=True), c, "find_qubit"),
                      (lambda: c.find_bit(b), c, "find_bit"), (lambda: c.find_bit(b, creg_label=True), c, "find_bit"),
                      (lambda: c.get_qubit(label), c, "get_qubit"), (lambda: c.get_qubit(label, return_all=True), c, "get_qubit"),
                      (lambda: c.get_bit(label), c, "get_bit"), (lambda: c.get_bit(label, return_all=True), c, "get_bit")))


def scen_registers():
    """looking at registers"""
    c = a_circuit()
    q, b, i = any_inst(Qubit, "q"), any_inst(Bit, "b"), any_int("i", 0)
    if choose(0, 1):
        assume(len(c.qregisters) > 0)
        label = list(c.qregisters)[any_index(list(c.qregisters), "r")]
        r, x = c.qregisters[label], q
    else:
        assume(len(c.cregisters) > 0)
        label = list(c.cregisters)[any_index(list(c.cregisters), "r")]
        r, x = c.cregisters[label], b
    unchanged(*choose((lambda: repr(r), c, "repr"), (lambda: r.index(x), c, "index"), (lambda: x in r, c, "membership"), (lambda: r[i], c, "indexing"),
                      (lambda: len(r), c, "len"), (lambda: [y for y in r], c, "iterating"), (lambda: r == c.bits, c, "comparing"), (lambda: r + r, c, "adding"),
                      (lambda: r.copy(), c, "copying"), (lambda: copy.deepcopy(r), c, "copying deeply"), (lambda: r.to_qasm(), c, "to_qasm"),
                      (lambda: r.to_qasm("x", 1), c, "to_qasm"), (lambda: str(r), c, "str"), (lambda: r.data, c, "data")))


def scen_find_in():
    """finding qubits and bits in one register"""
    c = a_circuit()
    label = any_str("label")
    if choose(0, 1):
        assume(len(c.qregisters) > 0)
        where = list(c.qregisters)[any_index(list(c.qregisters), "r")]
        unchanged(choose(lambda: c.get_qubit(label, where), lambda: c.get_qubit(label, qreg_label=where, return_all=True)), c, "get_qubit")
    else:
        assume(len(c.cregisters) > 0)
        where = list(c.cregisters)[any_index(list(c.cregisters), "r")]
        unchanged(choose(lambda: c.get_bit(label, where), lambda: c.get_bit(label, creg_label=where, return_all=True)), c, "get_bit")


def scen_register_sum():
    """adding registers makes a new one"""
    a = choose(lambda: QuantumRegister([Qubit("a"), Qubit("b")]), lambda: any_inst(QuantumRegister, "a"), lambda: QuantumRegister())()
    b = choose(lambda: QuantumRegister([Qubit("c")]), lambda: any_inst(QuantumRegister, "b"), lambda: QuantumRegister())()
    x, y, f, g = list(a), list(b), a.frozen, b.frozen
    attempt(choose(lambda: a + b, lambda: (a + b).add(Qubit("new")), lambda: (a + b).freeze()))
    same_strict([list(a), a.frozen], [x, f], "the left register")
    same_strict([list(b), b.frozen], [y, g], "the right register")


def scen_compare():
    """comparing operations"""
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    x, y = any_num("x"), any_num("y")
    a = choose(lambda: ops.X(), lambda: ops.X(q), lambda: ops.RX(x), lambda: ops.RX(x, q), lambda: ops.CX(q, p), lambda: ops.CX(), lambda: ops.CRX(x), lambda: Measurement(q))()
    b = choose(lambda: ops.X(), lambda: ops.X(p), lambda: ops.RX(y), lambda: ops.RX(y, p), lambda: ops.CX(p, q), lambda: ops.CX(), lambda: ops.CRX(y, q, p), lambda: Measurement(p))()
    known, other = about(a), about(b)
    attempt(lambda: a == b)
    same_strict(about(a), known, "the left operation")
    same_strict(about(b), other, "the right operation")


def scen_flat():
    """changing the flat views' lists is looking at copies"""
    c = a_circuit()
    k = any_index(c.circuit, "k") if choose(False, len(c.circuit) > 0) else None
    seen = [list(c.circuit), layout(c.qregisters), layout(c.cregisters)]
    attempt(choose(lambda: c.qubits + c.qubits, lambda: c.bits + c.bits, lambda: c.qubits.copy(), lambda: list(c.qubits).append(1), lambda: list(c.bits).clear()))
    same_strict([list(c.circuit), layout(c.qregisters), layout(c.cregisters)], seen, "the circuit")


def scen_state():
    """reading states"""
    c = a_circuit()
    unchanged(*choose((lambda: c.state, c, "state"), (lambda: c.density_matrix, c, "density_matrix"), (lambda: (c.density_matrix, c.state, c.density_matrix), c, "reading both")))


def scen_state_kept():
    """reading a state keeps it"""
    n = any_int("n", 1)
    c = choose(Circuit, ParametricCircuit)(n)
    a = any_array("a")
    if choose(0, 1):
        assume(a.ndim == 1 and a.shape == (2 ** n,))
        assume(np.isclose(np.linalg.norm(a), 1))
        c.set_state(a)
        same(c.state, a, "the state")
        m = c.density_matrix
        same(c.state, a, "the state after reading the density matrix")
    else:
        assume(a.ndim == 2 and a.shape == (2 ** n, 2 ** n))
        assume(np.isclose(np.trace(a), 1))
        c.set_state(a)
        m = c.density_matrix
        attempt(lambda: c.state)
    same(c.density_matrix, m, "the density matrix, read again")


def an_operation(q, p, r):
    x, y, z = any_num("x"), any_num("y"), any_num("z")
    return choose(lambda: ops.Identity(q), lambda: ops.X(q), lambda: ops.T(q), lambda: ops.RX(x, q), lambda: ops.Rotation((x, y, z), q), lambda: ops.CX(q, p),
                  lambda: ops.CRX(x, q, p), lambda: ops.CRotation((x, y, z), q, p), lambda: ops.SWAP((q, p)), lambda: ops.CSWAP((q, p, r)),
                  lambda: ops.CCX((q, p, r)), lambda: ops.CHadamard(q, p), lambda: Measurement((q, p)), lambda: Barrier((q, p)))()


def readers(op):
    return choose((lambda: repr(op), "repr"), (lambda: str(op), "str"), (lambda: op == choose(op, any_value("other")), "comparing"), (lambda: hash(op), "hashing"),
                  (lambda: op.matrix, "the matrix"), (lambda: op.num_qubits, "num_qubits"), (lambda: (op.num_control, op.num_target), "num_control"),
                  (lambda: (op.control, op.target), "control"), (lambda: op.num_parameters, "num_parameters"), (lambda: op.label, "label"),
                  (lambda: op.decomposition, "the decomposition"), (lambda: op.to_qasm(), "to_qasm"), (lambda: op.is_blocked, "is_blocked"),
                  (lambda: op.qubits, "qubits"), (lambda: op.parameters, "parameters"), (lambda: op.bits, "bits"))


def scen_operation_recorded():
    """looking at a recorded operation, in its own context or later"""
    c = Circuit(3, 2)
    inside = choose(True, False)
    with c.context as regs:
        a = ops.H(regs.q[0]) if False else ops.Hadamard(regs.q[0])
        op = an_operation(regs.q[0], regs.q[1], regs.q[2])
        if isinstance(op, Measurement):
            op | (regs.c[0], regs.c[1])
        if choose(0, 1):
            op.conditional((regs.c[0], regs.c[1]))
        read, name = readers(op)
        if inside:
            known, seen, around = about(op), list(c.circuit), surroundings()
            attempt(read)
            same_strict(list(c.circuit), seen, "the recorded operations after " + name)
            same_strict(surroundings(), around, "the context after " + name)
            same_strict(about(op), known, "the operation after " + name)
    if not inside:
        known, seen = [about(o) for o in c.circuit], look(c)
        attempt(read)
        same_strict(look(c), seen, "the circuit after " + name)
        same_strict([about(o) for o in c.circuit], known, "the operations after " + name)


def scen_operation_elsewhere():
    """looking at an operation while another circuit is being filled records nothing there"""
    op = an_operation(any_inst(Qubit, "q"), any_inst(Qubit, "p"), any_inst(Qubit, "r")) if choose(0, 1) else any_inst(choose(ops.X, ops.RX, ops.CX, ops.CRX, ops.SWAP, ops.Rotation), "old")
    read, name = readers(op)
    c = any_circuit("c")
    assume(CircuitContext.active_context is None and not c.is_locked())
    known = about(op)
    with c.context:
        seen, around = look(c), surroundings()
        attempt(read)
        same_strict(look(c), seen, "the circuit after " + name)
        same_strict(surroundings(), around, "the context after " + name)
        same_strict(about(op), known, "the operation after " + name)


def scen_classes():
    """looking at operation classes in a context"""
    cls = choose(ops.X, ops.RX, ops.CX, ops.CRX, ops.SWAP, ops.CSWAP, ops.CCX, ops.Rotation, ops.CRotation, Measurement, Barrier, ops.CHadamard, ops.Identity)
    c = any_circuit("c")
    assume(CircuitContext.active_context is None and not c.is_locked())
    with c.context:
        seen, around = look(c), surroundings()
        attempt(choose(lambda: cls.matrix, lambda: repr(cls), lambda: cls.num_qubits, lambda: cls.num_control, lambda: cls.num_parameters,
                       lambda: cls.label, lambda: cls.decomposition, lambda: cls.to_qasm()))
        same_strict(look(c), seen, "the circuit")
        same_strict(surroundings(), around, "the context")


def some_circuit():
    """A circuit with operations of several kinds."""
    c = Circuit(2)
    if choose(0, 1):
        c.add_qregister(1, "more")
    c.add_cregister(2, choose(None, "bits"))
    with c.context as regs:
        choose(lambda: ops.X(regs.q[1]), lambda: ops.RX(any_num("x"), regs.q[0]), lambda: ops.Rotation((any_num("x"), any_num("y"), any_num("z")), regs.q[0]), lambda: ops.Identity(regs.q[0]))()
        choose(lambda: ops.CX(regs.q[1], regs.q[0]), lambda: ops.SWAP((regs.q[1], regs.q[0])), lambda: ops.CRX(any_num("w"), regs.q[1], regs.q[0]), lambda: None)()
        choose(lambda: Measurement((regs.q[1], regs.q[0])) | (regs.c[0], regs.c[1]), lambda: ops.Hadamard(regs.q[0]).conditional((regs.c[0],)), lambda: None)()
    if choose(0, 1):
        c.bits[0].set(choose(0, 1))
        c.unlock()
    return c


def exported(c, read, name):
    known, seen = [about(o) for o in c.circuit], look(c)
    attempt(read)
    same_strict(look(c), seen, "the circuit after " + name)
    same_strict([about(o) for o in c.circuit], known, "the operations after " + name)


def scen_qasm():
    """exporting a circuit to OpenQASM"""
    c = some_circuit()
    exported(c, *choose((lambda: c.to_qasm(), "to_qasm"), (lambda: c.to_qasm(reg_labels=True, gate_definitions=True), "to_qasm with declarations")))


def scen_qir():
    """exporting a circuit to QIR"""
    c = some_circuit()
    exported(c, lambda: c.to_qir(), "to_qir")


def scen_qir_external():
    """exporting a circuit to QIR with external gates"""
    c = some_circuit()
    exported(c, lambda: c.to_qir(add_external=True), "to_qir with external gates")


def scen_bitcode():
    """exporting a circuit to QIR bitcode"""
    c = some_circuit()
    exported(c, lambda: c.to_qir(bitcode=True), "to_qir bitcode")


def scen_unitary():
    """reading a circuit's matrix, and making an operation of it"""
    c = some_circuit()
    exported(c, *choose((lambda: build_unitary(c), "build_unitary"), (lambda: create_operation(c), "making an operation of it"), (lambda: copy.deepcopy(c), "copying")))


def scen_template():
    """the operation made of a circuit leaves that circuit alone"""
    c = choose(Circuit, ParametricCircuit)(2)
    with c.context as regs:
        if c.parametric:
            choose(lambda: ops.RX(regs.p[0], regs.q[0]), lambda: ops.Rotation((regs.p[0], 1, regs.p[1]), regs.q[1]), lambda: ops.CRX(regs.p[0], regs.q[0], regs.q[1]))()
        else:
            choose(lambda: ops.RX(any_num("x"), regs.q[0]), lambda: ops.X(regs.q[1]), lambda: ops.CRX(any_num("w"), regs.q[1], regs.q[0]))()
        ops.CX(regs.q[1], regs.q[0])
    made = create_operation(c, choose(None, "Made"))
    op = made([any_num("u"), any_num("v")][:c.num_parameters]) if c.parametric else made()
    exported(c, *choose((lambda: op.matrix, "the matrix"), (lambda: made.matrix, "the matrix of the class"), (lambda: op.to_qasm(), "to_qasm"), (lambda: repr(op), "repr"),
                        (lambda: op.num_qubits, "num_qubits")))


def scen_in_context():
    """exporting while another circuit is being filled records nothing there"""
    c = Circuit(2, 1)
    with c.context as regs:
        choose(lambda: ops.X(regs.q[1]), lambda: ops.RX(any_num("x"), regs.q[0]), lambda: ops.CX(regs.q[1], regs.q[0]), lambda: ops.SWAP((regs.q[1], regs.q[0])),
               lambda: ops.CRX(any_num("w"), regs.q[1], regs.q[0]), lambda: Measurement(regs.q[1]) | regs.c[0])()
    other = Circuit(2, 2)
    with other.context as regs:
        ops.X(regs.q[0])
        around, theirs, seen, known = surroundings(), look(other), look(c), [about(o) for o in c.circuit]
        attempt(choose(lambda: c.to_qasm(gate_definitions=True), lambda: c.to_qir(), lambda: c.to_qir(add_external=True), lambda: build_unitary(c), lambda: copy.deepcopy(c),
                       lambda: create_operation(c), lambda: other.to_qasm(), lambda: other.to_qir()))
        same_strict(surroundings(), around, "the context")
        same_strict(look(other), theirs, "the other circuit")
        same_strict(look(c), seen, "the circuit")
        same_strict([about(o) for o in c.circuit], known, "the operations")


def scen_export_any():
    """exporting any circuit"""
    c = any_circuit("c")
    unchanged(lambda: c.to_qasm(), c, "to_qasm")


def scen_copy():
    """changing a deep copy does not change the circuit"""
    c = Circuit(2, 1)
    with c.context as regs:
        ops.RX(any_num("x"), regs.q[0])
        ops.CX(regs.q[0], regs.q[1])
        Measurement(regs.q[0]) | regs.c[0]
    known, seen = [about(o) for o in c.circuit], look(c)
    d = copy.deepcopy(c)
    choose(lambda: d.reset(False), lambda: d.reset(), lambda: d.unlock(), lambda: d.circuit.pop(), lambda: d.add_qregister(2), lambda: d.bits[0].set(1), lambda: d.circuit[0].parameters.clear())()
    same_strict(look(c), seen, "the circuit")
    same_strict([about(o) for o in c.circuit], known, "the operations")


def scen_bound():
    """looking at an operation with variables keeps them and their values"""
    c = ParametricCircuit(2)
    with c.context as regs:
        op = choose(lambda: ops.RX(regs.p[0], regs.q[0]), lambda: ops.Rotation((regs.p[0], 1, regs.p[1]), regs.q[1]), lambda: ops.CRX(regs.p[0], regs.q[0], regs.q[1]))()
        if choose(0, 1):
            known, seen = [about(op), values(op)], list(c.circuit)
            read, name = readers(op)
            attempt(read)
            same_strict([about(op), values(op)], known, "the operation after " + name)
            same_strict(list(c.circuit), seen, "the recorded operations after " + name)
    if choose(0, 1):
        op.parameters[0].set(any_num("v"))
    known, seen = [about(op), values(op)], look(c)
    read, name = readers(op)
    attempt(read)
    same_strict([about(op), values(op)], known, "the operation after " + name)
    same_strict(look(c), seen, "the circuit after " + name)
