"""Resetting a circuit."""
import copy
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
from dwave.gate.operations.base import Measurement
from dwave.gate.primitives import Qubit, Bit


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def reset(c, keep):
    if keep and choose(0, 1):
        return expect_ok(attempt(lambda: c.reset()), "reset")
    return expect_ok(attempt(lambda: choose(lambda: c.reset(keep), lambda: c.reset(keep_registers=keep))()), "reset")


def layout(registers):
    return [(label, list(r)) for label, r in registers.items()]


def scen_keep():
    """operations and values gone, registers kept"""
    c = a_circuit()
    assume(CircuitContext.active_context is None or choose(True, False))
    q, b, n, m = list(c.qubits), list(c.bits), c.num_qubits, c.num_bits
    ql, cl = layout(c.qregisters), layout(c.cregisters)
    reset(c, True)
    same(len(c.circuit), 0, "number of operations")
    same(list(c.circuit), [], "the operations")
    expect(not c.is_locked(), "unlocked")
    same_strict(list(c.qubits), q, "the qubits")
    same_strict(list(c.bits), b, "the bits")
    same(c.num_qubits, n, "number of qubits")
    same(c.num_bits, m, "number of bits")
    same_strict(layout(c.qregisters), ql, "the quantum registers")
    same_strict(layout(c.cregisters), cl, "the classical registers")
    expect(all([bit.value is None for bit in c.bits]), "every bit's value is cleared")


def scen_keep_values():
    """every bit is cleared, also of circuits filled by hand"""
    c = Circuit()
    if choose(0, 1):
        c.add_qregister(2, choose(None, "r"))
    for n in choose((), (3,), (1, 2), (2, 0, 1)):
        c.add_cregister(n, choose(None, "r" + str(n)))
    for bit in c.bits:
        bit.set(choose(0, 1))
    ql, cl = layout(c.qregisters), layout(c.cregisters)
    reset(c, True)
    same_strict(layout(c.qregisters), ql, "the quantum registers")
    same_strict(layout(c.cregisters), cl, "the classical registers")
    for bit in c.bits:
        expect(bit.value is None, "every bit's value is cleared")


def scen_drop():
    """nothing is left"""
    c = a_circuit()
    if choose(0, 1):
        c.qubits, c.bits
    reset(c, False)
    same(len(c.circuit), 0, "number of operations")
    expect(not c.is_locked(), "unlocked")
    same(len(c.qregisters), 0, "number of quantum registers")
    same(len(c.cregisters), 0, "number of classical registers")
    same(list(c.qubits), [], "the qubits")
    same(list(c.bits), [], "the bits")
    same(c.num_qubits, 0, "number of qubits")
    same(c.num_bits, 0, "number of bits")


def scen_context():
    """a fresh context, entered and filled again"""
    c = a_circuit()
    if choose(0, 1):
        before = c.context
    else:
        before = None
    keep = choose(True, False)
    reset(c, keep)
    new = c.context
    expect(new is not before, "a fresh context")
    same_object(new.circuit, c, "of the circuit")
    expect(not new.frozen, "not frozen")
    same_object(c.context, new, "kept from then on")
    assume(CircuitContext.active_context is None)
    if not keep:
        c.add_qregister(1, "a")
        c.add_cregister(1, "b")
    assume(c.num_qubits > 0)
    q = c.qubits[any_index(c.qubits, "k")]
    with c.context as regs:
        same_strict(list(regs.q), list(c.qubits), "the qubits handed out")
        same_strict(list(regs.c), list(c.bits), "the bits handed out")
        op = ops.X(q)
    same(len(c.circuit), 1, "number of operations")
    same_object(c.circuit[0], op, "the recorded operation")
    expect(c.is_locked(), "locked after the context")


def scen_add():
    """registers, qubits and bits can be added after a reset"""
    c = a_circuit()
    reset(c, False)
    n, m = any_int("n", 0), any_int("m", 0)
    expect_ok(attempt(lambda: c.add_qregister(n, "a")), "adding a quantum register")
    expect_ok(attempt(lambda: c.add_cregister(m, "a")), "adding a classical register")
    same(c.num_qubits, n, "number of qubits")
    same(c.num_bits, m, "number of bits")
    same(len(c.qubits), n, "number of qubits")
    same(len(c.bits), m, "number of bits")
    q, b = any_inst(Qubit, "q"), any_inst(Bit, "b")
    assume(q not in c.qubits and b not in c.bits)
    expect_ok(attempt(lambda: c.add_qubit(q, "a")), "adding a qubit")
    expect_ok(attempt(lambda: c.add_bit(b, "a")), "adding a bit")
    same_strict(c.qubits[-1], q, "the last qubit")
    same_strict(c.bits[-1], b, "the last bit")


def scen_keep_add():
    """registers can be added after a reset that keeps them"""
    c = a_circuit()
    before = list(c.qubits)
    reset(c, True)
    label = any_str("label")
    assume(label not in c.qregisters)
    expect_ok(attempt(lambda: c.add_qregister(1, label)), "adding a quantum register")
    same(len(c.qubits), len(before) + 1, "number of qubits")
    same_strict(list(c.qubits)[:-1], before, "the old qubits")


def scen_parameters():
    """the parameter register of a parametric circuit is kept"""
    c = any_circuit("pc", ParametricCircuit)
    ps = [p for p in parameters_of(c)]
    reset(c, choose(True, False))
    same_strict([p for p in parameters_of(c)], ps, "the parameters")


def scen_others():
    """no other circuit is affected"""
    c, d = a_circuit(), any_circuit("d")
    assume(c is not d)
    assume(not any([x is b for b in d.bits for x in c.bits]))
    before, q, b = freeze_value(d.circuit), list(d.qubits), [x.value for x in d.bits]
    ql, cl, locked = layout(d.qregisters), layout(d.cregisters), d.is_locked()
    reset(c, choose(True, False))
    same_strict(d.circuit, before, "its operations")
    same_strict(list(d.qubits), q, "its qubits")
    same_strict(layout(d.qregisters), ql, "its quantum registers")
    same_strict(layout(d.cregisters), cl, "its classical registers")
    same_strict([x.value for x in d.bits], b, "its bits' values")
    same(d.is_locked(), locked, "its lock")


def scen_twice():
    """a second life: fill, lock, reset, fill"""
    c = Circuit(2, 1)
    with c.context as regs:
        ops.X(regs.q[0])
        Measurement(regs.q[1]) | regs.c[0]
    c.bits[0].set(1)
    old = list(c.qubits)
    op = c.circuit[0]
    keep = choose(True, False)
    reset(c, keep)
    same(c.circuit, [], "the operations")
    expect(op.qubits == (old[0],), "old operations keep their qubits")
    if keep:
        same_strict(list(c.qubits), old, "the qubits")
        expect(c.bits[0].value is None, "cleared")
    else:
        c.add_qregister(2)
        c.add_cregister(1)
        expect(c.qubits[0] not in old, "new qubits")
        same(list(c.qregisters), ["qreg0"], "the labels")
    with c.context as regs:
        y = ops.Y(regs.q[1])
    same_object(c.circuit[0], y, "the recorded operation")
    same(len(c.circuit), 1, "number of operations")
    reset(c, True)
    same(len(c.circuit), 0, "number of operations")
    expect(not c.is_locked(), "unlocked")
