"""Locked circuits reject changes."""
from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, ControlledOperation, Measurement
from dwave.gate.primitives import Qubit, Bit
from dwave.gate.registers.registers import QuantumRegister, ClassicalRegister
import dwave.gate.operations as ops


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def scen_append():
    """append on a locked circuit raises CircuitError and changes neither the circuit nor the operation"""
    c = a_circuit()
    op = any_inst(Operation, "op")
    before = freeze_value(c.circuit)
    cond = condition_of(op)
    qubits = op.qubits
    assume(c.is_locked())
    r = attempt(lambda: c.append(op))
    expect_raises(r, CircuitError, "append on a locked circuit")
    same(c.circuit, before, "operations after a rejected append")
    same(op.qubits, qubits, "qubits of the rejected operation")
    same(condition_of(op), cond, "condition of the rejected operation")
    expect(c.is_locked(), "the circuit stays locked")


def scen_append_parametric():
    """a parametric operation rejected by a locked circuit keeps its variables"""
    c = a_circuit()
    op = any_inst(ParametricOperation, "op")
    params = freeze_value(op.parameters)
    before = freeze_value(c.circuit)
    assume(c.is_locked())
    r = attempt(lambda: c.append(op))
    expect_raises(r, CircuitError, "append on a locked circuit")
    same(c.circuit, before, "operations after a rejected append")
    same(op.parameters, params, "parameters of the rejected operation")


def scen_extend():
    """extend on a locked circuit raises CircuitError and adds nothing"""
    c = a_circuit()
    lst = any_seq(Operation, "ops")
    before = freeze_value(c.circuit)
    assume(c.is_locked())
    assume(len(lst) > 0)
    r = attempt(lambda: c.extend(lst))
    expect_raises(r, CircuitError, "extend on a locked circuit")
    same(c.circuit, before, "operations after a rejected extend")


def scen_construct():
    """constructing an operation in the context of a circuit that was locked meanwhile is rejected"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_seq(Qubit, "qs")
    with c.context:
        c.lock()
        before = freeze_value(c.circuit)
        r = attempt(lambda: choose(Operation, ops.Measurement, ops.Barrier)(q))
        expect_raises(r, CircuitError, "construction in a locked circuit's context")
        same(c.circuit, before, "operations after a rejected construction")


def scen_construct_kinds():
    """parametric and controlled operations are rejected too"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    p = any_inst(Qubit, "p")
    x = any_value("x")
    k = any_num("k")
    with c.context:
        c.lock()
        before = freeze_value(c.circuit)
        r = attempt_one(lambda: ops.X(q), lambda: ops.RX(k, q), lambda: ops.CNOT(p, q),
                   lambda: ops.CRX(k, p, q))
        expect_raises(r, CircuitError, "construction in a locked circuit's context")
        same(c.circuit, before, "operations after a rejected construction")


def scen_template():
    """a template applied in the context of a locked circuit adds nothing"""
    c = any_circuit("c")
    t = any_circuit("t")
    assume(not c.is_locked())
    assume(c is not t)
    q = any_seq(Qubit, "qs")
    assume(len(q) == len(t.qubits))
    assume(len(t.circuit) > 0)
    with c.context:
        c.lock()
        before = freeze_value(c.circuit)
        r = attempt(lambda: t(q))
        same(c.circuit, before, "operations after a rejected template")


def scen_lock_unlock():
    """lock takes effect at once, unlock lifts it"""
    c = a_circuit()
    c.lock()
    expect(c.is_locked(), "locked after lock()")
    c.lock()
    expect(c.is_locked(), "locked after a second lock()")
    c.unlock()
    expect(not c.is_locked(), "unlocked after unlock()")
    c.unlock()
    expect(not c.is_locked(), "unlocked after a second unlock()")


def scen_reset_unlocks():
    """reset lifts the lock"""
    c = a_circuit()
    c.reset(any_bool("keep"))
    expect(not c.is_locked(), "unlocked after reset")


def scen_new_unlocked():
    """a new circuit accepts operations"""
    c = choose(Circuit, ParametricCircuit)(any_int("n", 0), any_int("m", 0))
    expect(not c.is_locked(), "a new circuit is unlocked")


def scen_lock_lasts():
    """nothing but unlock and reset lifts the lock"""
    c = a_circuit()
    c.lock()
    op = any_inst(Operation, "op")
    attempt_one(lambda: c.remove(op), lambda: c.append(op), lambda: c.context.__enter__(),
           lambda: c.num_qubits, lambda: c.set_state(any_array("s"), any_bool("force")))
    expect(c.is_locked(), "still locked")


def scen_lock_lasts_find():
    """looking up qubits and bits keeps the lock"""
    c = a_circuit()
    c.lock()
    v = any_value("v")
    q = any_inst(Qubit, "q")
    b = any_inst(Bit, "b")
    attempt_one(lambda: c.get_qubit(v), lambda: c.get_bit(v), lambda: c.find_qubit(q), lambda: c.find_bit(b))
    expect(c.is_locked(), "still locked")


def scen_lock_lasts_add():
    """adding qubits, bits and registers keeps the lock"""
    c = any_circuit("c")
    c.lock()
    q = any_inst(Qubit, "q")
    b = any_inst(Bit, "b")
    n = any_int("n", 0)
    attempt_one(lambda: c.add_qubit(q), lambda: c.add_bit(b), lambda: c.add_qregister(n), lambda: c.add_cregister(n))
    expect(c.is_locked(), "still locked")


def scen_lock_lasts_add_to():
    """adding to a named register, existing or not, keeps the lock"""
    c = any_circuit("c")
    c.lock()
    q = any_inst(Qubit, "q")
    b = any_inst(Bit, "b")
    n = any_int("n", 0)
    s = any_str("s")
    attempt_one(lambda: c.add_qubit(q, s), lambda: c.add_bit(b, s), lambda: c.add_qubit(None, s), lambda: c.add_bit(None, s),
                lambda: c.add_qregister(n, s), lambda: c.add_cregister(n, s), lambda: c.add_qubit(), lambda: c.add_bit())
    expect(c.is_locked(), "still locked")


def scen_lock_lasts_read():
    """reading the circuit keeps the lock"""
    c = a_circuit()
    c.lock()
    attempt_one(lambda: c.qubits, lambda: c.bits, lambda: c.num_bits, lambda: c.context, lambda: repr(c), lambda: c.parametric,
                lambda: c.num_parameters, lambda: c.state, lambda: c.density_matrix, lambda: c.circuit)
    expect(c.is_locked(), "still locked")


def scen_lock_lasts_eval():
    """evaluating the parameters of a circuit keeps its lock"""
    c = any_circuit("pc", ParametricCircuit)
    c.lock()
    attempt_one(lambda: c.eval(any_seq(None, "vals"), any_bool("inplace")), lambda: c.reset_variables())
    expect(c.is_locked(), "still locked")


def scen_lock_lasts_template():
    """applying a locked circuit as a template keeps its lock"""
    c = any_circuit("c")
    t = any_circuit("t")
    assume(c is not t)
    assume(not c.is_locked())
    t.lock()
    with c.context:
        attempt(lambda: t(any_seq(Qubit, "qs")))
    expect(t.is_locked(), "still locked")


def scen_lock_other():
    """locking or unlocking one circuit leaves another as it was"""
    c = a_circuit()
    d = any_circuit("d")
    assume(c is not d)
    was = d.is_locked()
    attempt_one(lambda: c.lock(), lambda: c.unlock(), lambda: c.reset())
    expect(d.is_locked() == was, "another circuit's lock")
