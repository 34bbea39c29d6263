"""Appending, extending and removing operations."""
from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, Measurement
from dwave.gate.primitives import Qubit
import dwave.gate.operations as ops


def belongs(c, op):
    return op.qubits is None or all(q in c.qubits for q in op.qubits)


def scen_append():
    """append adds exactly the operation at the end, or raises ValueError and changes nothing"""
    c = choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))
    op = any_inst(Operation, "op")
    assume(not c.is_locked())
    assume(not isinstance(op, ParametricOperation))
    before = freeze_value(c.circuit)
    r = attempt(lambda: c.append(op))
    if belongs(c, op):
        expect_ok(r, "append of an operation on the circuit's qubits")
        same(len(c.circuit), len(before) + 1, "number of operations")
        same_object(c.circuit[-1], op, "the last operation")
        same(c.circuit[:-1], before, "the earlier operations")
    else:
        expect_raises(r, ValueError, "append of an operation on other qubits")
        same(c.circuit, before, "operations after a rejected append")


def scen_append_parametric():
    """the same for parametric operations whose parameters are values"""
    c = choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))
    op = any_inst(ParametricOperation, "op")
    assume(not c.is_locked())
    before = freeze_value(c.circuit)
    r = attempt(lambda: c.append(op))
    if belongs(c, op):
        if not raised(r):
            same(len(c.circuit), len(before) + 1, "number of operations")
            same_object(c.circuit[-1], op, "the last operation")
            same(c.circuit[:-1], before, "the earlier operations")
        else:
            expect_raises(r, ValueError, "append of an operation with unset variables")
            same(c.circuit, before, "operations after a rejected append")
    else:
        expect_raises(r, ValueError, "append of an operation on other qubits")
        same(c.circuit, before, "operations after a rejected append")


def scen_append_new_circuit():
    """a new circuit accepts operations on its own qubits and refuses others"""
    c = Circuit(2)
    d = Circuit(2)
    q = choose(c, d).qubits[choose(0, 1)]
    op = Measurement(q)
    r = attempt(lambda: c.append(op))
    if q in c.qubits:
        expect_ok(r, "append")
        same(c.circuit, [op], "operations")
    else:
        expect_raises(r, ValueError, "append of an operation on another circuit's qubit")
        same(c.circuit, [], "operations")


def scen_extend():
    """extend appends all operations in the order given"""
    c = choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))
    lst = any_seq(Measurement, "ops")
    assume(not c.is_locked())
    before = freeze_value(c.circuit)
    ok = all(belongs(c, op) for op in lst)
    r = attempt(lambda: c.extend(lst))
    if ok:
        expect_ok(r, "extend with operations on the circuit's qubits")
        same(c.circuit, before + [op for op in lst], "operations after extend")
    else:
        expect_raises(r, ValueError, "extend with an operation on other qubits")


def scen_extend_two():
    """extend by two operations keeps their order, repetitions included"""
    c = any_circuit("c")
    a = any_inst(Measurement, "a")
    b = any_inst(Measurement, "b")
    assume(not c.is_locked())
    assume(belongs(c, a))
    before = freeze_value(c.circuit)
    r = attempt(lambda: c.extend(choose([a, b], [a, a], (a, b))))
    if belongs(c, b):
        expect_ok(r, "extend")
        same(len(c.circuit), len(before) + 2, "number of operations")
        same(c.circuit[:-2], before, "the earlier operations")
        same_object(c.circuit[-2], a, "the first added operation")


def scen_remove():
    """remove deletes exactly the first equal operation, or raises ValueError and changes nothing"""
    c = any_circuit("c")
    op = any_inst(Operation, "op")
    before = freeze_value(c.circuit)
    r = attempt_all(lambda: c.remove(op))
    if op in before:
        expect_ok(r, "remove of a recorded operation")
        k = before.index(op)
        same(len(c.circuit), len(before) - 1, "number of operations")
        i = any_index(c.circuit)
        same_object(c.circuit[i], before[i] if i < k else before[i + 1], "an operation after remove")
    else:
        expect_raises(r, ValueError, "remove of an operation that is not recorded")
        same(c.circuit, before, "operations after a failed remove")


def scen_remove_listed():
    """remove of an operation recorded twice deletes its first occurrence only"""
    c = any_circuit("c")
    q = any_inst(Qubit, "q")
    assume(not c.is_locked())
    assume(q in c.qubits)
    assume(len(c.circuit) == 0)
    a, b = Measurement(q), Measurement(q)
    c.extend([a, b, a])
    c.remove(a)
    same(c.circuit, [b, a], "operations after remove")


def scen_remove_equal():
    """remove by an equal operation deletes the first equal one only"""
    c = any_circuit("c")
    q = any_inst(Qubit, "q")
    assume(not c.is_locked())
    assume(q in c.qubits)
    assume(len(c.circuit) == 0)
    a, b, x, y = Measurement(q), Measurement(q), ops.Barrier(q), ops.Barrier(q)
    c.extend([x, a, y, b])
    r = attempt(lambda: c.remove(Measurement(q)))
    expect_ok(r, "remove of a recorded operation")
    same(c.circuit, [x, y, b], "operations after remove")
    c.remove(ops.Barrier(q))
    same(c.circuit, [y, b], "operations after the second remove")
    c.remove(b)
    same(c.circuit, [y], "operations after the third remove")
    expect_raises(attempt(lambda: c.remove(Measurement(q))), ValueError, "remove of an operation that is not recorded")
    same(c.circuit, [y], "operations after a failed remove")


def scen_extend_own():
    """a circuit is extended with its own operations"""
    c = Circuit(2)
    with c.context as regs:
        for k in range(choose(0, 1, 2, 3)):
            choose(lambda: ops.X(regs.q[0]), lambda: ops.CX(regs.q[0], regs.q[1]))()
    c.unlock()
    before = list(c.circuit)
    expect_ok(attempt(lambda: c.extend(c.circuit)), "extending a circuit with its own operations")
    same_strict(list(c.circuit), before + before, "the operations, twice")
