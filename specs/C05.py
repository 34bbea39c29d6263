"""Freezing a context."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.operations.base import Measurement
from dwave.gate.primitives import Qubit
import dwave.gate.operations as ops


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def scen_block():
    """nothing is recorded in the block, everything after it, however the block ends"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in c.qubits)
    mode = choose("normal", "raise")

    def body():
        with choose(CircuitContext, c.context).freeze:
            ops.X(q)
            if mode == "raise":
                raise KeyError("x")
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt(body)
        if mode == "raise":
            expect_raises(r, KeyError, "an exception in a freeze block")
        else:
            expect_ok(r, "a freeze block")
        same(c.circuit, before, "operations recorded while frozen")
        expect(not c.context.frozen, "thawed after the block")
        op = ops.X(q)
        same(len(c.circuit), len(before) + 1, "number of operations recorded after the block")
        same_object(c.circuit[-1], op, "the recorded operation")


def scen_nested():
    """blocks nest: the inner block's end keeps the outer one frozen"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in c.qubits)
    mode = choose("normal", "raise")

    def inner():
        with CircuitContext.freeze:
            expect(c.context.frozen, "frozen in the inner block")
            ops.X(q)
            if mode == "raise":
                raise KeyError("x")
    with c.context:
        before = freeze_value(c.circuit)
        with CircuitContext.freeze:
            expect(c.context.frozen, "frozen in the block")
            attempt(inner)
            expect(c.context.frozen, "still frozen after the inner block")
            ops.X(q)
            same(c.circuit, before, "operations recorded while frozen")
        expect(not c.context.frozen, "thawed after the outer block")
        ops.X(q)
        same(len(c.circuit), len(before) + 1, "number of operations recorded after the blocks")


def scen_twice():
    """blocks one after the other"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in c.qubits)
    with c.context:
        before = freeze_value(c.circuit)
        with CircuitContext.freeze:
            ops.X(q)
        with CircuitContext.freeze:
            ops.X(q)
            expect(c.context.frozen, "frozen in the second block")
        same(c.circuit, before, "operations recorded while frozen")
        expect(not c.context.frozen, "thawed after the second block")


def scen_no_context():
    """freezing without an active context raises CircuitError"""
    c = a_circuit()
    if choose(True, False):
        assume(not c.is_locked())
        with c.context:
            pass

    def body():
        with choose(CircuitContext, c.context).freeze:
            pass
    expect_raises(attempt(body), CircuitError, "freezing without an active context")
    expect(not c.context.frozen, "the context is not frozen")


def scen_later_context():
    """freezing never affects other contexts"""
    c = a_circuit()
    d = any_circuit("d")
    assume(c is not d)
    assume(not c.is_locked())
    assume(not d.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in d.qubits)

    def body():
        with c.context:
            with CircuitContext.freeze:
                expect(not d.context.frozen, "another context is not frozen")
                if choose(True, False):
                    raise KeyError("x")
    attempt(body)
    n = len(d.circuit)
    with d.context:
        expect(not d.context.frozen, "a later context is not frozen")
        ops.X(q)
        same(len(d.circuit), n + 1, "number of operations recorded in a later context")
    c.unlock()
    with c.context:
        expect(not c.context.frozen, "the context is not frozen when entered again")


def scen_reset_inside():
    """a new context of the same circuit starts thawed"""
    c = Circuit(1)
    with c.context:
        with CircuitContext.freeze:
            ops.X(c.qubits[0])
        same(c.circuit, [], "operations recorded while frozen")
    c.reset()
    with c.context:
        ops.X(c.qubits[0])
        same(len(c.circuit), 1, "operations recorded")
