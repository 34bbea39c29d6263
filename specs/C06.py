"""Applying circuits as templates."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.operations.base import (Operation, ParametricOperation, ControlledOperation, Measurement, Barrier)
from dwave.gate.primitives import Qubit, Bit
import dwave.gate.operations as ops


def ours(c, qs):
    return all(q in c.qubits for q in qs)


def scen_apply():
    """every operation is applied once, in order, with its qubits mapped by position"""
    c = any_circuit("c")
    t = any_circuit("t")
    assume(c is not t)
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    assume(len(qs) == len(t.qubits))
    with c.context:
        before = freeze_value(c.circuit)
        told = freeze_value(t.circuit)
        r = attempt(lambda: t(qs))
        expect_ok(r, "applying a circuit")
        same(len(c.circuit), len(before) + len(told), "number of operations")
        same(c.circuit[:len(before)], before, "the earlier operations")
        same(t.circuit, told, "operations of the applied circuit")
        i = any_index(told)
        new, src = c.circuit[len(before) + i], told[i]
        expect(new is not src, "a new operation is recorded")
        expect(new.__class__ is src.__class__, "the kind of the applied operation")
        same(len(new.qubits), len(src.qubits), "number of qubits of the applied operation")
        j = any_index(src.qubits, "j")
        same_object(new.qubits[j], qs[t.qubits.index(src.qubits[j])], "a qubit of the applied operation")


def scen_apply_parameters():
    """the applied operation has the parameters of the original"""
    c = any_circuit("c")
    t = any_circuit("t")
    assume(c is not t)
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    assume(len(qs) == len(t.qubits))
    with c.context:
        n = len(c.circuit)
        told = freeze_value(t.circuit)
        r = attempt(lambda: t(qs))
        i = any_index(told)
        src = told[i]
        assume(isinstance(src, ParametricOperation))
        params = freeze_value(src.parameters)
        if not raised(r):
            new = c.circuit[n + i]
            same(new.parameters, params, "parameters of the applied operation")
            expect(new.parameters is not src.parameters, "parameter lists are not shared")


def scen_apply_conditions():
    """conditions are kept, mapped to the passed bits"""
    c = any_circuit("c")
    t = any_circuit("t")
    assume(c is not t)
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    assume(len(qs) == len(t.qubits))
    with_bits = choose(True, False)
    bs = None
    if with_bits:
        bs = any_seq(Bit, "bs")
        assume(len(bs) == len(t.bits))
        assume(len(bs) > 0)
    with c.context:
        n = len(c.circuit)
        told = freeze_value(t.circuit)
        r = attempt(lambda: t(qs, bs))
        i = any_index(told)
        src = told[i]
        if not raised(r):
            new = c.circuit[n + i]
            cond = condition_of(src)
            if cond is None or len(cond) == 0:
                expect(not condition_of(new), "no condition is added")
            else:
                expect(condition_of(new) is not None, "the condition is kept")
                same(len(condition_of(new)), len(cond), "number of conditional bits")
                j = any_index(cond, "j")
                if with_bits and cond[j] in t.bits:
                    same_object(condition_of(new)[j], bs[t.bits.index(cond[j])], "a conditional bit")
                else:
                    same_object(condition_of(new)[j], cond[j], "a conditional bit")


def scen_apply_measurements():
    """measurements are stored in the passed bits"""
    c = any_circuit("c")
    t = any_circuit("t")
    assume(c is not t)
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    assume(len(qs) == len(t.qubits))
    bs = any_seq(Bit, "bs")
    assume(len(bs) == len(t.bits))
    assume(len(bs) > 0)
    with c.context:
        n = len(c.circuit)
        told = freeze_value(t.circuit)
        r = attempt(lambda: t(qs, bs))
        i = any_index(told)
        src = told[i]
        assume(isinstance(src, Measurement))
        assume(src.bits is not None)
        if not raised(r):
            new = c.circuit[n + i]
            expect(new.bits is not None, "the measurement is stored in bits")
            j = any_index(new.bits, "j")
            same_object(new.bits[j], bs[t.bits.index(src.bits[j])], "a measured bit")


def scen_small():
    """operations of every kind in one template"""
    t = Circuit(3, 2)
    q, b = t.qubits, t.bits
    k = any_num("k")
    with t.context:
        ops.X(q[1])
        ops.RX(k, q[0])
        ops.CX(q[2], q[0])
        ops.CRX(k, q[1], q[2])
        ops.SWAP([q[2], q[1]])
        ops.Measurement([q[1], q[0]]) | [b[1], b[0]]
        ops.X(q[0]).conditional(b[1])
        ops.Barrier([q[0], q[2]])
    c = Circuit(3, 2)
    p = [c.qubits[2], c.qubits[0], c.qubits[1]]
    d = [c.bits[1], c.bits[0]]
    with c.context:
        expect_ok(attempt(lambda: t(p, d)), "applying a circuit")
    same(len(c.circuit), 8, "number of operations")
    i = any_index(c.circuit)
    o = c.circuit
    kinds = [ops.X, ops.RX, ops.CX, ops.CRX, ops.SWAP, ops.Measurement, ops.X, ops.Barrier]
    qubits = [[p[1]], [p[0]], [p[2], p[0]], [p[1], p[2]], [p[2], p[1]], [p[1], p[0]], [p[0]], [p[0], p[2]]]
    n = choose(0, 1, 2, 3, 4, 5, 6, 7)
    expect(type(o[n]) is kinds[n], "kind of an applied operation")
    same(list(o[n].qubits), qubits[n], "qubits of an applied operation")
    same(o[1].parameters, [k], "parameters")
    same(o[3].parameters, [k], "parameters")
    same(list(o[2].control), [p[2]], "control")
    same(list(o[2].target), [p[0]], "target")
    same(list(o[5].bits), [d[1], d[0]], "measured bits")
    same(list(condition_of(o[6])), [d[1]], "condition")
    same(len(t.circuit), 8, "operations of the applied circuit")
    same(list(t.circuit[5].bits), [b[1], b[0]], "measured bits of the applied circuit")
    same(list(condition_of(t.circuit[6])), [b[1]], "condition in the applied circuit")


def scen_single():
    """a single qubit and a single bit may be passed as they are, whatever the bit's value"""
    t = Circuit(1, 1)
    with t.context:
        ops.Measurement(t.qubits[0]) | t.bits[0]
    c = Circuit(2, 2)
    bit = c.bits[1]
    v = choose(None, 0, 1)
    if v is not None:
        bit.set(v)
    with c.context:
        expect_ok(attempt(lambda: t(c.qubits[1], bit)), "applying a circuit")
    same(len(c.circuit), 1, "number of operations")
    same(list(c.circuit[0].qubits), [c.qubits[1]], "qubits")
    same(list(c.circuit[0].bits), [bit], "bits")


def scen_controls():
    """several controls stay controls"""
    class TwoControls(ControlledOperation):
        _num_control = 2
        _num_target = 1
        _target_operation = ops.X
    t = Circuit(3)
    with t.context:
        TwoControls([t.qubits[0], t.qubits[1]], t.qubits[2])
    c = Circuit(3)
    with c.context:
        expect_ok(attempt(lambda: t([c.qubits[2], c.qubits[0], c.qubits[1]])), "applying a circuit")
    same(list(c.circuit[0].control), [c.qubits[2], c.qubits[0]], "control")
    same(list(c.circuit[0].target), [c.qubits[1]], "target")


def scen_refused_size():
    """a wrong number of qubits or bits is refused before anything is applied"""
    c = any_circuit("c")
    t = choose(any_circuit("t"), any_circuit("pt", ParametricCircuit))
    assume(c is not t)
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    bs = any_seq(Bit, "bs")
    which = choose(0, 1)
    if which == 0:
        assume(len(qs) != len(t.qubits))
    else:
        assume(len(bs) > 0)
        assume(len(bs) != len(t.bits))
    params = any_seq(float, "params")
    with c.context:
        before = freeze_value(c.circuit)
        if isinstance(t, ParametricCircuit):
            assume(len(params) == t.num_parameters)
            r = attempt(lambda: t(params, qs, bs))
        else:
            r = attempt(lambda: t(qs, bs))
        expect_raises(r, ValueError, "applying to a wrong number of qubits or bits")
        same(c.circuit, before, "operations after a refused application")


def scen_refused_context():
    """outside any context a circuit cannot be applied"""
    t = any_circuit("t")
    qs = any_seq(Qubit, "qs")
    if choose(True, False):
        c = any_circuit("c")
        assume(not c.is_locked())
        with c.context:
            pass
    told = freeze_value(t.circuit)
    r = attempt(lambda: t(qs))
    expect_raises(r, CircuitError, "applying a circuit outside any context")
    same(t.circuit, told, "operations of the circuit")


def scen_refused_context_parametric():
    """outside any context a parametric circuit cannot be applied and keeps its variables"""
    t = any_circuit("pt", ParametricCircuit)
    qs = any_seq(Qubit, "qs")
    params = any_seq(float, "params")
    assume(len(params) == t.num_parameters)
    n = len(CircuitContext.on_exit_functions)
    r = attempt(lambda: t(params, qs))
    expect_raises(r, CircuitError, "applying a circuit outside any context")
    same(len(CircuitContext.on_exit_functions), n, "deferred actions")


def scen_refused_own():
    """a circuit cannot be applied in its own context"""
    t = any_circuit("t")
    assume(not t.is_locked())
    qs = any_seq(Qubit, "qs")
    with t.context:
        before = freeze_value(t.circuit)
        r = attempt(lambda: t(qs))
        expect_raises(r, TypeError, "applying a circuit in its own context")
        same(t.circuit, before, "operations of the circuit")


def scen_parametric():
    """a parametric template applies the passed values"""
    t = ParametricCircuit(1)
    with t.context as regs:
        ops.RX(regs.p[0], regs.q[0])
        ops.RY(regs.p[1], regs.q[0])
        ops.Rotation([regs.p[1], regs.p[0], regs.p[1]], regs.q[0])
        ops.RZ(0.5, regs.q[0])
    a, b = any_num("a"), any_num("b")
    c = Circuit(2)
    with c.context:
        expect_ok(attempt(lambda: t([a, b], c.qubits[1])), "applying a parametric circuit")
        same(len(c.circuit), 4, "number of operations")
        same(c.circuit[0].parameters, [a], "parameters")
        same(c.circuit[1].parameters, [b], "parameters")
        same(c.circuit[2].parameters, [b, a, b], "parameters")
        same(c.circuit[3].parameters, [0.5], "parameters")
        same(list(c.circuit[0].qubits), [c.qubits[1]], "qubits")
    same(c.circuit[0].parameters, [a], "parameters after leaving")
    same(c.circuit[2].parameters, [b, a, b], "parameters after leaving")


def scen_parametric_twice():
    """applying it twice with different values keeps them apart"""
    t = ParametricCircuit(1)
    with t.context as regs:
        v = regs.p[0]
        ops.RX(v, regs.q[0])
    a, b = any_num("a"), any_num("b")
    c = Circuit(1)
    with c.context:
        t([a], c.qubits)
        t([b], c.qubits)
    same(len(c.circuit), 2, "number of operations")
    same(c.circuit[0].parameters, [a], "parameters of the first application")
    same(c.circuit[1].parameters, [b], "parameters of the second application")
    same_object(t.circuit[0].parameters[0], v, "the template's parameter")
    expect(v.value is None, "the template's variable is cleared")
