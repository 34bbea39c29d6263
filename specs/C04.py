"""Where constructing an operation records it, and what it holds."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.operations.base import (Operation, ParametricOperation, ControlledOperation, ParametricControlledOperation,
                                        Measurement, Barrier)
from dwave.gate.primitives import Qubit, Bit
import dwave.gate.operations as ops


class TwoControls(ControlledOperation):
    _num_control = 2
    _num_target = 1
    _target_operation = ops.X


class TwoTargets(ControlledOperation):
    _num_control = 1
    _num_target = 2
    _target_operation = ops.SWAP


class ParamTwoControls(ParametricControlledOperation):
    _num_control = 2
    _num_target = 1
    _num_params = 2
    _target_operation = ops.RX


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def ours(c, qs):
    return all(q in c.qubits for q in qs)


def scen_plain():
    """an operation constructed in a context is appended once to its circuit"""
    c = a_circuit()
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    K = choose(Operation, Measurement, Barrier)
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt(lambda: K(qs))
        op = expect_ok(r, "construction in a context")
        same(len(c.circuit), len(before) + 1, "number of recorded operations")
        same_object(c.circuit[-1], op, "the recorded operation")
        same(c.circuit[:-1], before, "the earlier operations")
    same(list(op.qubits), list(qs), "qubits of the operation")
    same(op.num_qubits, len(qs), "number of qubits")


def scen_fixed_size():
    """one- to three-qubit operations are recorded, or refused when the number of qubits is wrong"""
    c = a_circuit()
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    K = choose(ops.X, ops.SWAP, ops.CSWAP)
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt(lambda: K(qs))
        if len(qs) == K.num_qubits:
            op = expect_ok(r, "construction in a context")
            same(len(c.circuit), len(before) + 1, "number of recorded operations")
            same_object(c.circuit[-1], op, "the recorded operation")
            same(list(op.qubits), list(qs), "qubits of the operation")
        else:
            expect_raises(r, ValueError, "construction with a wrong number of qubits")
            same(c.circuit, before, "operations after a refused construction")


def scen_any_class():
    """the same for an arbitrary operation class without parameters"""
    c = a_circuit()
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    assume(ours(c, qs))
    proto = any_inst(Operation, "proto")
    assume(not isinstance(proto, (ParametricOperation, ControlledOperation)))
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt(lambda: proto.__class__(qs))
        if raised(r):
            expect_raises(r, ValueError, "construction with a wrong number of qubits")
            same(c.circuit, before, "operations after a refused construction")
        else:
            same(len(c.circuit), len(before) + 1, "number of recorded operations")
            same_object(c.circuit[-1], result(r), "the recorded operation")
            same(list(result(r).qubits), list(qs), "qubits of the operation")


def scen_outside():
    """outside any context nothing is recorded"""
    c = a_circuit()
    qs = any_seq(Qubit, "qs")
    k = any_num("k")
    left = choose(True, False)
    if left:
        assume(not c.is_locked())
        with c.context:
            pass
        c.unlock()
    before = freeze_value(c.circuit)
    r = attempt_one(lambda: Measurement(qs), lambda: ops.X(qs), lambda: ops.RX(k), lambda: ops.CX(), lambda: ops.X(),
                    lambda: ops.CRX(k, qs, qs))
    same(c.circuit, before, "operations of a circuit that is not active")


def scen_other_circuit():
    """only the active context's circuit records"""
    c = a_circuit()
    d = any_circuit("d")
    assume(c is not d)
    assume(not c.is_locked())
    assume(not d.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in c.qubits)
    before = freeze_value(d.circuit)
    with c.context:
        n = len(c.circuit)
        op = ops.X(q)
        same(len(c.circuit), n + 1, "number of recorded operations")
        same_object(c.circuit[-1], op, "the recorded operation")
    same(d.circuit, before, "operations of another circuit")


def scen_frozen():
    """in a frozen context nothing is recorded"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    p = any_inst(Qubit, "p")
    k = any_num("k")
    with c.context:
        before = freeze_value(c.circuit)
        with CircuitContext.freeze:
            r = attempt_one(lambda: ops.X(q), lambda: ops.RX(k, q), lambda: ops.CNOT(q, p), lambda: ops.CRX(k, q, p), lambda: Measurement([q, p]))
            expect_ok(r, "construction in a frozen context")
        same(c.circuit, before, "operations of a frozen context")


def scen_no_qubits():
    """in a context qubits are required"""
    c = a_circuit()
    assume(not c.is_locked())
    k = any_num("k")
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt_one(lambda: ops.X(), lambda: Measurement(), lambda: ops.RX(k), lambda: ops.CX(), lambda: ops.CRX(k),
                        lambda: Operation(None))
        expect_raises(r, TypeError, "construction without qubits in a context")
        same(c.circuit, before, "operations after a refused construction")


def scen_one_sided():
    """a controlled operation with controls only or targets only is refused in a context"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    k = any_num("k")
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt_one(lambda: ops.CX(q), lambda: ops.CX(target=q), lambda: ops.CRX(k, q), lambda: ops.CRX(k, target=q))
        expect_raises(r, TypeError, ValueError, "construction without all qubits in a context")
        same(c.circuit, before, "operations after a refused construction")


def scen_parametric():
    """parameters and qubits are kept in the order given"""
    c = any_circuit("pc", ParametricCircuit)
    inside = choose(True, False)
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in c.qubits)
    a, b, d = any_num("a"), any_num("b"), any_num("d")
    if inside:
        c.context.__enter__()
    n = len(c.circuit)
    op = expect_ok(attempt(lambda: ops.Rotation([a, b, d], q)), "construction")
    same(op.parameters, [a, b, d], "parameters")
    same(list(op.qubits), [q], "qubits")
    op1 = expect_ok(attempt(lambda: ops.RX(a, q)), "construction")
    same(op1.parameters, [a], "parameters")
    op2 = expect_ok(attempt(lambda: ops.RX([b], [q])), "construction")
    same(op2.parameters, [b], "parameters")
    same(list(op2.qubits), [q], "qubits")
    if inside:
        same(len(c.circuit), n + 3, "number of recorded operations")
        same_object(c.circuit[-1], op2, "the last recorded operation")
        same_object(c.circuit[-3], op, "the first recorded operation")
    else:
        same(len(c.circuit), n, "number of recorded operations")


def scen_parameter_list():
    """the operation holds its own list of parameters"""
    lst = [any_num("a"), any_num("b"), any_num("d")]
    op = ops.Rotation(lst)
    lst[0] = 5
    expect(op.parameters is not lst, "the passed list is copied")


def scen_wrong_parameters():
    """a wrong number of parameters is refused before anything is recorded"""
    c = a_circuit()
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    p = any_inst(Qubit, "p")
    ks = any_seq(float, "ks")
    with c.context:
        before = freeze_value(c.circuit)
        K = choose(ops.RX, ops.Rotation)
        if choose(True, False):
            r = attempt(lambda: K(ks, q))
        else:
            K = choose(ops.CRX, ops.CRotation)
            r = attempt(lambda: K(ks, q, p))
        if len(ks) != K.num_parameters:
            expect_raises(r, ValueError, "construction with a wrong number of parameters")
            same(c.circuit, before, "operations after a refused construction")


def scen_controlled():
    """controls and targets are split the same way however the qubits are passed"""
    p, q, r = any_inst(Qubit, "p"), any_inst(Qubit, "q"), any_inst(Qubit, "r")
    form = choose(0, 1, 2, 3, 4)
    if form == 0:
        op = ops.CX(p, q)
    elif form == 1:
        op = ops.CX(control=p, target=q)
    elif form == 2:
        op = ops.CX([p], [q])
    elif form == 3:
        op = ops.CX(qubits=[p, q])
    else:
        op = ops.CX(target=(q,), control=(p,))
    same(list(op.control), [p], "control qubits")
    same(list(op.target), [q], "target qubits")
    same(list(op.qubits), [p, q], "qubits")
    same(op.num_qubits, 2, "number of qubits")


def scen_own_qubits():
    """an operation's qubits are those it was given, whatever becomes of the lists"""
    p, q, r = any_inst(Qubit, "p"), any_inst(Qubit, "q"), any_inst(Qubit, "r")
    k = any_num("k")
    a, b = [p], [q]
    form = choose(0, 1, 2, 3)
    if form == 0:
        op = ops.CX(a, b)
    elif form == 1:
        op = ops.CRX(k, a, b)
    elif form == 2:
        op = ops.CX(control=a, target=b)
    else:
        op = ops.CRY([k], control=a, target=b)
    if choose(True, False):
        a.append(r)
        b[0] = r
    else:
        a.clear()
        b.clear()
    same(list(op.control), [p], "control qubits")
    same(list(op.target), [q], "target qubits")
    same(list(op.qubits), [p, q], "qubits")


def scen_one_side_outside():
    """outside a context, controls or targets may be declared alone: the operation has no qubits yet"""
    q = any_inst(Qubit, "q")
    k = any_num("k")
    r = expect_ok(attempt_one(lambda: ops.CX(q), lambda: ops.CRX(k, q), lambda: ops.CX(control=[q])), "declaring the control only")
    same(list(r.control), [q], "the control")
    expect(r.target is None and not r.qubits, "no target and no qubits")
    r = expect_ok(attempt_one(lambda: ops.CX(target=q), lambda: ops.CRX(k, target=q), lambda: ops.CX(target=(q,))), "declaring the target only")
    same(list(r.target), [q], "the target")
    expect(r.control is None and not r.qubits, "no control and no qubits")


def scen_two_controls():
    """operations with several controls or targets"""
    p, q, r = any_inst(Qubit, "p"), any_inst(Qubit, "q"), any_inst(Qubit, "r")
    a, b = any_num("a"), any_num("b")
    if choose(True, False):
        op = choose(lambda: TwoControls([p, q], r), lambda: TwoControls(qubits=(p, q, r)), lambda: TwoControls(control=(p, q), target=[r]),
                    lambda: ParamTwoControls([a, b], [p, q], r), lambda: ParamTwoControls([a, b], qubits=[p, q, r]))()
        same(list(op.control), [p, q], "control qubits")
        same(list(op.target), [r], "target qubits")
    else:
        op = choose(lambda: TwoTargets(p, [q, r]), lambda: TwoTargets(qubits=[p, q, r]))()
        same(list(op.control), [p], "control qubits")
        same(list(op.target), [q, r], "target qubits")
    same(list(op.qubits), [p, q, r], "qubits")
    if isinstance(op, ParametricOperation):
        same(op.parameters, [a, b], "parameters")


def scen_controlled_recorded():
    """controlled operations are recorded once"""
    c = a_circuit()
    assume(not c.is_locked())
    p, q = any_inst(Qubit, "p"), any_inst(Qubit, "q")
    k = any_num("k")
    assume(p in c.qubits)
    assume(q in c.qubits)
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt_one(lambda: ops.CX(p, q), lambda: ops.CX(qubits=[p, q]), lambda: ops.CRX(k, p, q), lambda: ops.CRX(k, qubits=(p, q)))
        op = expect_ok(r, "construction in a context")
        same(len(c.circuit), len(before) + 1, "number of recorded operations")
        same_object(c.circuit[-1], op, "the recorded operation")
        same(c.circuit[:-1], before, "the earlier operations")
    same(list(op.control), [p], "control qubits")
    same(list(op.target), [q], "target qubits")


def scen_wrong_controlled():
    """a wrong number of controls or targets is refused before anything is recorded"""
    c = a_circuit()
    assume(not c.is_locked())
    ps, ts = any_seq(Qubit, "ps"), any_seq(Qubit, "ts")
    k = any_num("k")
    assume(len(ps) > 0)
    assume(len(ts) > 0)
    with c.context:
        before = freeze_value(c.circuit)
        r = attempt_one(lambda: ops.CX(ps, ts), lambda: ops.CRX(k, ps, ts))
        if len(ps) + len(ts) != 2:
            expect_raises(r, ValueError, "construction with a wrong number of qubits")
            same(c.circuit, before, "operations after a refused construction")


def scen_reapply():
    """calling an operation applies another of its kind with the same parameters"""
    c = a_circuit()
    assume(not c.is_locked())
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    k = any_num("k")
    assume(q in c.qubits)
    assume(p in c.qubits)
    x, rx = ops.X(p), ops.RX(k, p)
    with c.context:
        before = freeze_value(c.circuit)
        if choose(True, False):
            op = choose(lambda: x(q), lambda: x())()
            expect(isinstance(op, ops.X), "the kind of the new operation")
        else:
            op = choose(lambda: rx(q), lambda: rx())()
            expect(isinstance(op, ops.RX), "the kind of the new operation")
            same(op.parameters, [k], "parameters of the new operation")
        same(len(c.circuit), len(before) + 1, "number of recorded operations")
        same_object(c.circuit[-1], op, "the recorded operation")
    expect(op is not x, "a new operation")
    expect(op is not rx, "a new operation")
    expect(op.qubits == (q,) or op.qubits == (p,), "qubits of the new operation")


def scen_reapply_qubits():
    """calling an operation with qubits uses those, without uses its own"""
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    s, t = any_inst(Qubit, "s"), any_inst(Qubit, "t")
    k = any_num("k")
    same(list(ops.X(p)(q).qubits), [q], "qubits")
    same(list(ops.X(p)().qubits), [p], "qubits")
    same(list(ops.SWAP([p, q])([s, t]).qubits), [s, t], "qubits")
    same(list(ops.RX(k, p)(q).qubits), [q], "qubits")
    same(list(ops.RX(k)(q).qubits), [q], "qubits")
    op = ops.CX(p, q)(s, t)
    same(list(op.control) + list(op.target), [s, t], "control and target")
    op = ops.CX(p, q)()
    same(list(op.control) + list(op.target), [p, q], "control and target")
    op = ops.CX()(s, t)
    same(list(op.qubits), [s, t], "qubits")
    op = ops.CRX(k, p, q)(s, t)
    same(list(op.qubits), [s, t], "qubits")
    same(op.parameters, [k], "parameters")
    op = ops.CRX(k, p, q)(target=t)
    same(list(op.qubits), [p, t], "qubits")


def scen_reapply_controlled():
    """calling a controlled operation in a context records one"""
    c = a_circuit()
    assume(not c.is_locked())
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    k = any_num("k")
    assume(q in c.qubits)
    assume(p in c.qubits)
    a, b = ops.CX(), ops.CRX(k)
    with c.context:
        before = freeze_value(c.circuit)
        op = attempt_one(lambda: a(q, p), lambda: b(q, p))
        op = expect_ok(op, "applying an operation")
        same(len(c.circuit), len(before) + 1, "number of recorded operations")
        same_object(c.circuit[-1], op, "the recorded operation")
    same(list(op.qubits), [q, p], "qubits")


def scen_set_qubits():
    """assigning qubits checks their number"""
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    op = choose(ops.X(), ops.X(q))
    before = op.qubits
    qs = any_seq(Qubit, "qs")

    def assign():
        op.qubits = qs
    r = attempt(assign)
    if len(qs) == 1:
        expect_ok(r, "assigning one qubit")
        same(list(op.qubits), list(qs), "qubits")
    else:
        expect_raises(r, ValueError, "assigning a wrong number of qubits")
        same(op.qubits, before, "qubits after a refused assignment")
