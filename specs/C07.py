"""Evaluating parameters."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, Measurement
from dwave.gate.primitives import Qubit, Bit, Variable
import dwave.gate.operations as ops


def scen_op_values():
    """evaluating with values replaces each variable by the value at its position"""
    op = any_inst(ParametricOperation, "op")
    old = freeze_value(op.parameters)
    vals = any_seq(float, "vals")
    assume(len(vals) == len(old))
    assume(len(vals) > 0)
    inplace = choose(True, False)
    new = expect_ok(attempt(lambda: op.eval(vals, inplace)), "evaluating with values")
    same(len(new.parameters), len(old), "number of parameters")
    i = any_index(old)
    same(new.parameters[i], vals[i] if isinstance(old[i], Variable) else old[i], "an evaluated parameter")
    if inplace:
        same_object(new, op, "the result of in-place evaluation")
    else:
        expect(new is not op, "a copy is evaluated")
        same(op.parameters, old, "parameters of the original")
        expect(new.parameters is not op.parameters, "the parameter list is not shared")


def scen_op_own():
    """evaluating without values uses the variables' own values, zero included"""
    op = any_inst(ParametricOperation, "op")
    old = freeze_value(op.parameters)
    inplace = choose(True, False)
    r = attempt(lambda: op.eval(inplace=inplace))
    if all(p.value is not None for p in old if isinstance(p, Variable)):
        new = expect_ok(r, "evaluating set variables")
        same(len(new.parameters), len(old), "number of parameters")
        i = any_index(old)
        same(new.parameters[i], old[i].value if isinstance(old[i], Variable) else old[i], "an evaluated parameter")
    else:
        expect_raises(r, ValueError, "evaluating a variable without value")
    if not inplace:
        same(op.parameters, old, "parameters of the original")


def scen_op_small():
    """a mixture of numbers, unset and set variables"""
    v, w = Variable("v"), Variable("w")
    k = any_num("k")
    x = choose(0, 0.0, 1, 2.5)
    w.set(x)
    op = choose(ops.Rotation([k, w, w]), ops.CRotation([k, w, w]))
    new = op.eval()
    same(new.parameters, [k, x, x], "evaluated parameters")
    same(op.parameters[0], k, "a numeric parameter of the original")
    same_object(op.parameters[1], w, "a variable of the original")
    w.reset()
    r = attempt(lambda: op.eval())
    expect_raises(r, ValueError, "evaluating an unset variable")
    same(op.eval([1, 0, 3]).parameters, [k, 0, 3], "evaluated parameters")
    op2 = op.eval([1, 0, 3], inplace=True)
    same_object(op2, op, "in-place evaluation")
    same(op.parameters, [k, 0, 3], "evaluated parameters")


def scen_kind_kept():
    """evaluation keeps the kind and the qubits"""
    v = Variable("v")
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    op = choose(lambda: ops.RX(v, q), lambda: ops.CRX(v, q, p))()
    new = op.eval([0.5], choose(True, False))
    expect(type(new) is type(op), "the kind")
    expect(new.qubits == op.qubits, "the qubits")
    same(new.parameters, [0.5], "parameters")


def scen_variable():
    """a variable is set and reset exactly by set and reset"""
    v = any_inst(Variable, "v")
    w = any_inst(Variable, "w")
    x = any_num("x")
    assume(v is not w)
    was = w.value
    v.set(x)
    same(v.value, x, "value after set")
    v.set(0)
    same(v.value, 0, "value after a second set")
    v.reset()
    expect(v.value is None, "value after reset")
    same(w.value, was, "value of another variable")
    expect(Variable("a").value is None, "a new variable has no value")


def scen_str_variable():
    """a variable is written as its value once it has one, and else as its name"""
    v = Variable("v")
    same(str(v), "{v}", "a variable without value")
    x = choose(0, 0.0, 1, any_num("x"))
    v.set(x)
    same(str(v), str(x), "a variable with value")
    same(v.name, "v", "the name")
    v.reset()
    same(str(v), "{v}", "a variable after reset")


def scen_append_evaluates():
    """an operation appended to a circuit without variables holds only values"""
    c = any_circuit("c")
    assume(not c.is_locked())
    q = any_inst(Qubit, "q")
    assume(q in c.qubits)
    v, k = Variable("v"), any_num("k")
    x = choose(None, 0, 0.5)
    if x is not None:
        v.set(x)
    n = len(c.circuit)
    op = choose(lambda: ops.RX(v, q), lambda: ops.CRX(v, q, q), lambda: ops.Rotation([v, v, v], q))()
    r = attempt(lambda: c.append(op))
    if x is None:
        expect_raises(r, ValueError, "appending an unset variable to a circuit without variables")
        same(len(c.circuit), n, "number of operations")
    else:
        expect_ok(r, "appending")
        same(c.circuit[-1].parameters[0], x, "parameter of the appended operation")


def scen_append_keeps_variables():
    """a circuit with variables keeps them"""
    c = ParametricCircuit(2)
    x = choose(None, 0, 0.5)
    with c.context as regs:
        v = regs.p[0]
        if x is not None:
            v.set(x)
        op = choose(lambda: ops.RX(v, regs.q[0]), lambda: ops.CRX(v, regs.q[0], regs.q[1]))()
        same_object(c.circuit[0].parameters[0], v, "the recorded parameter")
    same_object(c.circuit[0].parameters[0], v, "the recorded parameter")


def scen_circuit():
    """evaluating a circuit evaluates its operations by position and keeps their order"""
    c = ParametricCircuit(2)
    k = any_num("k")
    with c.context as regs:
        q = regs.q
        v, w = regs.p[0], regs.p[1]
        ops.X(q[0])
        ops.RX(v, q[1])
        ops.CX(q[0], q[1])
        ops.Rotation([w, k, v], q[0])
        ops.CRX(w, q[1], q[0])
    a, b, d, e = any_num("a"), any_num("b"), any_num("d"), any_num("e")
    old = [op for op in c.circuit]
    inplace = choose(True, False)
    new = expect_ok(attempt(lambda: c.eval([[], [a], [], [b, d, e], [0]], inplace)), "evaluating a circuit")
    same(len(new.circuit), 5, "number of operations")
    expect(type(new.circuit[0]) is ops.X, "the order of operations")
    expect(type(new.circuit[2]) is ops.CX, "the order of operations")
    same(new.circuit[1].parameters, [a], "parameters")
    same(new.circuit[3].parameters, [b, k, e], "parameters")
    same(new.circuit[4].parameters, [0], "parameters")
    expect(new.circuit[1].qubits == (q[1],), "qubits")
    if inplace:
        same_object(new, c, "the result of in-place evaluation")
    else:
        expect(new is not c, "a copy is evaluated")
        same(len(c.circuit), 5, "number of operations of the original")
        same_object(c.circuit[1], old[1], "an operation of the original")
        same_object(c.circuit[1].parameters[0], v, "a parameter of the original")
        same_object(c.circuit[3].parameters[0], w, "a parameter of the original")


def scen_circuit_own():
    """evaluating a circuit without values uses the variables' values"""
    c = ParametricCircuit(1)
    with c.context as regs:
        q = regs.q
        v, w = regs.p[0], regs.p[1]
        ops.RX(v, q[0])
        ops.X(q[0])
        ops.Rotation([w, v, w], q[0])
    x, y = choose(None, 0, 0.5), any_num("y")
    w.set(y)
    if x is not None:
        v.set(x)
    r = attempt(lambda: c.eval())
    if x is None:
        expect_raises(r, ValueError, "evaluating a variable without value")
    else:
        new = expect_ok(r, "evaluating a circuit")
        same(new.circuit[0].parameters, [x], "parameters")
        same(new.circuit[2].parameters, [y, x, y], "parameters")
    same_object(c.circuit[0].parameters[0], v, "a parameter of the original")


def scen_circuit_any():
    """evaluating an arbitrary parametric circuit keeps the number of operations and the original"""
    c = any_circuit("pc", ParametricCircuit)
    old = freeze_value(c.circuit)
    r = attempt(lambda: c.eval())
    same(c.circuit, old, "operations of the original")
    if not raised(r):
        same(len(result(r).circuit), len(old), "number of operations")


def scen_template_clears():
    """values bound when a parametric circuit is applied are cleared when the context is left"""
    t = any_circuit("pt", ParametricCircuit)
    c = any_circuit("c")
    assume(not c.is_locked())
    qs = any_seq(Qubit, "qs")
    params = any_seq(float, "params")
    regs = t.context
    var = [v for v in parameters_of(t)]
    assume(len(params) == len(var))

    def body():
        with c.context:
            t(params, qs)
            if choose(True, False):
                raise KeyError("x")
    attempt(body)
    i = any_index(var)
    expect(var[i].value is None, "a template's variable after leaving the context")


def scen_reset_variables():
    """reset_variables clears every variable"""
    t = any_circuit("pt", ParametricCircuit)
    var = [v for v in parameters_of(t)]
    t.reset_variables()
    i = any_index(var)
    expect(var[i].value is None, "a variable after reset_variables")
    same(t.num_parameters, len(var), "number of variables")
