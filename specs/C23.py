"""OpenQASM text of operations."""
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, ControlledOperation, Barrier, Measurement, create_operation
from dwave.gate.primitives import Qubit

GATES = ((ops.Identity, "id", 0, 1), (ops.X, "x", 0, 1), (ops.Y, "y", 0, 1), (ops.Z, "z", 0, 1), (ops.Hadamard, "h", 0, 1), (ops.S, "s", 0, 1), (ops.T, "t", 0, 1),
         (ops.RX, "rx", 1, 1), (ops.RY, "ry", 1, 1), (ops.RZ, "rz", 1, 1), (ops.Rotation, "rot", 3, 1), (ops.CX, "cx", 0, 2), (ops.CY, "cy", 0, 2), (ops.CZ, "cz", 0, 2),
         (ops.CHadamard, "ch", 0, 2), (ops.CRX, "crx", 1, 2), (ops.CRY, "cry", 1, 2), (ops.CRZ, "crz", 1, 2), (ops.CRotation, "crot", 3, 2),
         (ops.SWAP, "swap", 0, 2), (ops.CSWAP, "cswap", 0, 3), (ops.CCX, "ccx", 0, 3))


def make(cls, xs, qs):
    """an operation with the parameters xs on the qubits qs"""
    args = [] if not xs else [xs[0]] if len(xs) == 1 else [tuple(xs)]
    if qs and issubclass(cls, ControlledOperation):
        return cls(*args, *qs)
    if qs:
        return cls(*args, qs if len(qs) > 1 or choose(0, 1) else qs[0])
    return cls(*args)


def call(name, xs, operands):
    """the text of a gate call"""
    text = name
    if xs:
        text = text + "(" + ", ".join([str(x) for x in xs]) + ")"
    if operands:
        text = text + " " + ", ".join(operands)
    return text


def scen_position():
    """without a mapping qubits are named by position, without qubits only the gate is named"""
    cls, name, params, n = choose(*GATES)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")][:params]
    qs = tuple([any_inst(Qubit, "a"), any_inst(Qubit, "b"), any_inst(Qubit, "d")][:n])
    op = make(cls, xs, qs if choose(0, 1) else ())
    t = expect_ok(choose(lambda: attempt(lambda: op.to_qasm()), lambda: attempt(lambda: op.to_qasm(None)))(), "to_qasm")
    same(squeezed(t), squeezed(call(name, xs, ["q[" + str(k) + "]" for k in range(len(op.qubits or ()))])), "the text")


def scen_mapping():
    """with a mapping each operand is the register and index of its qubit"""
    cls, name, params, n = choose(*GATES)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")][:params]
    all_qs = tuple([any_inst(Qubit, "a"), any_inst(Qubit, "b"), any_inst(Qubit, "d"), any_inst(Qubit, "e")])
    assume(len(set(all_qs)) == 4)
    labels = [any_str("l0"), any_str("l1"), any_str("l2"), "reg"]
    idx = [any_int("i0", 0), any_int("i1", 0), any_int("i2", 0), 7]
    mapping = {}
    for k in choose((0, 1, 2, 3), (3, 2, 1, 0)):
        mapping[all_qs[k]] = (labels[k], idx[k])
    order = choose((0, 1, 2), (2, 0, 1), (3, 2, 0))[:n]
    op = make(cls, xs, tuple([all_qs[k] for k in order]))
    t = expect_ok(attempt(lambda: op.to_qasm(mapping)), "to_qasm")
    same(squeezed(t), squeezed(call(name, xs, [labels[k] + "[" + str(idx[k]) + "]" for k in order])), "the text")


def scen_mapping_unused():
    """without qubits only the gate is named, with a mapping too"""
    cls, name, params, n = choose(*GATES)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")][:params]
    q = any_inst(Qubit, "a")
    op = make(cls, xs, ())
    t = expect_ok(attempt(lambda: op.to_qasm({q: (any_str("l"), any_int("i", 0))})), "to_qasm")
    same(squeezed(t), squeezed(call(name, xs, [])), "the text")


def scen_custom():
    """a custom operation writes its own name in lower case, its parameters and its qubits"""
    n = choose(1, 2, 3)
    m = choose(0, 1, 2)
    c = ParametricCircuit(n) if m else Circuit(n)
    with c.context as regs:
        ops.X(regs.q[0])
        if m:
            ops.RX(regs.p[0], regs.q[0])
        if m == 2:
            ops.RZ(regs.p[1], regs.q[0])
    name = choose("FooBar", None)
    cls = create_operation(c, name)
    xs = [any_num("x0"), any_num("x1")][:m]
    qs = tuple([any_inst(Qubit, "a"), any_inst(Qubit, "b"), any_inst(Qubit, "d")][:n])
    args = [tuple(xs)] if m else []
    op = cls(*args, qs) if choose(0, 1) else cls(*args)
    assume(len(set(qs)) == n)
    mode = choose(0, 1)
    label, i = any_str("l"), any_int("i", 0)
    t = expect_ok(attempt(lambda: op.to_qasm({qs[k]: (label, i + k) for k in range(n)} if mode else None)), "to_qasm")
    operands = [(label + "[" + str(i + k) + "]") if mode else ("q[" + str(k) + "]") for k in range(n)]
    same(squeezed(t), squeezed(call("foobar" if name else "customoperation", xs, operands if op.qubits else [])), "the text")


def scen_none():
    """an operation without an OpenQASM form is refused"""
    class Mine(Operation):
        _num_qubits = 1

    class MineToo(ParametricOperation):
        _num_qubits = 1
        _num_params = 1
    q = any_inst(Qubit, "a")
    op = choose(lambda: Measurement(q), lambda: Measurement(), lambda: Barrier(q), lambda: Mine(q), lambda: Mine(), lambda: MineToo(any_num("x"), q))()
    expect_raises(attempt(lambda: op.to_qasm({q: ("q", 0)}) if choose(0, 1) else op.to_qasm()), NotImplementedError, "an operation without an OpenQASM form")


def permuted(d, bits):
    """the bits after the calls of a declaration of classical gates"""
    values = {q: b for q, b in zip(d[2], bits)}
    for gate, xs, operands in d[3]:
        if gate == "cx":
            values[operands[1]] = values[operands[1]] ^ values[operands[0]]
        elif gate == "ccx":
            values[operands[2]] = values[operands[2]] ^ (values[operands[0]] & values[operands[1]])
        else:
            fail("a classical gate")
    return [values[q] for q in d[2]]


def scen_declarations():
    """a gate declaration declares the gate that its calls name, with its numbers of parameters and qubits"""
    cls, name, params, n = choose(*GATES)
    if not hasattr(cls, "_qasm_decl"):
        return
    d = declaration(cls._qasm_decl)
    expect(d is not None, "the declaration of " + name + " is a gate declaration")
    expect(d[0] == name, "the declared name")
    expect(len(d[1]) == params, "the declared parameters")
    if cls is ops.Rotation:
        same([(gate, xs) for gate, xs, operands in d[3]], [("rz", (d[1][0],)), ("ry", (d[1][1],)), ("rz", (d[1][2],))], "what the declared rot does")
    expect(len(d[2]) == n, "the declared qubits of " + name)
    if cls is ops.CRotation:
        a, b = d[2]
        same([tuple(g) for g in d[3]], [("crz", (d[1][0],), (a, b)), ("cry", (d[1][1],), (a, b)), ("crz", (d[1][2],), (a, b))], "what the declared crot does")
    for gate, xs, operands in d[3]:
        known = [g for g in GATES if g[1] == gate]
        expect(len(known) == 1, "the body calls gates")
        expect(len(xs) == known[0][2] and len(operands) == known[0][3], "the body's calls have their numbers of operands")
        expect(all([x in d[1] for x in xs]) and all([q in d[2] for q in operands]), "the body's operands are declared")
    if cls is ops.SWAP:
        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
            same(permuted(d, [a, b]), [b, a], "what the declared swap does")
    if cls is ops.CSWAP:
        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
            same(permuted(d, [0, a, b]), [0, a, b], "what the declared cswap does")
            same(permuted(d, [1, a, b]), [1, b, a], "what the declared cswap does")
