"""Compiling circuits to QIR."""
import pyqir
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import create_operation, Barrier
from dwave.gate.qir.compiler import CompileError

BASE = ((ops.X, "x", 0, 1), (ops.Y, "y", 0, 1), (ops.Z, "z", 0, 1), (ops.Hadamard, "h", 0, 1), (ops.S, "s", 0, 1), (ops.T, "t", 0, 1),
        (ops.RX, "rx", 1, 1), (ops.RY, "ry", 1, 1), (ops.RZ, "rz", 1, 1), (ops.CX, "cnot", 0, 2), (ops.CZ, "cz", 0, 2))
EXTERNAL = ((ops.Rotation, "rot", 3, 1), (ops.CY, "cy", 0, 2), (ops.SWAP, "swap", 0, 2), (ops.CHadamard, "ch", 0, 2), (ops.CRX, "crx", 1, 2),
            (ops.CRY, "cry", 1, 2), (ops.CRZ, "crz", 1, 2), (ops.CRotation, "crot", 3, 2), (ops.CSWAP, "cswap", 0, 3), (ops.CCX, "ccnot", 0, 3))


def program(text, kind="text"):
    """what the entry point needs, its instructions in order of execution, and the declarations"""
    name, flags, functions = content_of(text, kind)
    entries = [f for f in functions if f[0] == "entry"]
    expect(len(entries) == 1, "one entry point")
    tag, fname, required, blocks = entries[0]
    instrs = []
    here = blocks[0][0]
    for k in range(len(blocks)):
        expect(blocks[k][0] == here, "blocks follow each other")
        body = list(blocks[k][1])
        last = body.pop()
        for i in body:
            if i[1] == "__quantum__rt__result_record_output":
                instrs.append(("output", i[2][0]))
            elif i[1] != "__quantum__rt__initialize":
                instrs.append(i)
        if k + 1 < len(blocks):
            expect(last[0] == "br", "each block goes on to the next one")
            here = last[1]
        else:
            expect(last[0] == "ret", "the last block returns")
            instrs.append(last)
    return required, instrs, [f for f in functions if f[0] == "declare"]


def qref(c, q):
    return reference("Qubit", c.qubits.index(q))


def bref(c, b):
    return reference("Result", c.bits.index(b))


def call(c, name, op):
    args = [p for p in op.parameters] if hasattr(op, "parameters") else []
    return ("call", "__quantum__qis__" + name + "__body", tuple(args + [qref(c, q) for q in op.qubits]))


def compiled(c, r):
    """the text, or None if verification failed"""
    if raised(r, CompileError):
        return None
    return expect_ok(r, "compile")


def check(c, t, expected, declared=()):
    required, instrs, declarations = program(t)
    same(required, (c.num_qubits, c.num_bits), "the declared numbers of qubits and results")
    same(instrs, expected + [("ret", None)], "the instructions")
    same(declarations, list(declared), "the declarations")


def scen_gates():
    """every gate becomes its own instruction on its own qubits"""
    cls, name, params, qubits = choose(*BASE)
    c = any_circuit("c", Circuit)
    only(c, cls, qubits, params)
    mode = choose("valid", "conditional", "parameters") if params else choose("valid", "conditional")
    if mode == "valid":
        assume(not any([condition_of(op) for op in c.circuit]))
        if params:
            assume(all([isinstance(p, (int, float)) for op in c.circuit for p in op.parameters]))
    else:
        op = c.circuit[any_index(c.circuit, "k")]
        if mode == "conditional":
            assume(condition_of(op))
        else:
            assume(not isinstance(op.parameters[choose(0, params - 1)], (int, float, pyqir.Constant)))
    r = attempt(lambda: c.to_qir(add_external=any_bool("external")))
    if mode != "valid":
        expect_raises(r, NotImplementedError, TypeError, "conditional operations and unknown parameters are refused")
        return
    t = compiled(c, r)
    if t is not None:
        check(c, t, [call(c, name, op) for op in c.circuit])


def operands(q, cls, qubits, xs):
    """an operation with the parameters xs on the first qubits of q, in a context"""
    qs = tuple(q[k] for k in range(qubits))
    if len(xs) > 1:
        xs = [tuple(xs)]
    if qubits == 1 or cls in (ops.SWAP, ops.CSWAP, ops.CCX):
        return cls(*xs, qs)
    return cls(*xs, qs[0], qs[1])


def scen_external():
    """gates that QIR does not have are external functions, declared once, or refused"""
    cls, name, params, qubits = choose(*EXTERNAL)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")][:params]
    ys = [any_num("y0"), any_num("y1"), any_num("y2")][:params]
    for p in xs + ys:
        assume(isinstance(p, float))
    c = Circuit(2)
    c.add_qregister(3)
    with c.context:
        q = [c.qubits[k] for k in choose((3, 0, 2), (1, 4, 0))]
        first = operands(q, cls, qubits, xs)
        ops.X(q[0])
        second = operands([c.qubits[k] for k in (4, 2, 1)], cls, qubits, ys)
    external = choose(True, False)
    r = attempt(lambda: c.to_qir(add_external=external))
    if not external:
        expect_raises(r, NotImplementedError, "external gates have to be asked for")
        return
    t = compiled(c, r)
    if t is not None:
        kinds = ["double"] * params + ["%Qubit*"] * qubits
        declared = ("declare", "__quantum__qis__" + name + "__body", "void (" + ", ".join(kinds) + ")")
        check(c, t, [call(c, name, first), call(c, "x", c.circuit[1]), call(c, name, second)], [declared])


def scen_external_refused():
    """conditional operations and unknown parameters are refused"""
    cls, name, params, qubits = choose(*EXTERNAL)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")][:params]
    c = Circuit(3, 1)
    with c.context as regs:
        op = operands(regs.q, cls, qubits, xs)
        conditional = choose(True, False)
        if conditional:
            op.conditional(regs.c[0])
    if not conditional:
        assume(not all([isinstance(p, (int, float)) for p in xs]))
    expect_raises(attempt(lambda: c.to_qir(add_external=True)), NotImplementedError, TypeError, "conditional operations and unknown parameters are refused")


def scen_parametric():
    """variables have no QIR form"""
    c = ParametricCircuit(2)
    with c.context as regs:
        if choose(0, 1):
            ops.RY(regs.p[0], regs.q[1])
        else:
            ops.CRZ(regs.p[0], regs.q[1], regs.q[0])
    expect_raises(attempt(lambda: c.to_qir(add_external=True)), TypeError, "variables are refused")


def scen_unknown():
    """operations without a QIR form are refused"""
    c = Circuit(2, 1)
    with c.context as regs:
        ops.X(regs.q[1])
    custom = create_operation(c, "custom")
    d = Circuit(2, 1)
    with d.context as regs:
        ops.X(regs.q[0])
        k = choose(0, 1)
        if k == 0:
            Barrier((regs.q[0], regs.q[1]))
        else:
            custom((regs.q[0], regs.q[1]))
    expect_raises(attempt(lambda: d.to_qir(add_external=any_bool("external"))), NotImplementedError, AttributeError, "unknown operations are refused")


def scen_order():
    """operations keep their order; measurements come last and are recorded in their order"""
    x, y = any_num("x"), any_num("y")
    assume(isinstance(x, float) and isinstance(y, int))
    c = Circuit(1, 1)
    c.add_qregister(2)
    c.add_cregister(3)
    with c.context:
        q, b = c.qubits, c.bits
        k = choose(0, 1, 2)
        f = [lambda: ops.X(q[1]), lambda: ops.RZ(x, q[2]), lambda: ops.CX(q[2], q[0]), lambda: ops.Hadamard(q[0]), lambda: ops.CRotation((x, y, 1.5), q[1], q[0])]
        if k:
            f = f[k:] + f[:k]
        skipped = choose(None, 0, 2, 4)
        for n in range(5):
            f[n]()
            if n == skipped:
                ops.Identity(q[0])
        i, j = choose((0, 3), (2, 1), (1, 0))
        ops.Measurement((q[2], q[0])) | (b[i], b[j])
        m = choose(0, 1, 2)
        if m == 1:
            ops.Measurement(q[1]) | b[2]
        if m == 2:
            ops.Measurement((q[2], q[1])) | (b[j], b[3])
        if choose(0, 1):
            ops.Identity(q[2])
    names = ["x", "rz", "cnot", "h", "crot"]
    names = names[k:] + names[:k]
    gates = [op for op in c.circuit if not isinstance(op, (ops.Measurement, ops.Identity))]
    pairs = [(2, i), (0, j)] + ([(1, 2)] if m == 1 else [(2, j), (1, 3)] if m == 2 else [])
    t = compiled(c, attempt(lambda: c.to_qir(add_external=True)))
    if t is not None:
        expected = [call(c, names[n], gates[n]) for n in range(5)]
        expected += [("call", "__quantum__qis__mz__body", (reference("Qubit", q), reference("Result", b))) for q, b in pairs]
        expected += [("output", reference("Result", b)) for q, b in pairs]
        check(c, t, expected, [("declare", "__quantum__qis__crot__body", "void (double, double, double, %Qubit*, %Qubit*)")])


def scen_after_measurement():
    """nothing can follow a measurement but measurements"""
    x = any_num("x")
    assume(isinstance(x, float))
    c = Circuit(2, 2)
    with c.context as regs:
        q = regs.q
        ops.X(q[0])
        ops.Measurement(q[0]) | regs.c[0]
        choose(lambda: ops.X(q[0]), lambda: ops.X(q[1]), lambda: ops.RX(x, q[1]), lambda: ops.CZ(q[1], q[0]), lambda: ops.SWAP((q[1], q[0])))()
        if choose(0, 1):
            ops.Measurement(q[1]) | regs.c[1]
    expect_raises(attempt(lambda: c.to_qir(add_external=choose(True, False))), ValueError, NotImplementedError, "an operation after a measurement is refused")


def scen_unassigned():
    """measurements without bits and conditional measurements are refused"""
    c = Circuit(2, 2)
    with c.context as regs:
        m = ops.Measurement(regs.q[any_int("k", 0, 1)])
        if choose(0, 1):
            m | regs.c[0]
            m.conditional(regs.c[1])
    expect_raises(attempt(lambda: c.to_qir()), TypeError, ValueError, NotImplementedError, "refused")


def scen_result():
    """text or bitcode of the same program"""
    c = any_circuit("c", Circuit)
    only(c, ops.Hadamard, 1, 0)
    external = any_bool("external")
    a, b = attempt(lambda: c.to_qir(external)), attempt(lambda: c.to_qir(external, bitcode=True))
    if raised(a) or raised(b):
        return
    same(program(result(a)), program(result(b), "bitcode"), "text and bitcode are of the same program")


def scen_default():
    """without arguments, the text without external functions"""
    c = Circuit(2, 0)
    with c.context as regs:
        choose(lambda: ops.CY(regs.q[0], regs.q[1]), lambda: ops.SWAP((regs.q[1], regs.q[0])), lambda: ops.Rotation((1, 2, 3), regs.q[1]))()
    a, b = attempt(lambda: c.to_qir()), attempt(lambda: c.to_qir(add_external=False, bitcode=False))
    expect(raised(a) == raised(b), "the same with the arguments left out")
    if raised(a):
        return
    same(program(result(a)), program(result(b)), "the same with the arguments left out")


def scen_measurements():
    """every measured qubit is measured once into its own bit and recorded"""
    c = any_circuit("c", Circuit)
    only(c, ops.Measurement)
    assume(not any([condition_of(op) for op in c.circuit]))
    assume(all([op.bits is not None for op in c.circuit]))
    r = attempt(lambda: c.to_qir(add_external=any_bool("external")))
    t = compiled(c, r)
    if t is not None:
        pairs = [(q, b) for op in c.circuit for q, b in zip(op.qubits, op.bits)]
        calls = [("call", "__quantum__qis__mz__body", (qref(c, q), bref(c, b))) for q, b in pairs]
        check(c, t, calls + [("output", bref(c, b)) for q, b in pairs])


def scen_identity():
    """identity operations are left out"""
    c = any_circuit("c", Circuit)
    only(c, ops.Identity)
    t = compiled(c, attempt(lambda: c.to_qir(add_external=any_bool("external"))))
    if t is not None:
        check(c, t, [])
