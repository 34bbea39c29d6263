"""Operations made from circuits."""
import math
import cmath
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import create_operation, Operation, ParametricOperation
from dwave.gate.tools.unitary import build_unitary
from dwave.gate.primitives import Qubit


def rx(x):
    return [[math.cos(x / 2), -1j * math.sin(x / 2)], [-1j * math.sin(x / 2), math.cos(x / 2)]]


def ry(x):
    return [[math.cos(x / 2), -math.sin(x / 2)], [math.sin(x / 2), math.cos(x / 2)]]


def rz(x):
    return [[cmath.exp(-1j * x / 2), 0], [0, cmath.exp(1j * x / 2)]]


X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]
S = [[1, 0], [0, 1j]]
H = [[math.sqrt(0.5), math.sqrt(0.5)], [math.sqrt(0.5), -math.sqrt(0.5)]]
SWAP = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]


def kron_controls(u, k):
    """u on the last qubit where the k leading ones are one"""
    n = 2 ** (k + 1)
    m = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(2):
        for j in range(2):
            m[n - 2 + i][n - 2 + j] = u[i][j]
    return m


def cswap():
    p = [0, 1, 2, 3, 4, 6, 5, 7]
    return [[1 if p[i] == j else 0 for j in range(8)] for i in range(8)]


def embed(n, u, qs):
    """u on the qubits qs (the first one leading) of n"""
    m = np.zeros((2 ** n, 2 ** n), dtype=np.complex128)
    k = len(qs)
    for i in range(2 ** n):
        row = sum([((i >> (n - 1 - qs[j])) % 2) << (k - 1 - j) for j in range(k)])
        base = i - sum([((i >> (n - 1 - q)) % 2) << (n - 1 - q) for q in qs])
        for col in range(2 ** k):
            m[i, base + sum([((col >> (k - 1 - j)) % 2) << (n - 1 - qs[j]) for j in range(k)])] = u[row][col]
    return m


def product(n, parts):
    m = np.eye(2 ** n, dtype=np.complex128)
    for u, qs in parts:
        m = embed(n, u, qs) @ m
    return m


def one_of(q, x):
    """an operation on three qubits, applied in a context, with its matrix and positions"""
    a, b, d = choose((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0))
    return choose(
        (lambda: ops.X(q[a]), X, (a,)), (lambda: ops.S(q[a]), S, (a,)), (lambda: ops.RY(x, q[a]), ry(x), (a,)),
        (lambda: ops.CX(q[a], q[b]), kron_controls(X, 1), (a, b)), (lambda: ops.CRZ(x, q[a], q[b]), kron_controls(rz(x), 1), (a, b)),
        (lambda: ops.CY(q[a], q[b]), kron_controls(Y, 1), (a, b)), (lambda: ops.SWAP((q[a], q[b])), SWAP, (a, b)),
        (lambda: ops.CCX((q[a], q[b], q[d])), kron_controls(X, 2), (a, b, d)), (lambda: ops.CSWAP((q[a], q[b], q[d])), cswap(), (a, b, d)),
    )


def scen_one_operation():
    """the matrix of one operation acts on its own qubits"""
    x = any_num("x")
    c = Circuit(3)
    with c.context as regs:
        f, u, qs = one_of(regs.q, x)
        f()
    op = create_operation(c, "custom")
    ref = product(3, [(u, qs)])
    same_matrix(op.matrix, ref, "the matrix of the class")
    same_matrix(op().matrix, ref, "the matrix of an operation")
    same_matrix(op((Qubit("a"), Qubit("b"), Qubit("c"))).matrix, ref, "the matrix of an operation with qubits")
    same_matrix(build_unitary(c), ref, "the unitary of the circuit")


def scen_two_operations():
    """matrices are multiplied in order of application"""
    x, y = any_num("x"), any_num("y")
    c = Circuit(2)
    with c.context as regs:
        q = regs.q
        parts = [(lambda: ops.RX(x, q[0]), rx(x), (0,)), (lambda: ops.RZ(y, q[0]), rz(y), (0,)), (lambda: ops.Hadamard(q[1]), H, (1,)),
                 (lambda: ops.CX(q[1], q[0]), kron_controls(X, 1), (1, 0)), (lambda: ops.CRY(y, q[0], q[1]), kron_controls(ry(y), 1), (0, 1)),
                 (lambda: ops.SWAP((q[1], q[0])), SWAP, (1, 0)), (lambda: ops.RY(x, q[1]), ry(x), (1,))]
        f, u, a = choose(*parts)
        g, v, b = choose(*parts)
        f()
        g()
    same_matrix(create_operation(c).matrix, product(2, [(u, a), (v, b)]), "the matrix of two operations")


def scen_sequence():
    """a longer circuit"""
    x, y = any_num("x"), any_num("y")
    c = Circuit()
    c.add_qregister(1, "a")
    c.add_qregister(2, "b")
    with c.context:
        a, b = c.qregisters["a"], c.qregisters["b"]
        ops.RX(x, b[0])
        ops.CX(b[0], a[0])
        ops.RZ(y, a[0])
        ops.SWAP((a[0], b[1]))
        ops.CCX((b[1], b[0], a[0]))
        ops.CHadamard(b[1], b[0])
        ops.Y(b[1])
        ops.Identity(a[0])
    ref = product(3, [(rx(x), (1,)), (kron_controls(X, 1), (1, 0)), (rz(y), (0,)), (SWAP, (0, 2)), (kron_controls(X, 2), (2, 1, 0)),
                      (kron_controls(H, 1), (2, 1)), (Y, (2,))])
    same_matrix(create_operation(c, "seq").matrix, ref, "the matrix of a sequence")


def scen_counts():
    """qubits, parameters, name and kind come from the circuit"""
    n = choose(1, 2, 5)
    name = choose("ABC", "my_gate", None)
    c = Circuit(n)
    op = create_operation(c, name)
    same(op.num_qubits, n, "the number of qubits")
    expect(issubclass(op, Operation) and not issubclass(op, ParametricOperation), "an ordinary operation")
    if name is not None:
        same(op.__name__, name, "the name of the class")
        same(op.name, name, "the name of the operation")
        same(op().name, name, "the name of an operation")
    p = ParametricCircuit(n)
    k = choose(1, 2, 3)
    with p.context as regs:
        for i in range(k):
            ops.RX(regs.p[i], regs.q[0])
    pop = create_operation(p, name)
    same(pop.num_qubits, n, "the number of qubits")
    same(pop.num_parameters, k, "the number of parameters")
    expect(issubclass(pop, ParametricOperation), "a parametric operation")
    if name is not None:
        same(pop.__name__, name, "the name of the class")
    expect_raises(attempt(lambda: pop([0] * (k + 1))), ValueError, "too many parameters")
    expect_raises(attempt(lambda: op([Qubit(str(i)) for i in range(n + 1)])), ValueError, "too many qubits")


def scen_any_counts():
    """qubits and parameters come from the circuit, whatever it is"""
    c = any_circuit("c")
    op = create_operation(c, name=any_str("name"))
    same(op.num_qubits, len(c.qubits), "the number of qubits")
    q = any_seq(Qubit, "qs", True)
    r = attempt(lambda: op(q))
    if len(q) == len(c.qubits):
        expect_ok(r, "as many qubits as the circuit")
        same(list(result(r).qubits), list(q), "the operation's qubits")
    else:
        expect_raises(r, ValueError, "another number of qubits")


def variable_circuit():
    """a circuit using its variables several times and in another order"""
    x = any_num("x")
    c = ParametricCircuit(2)
    kind = choose("twice", "reversed", "mixed", "controlled", "rotation")
    a, b, d = any_num("a"), any_num("b"), any_num("d")
    with c.context as regs:
        p, q = regs.p, regs.q
        if kind == "twice":
            ops.RX(p[0], q[0])
            ops.RY(p[1], q[1])
            ops.RZ(p[0], q[1])
            vals, parts = [a, b], [(rx(a), (0,)), (ry(b), (1,)), (rz(a), (1,))]
        elif kind == "reversed":
            p[1]
            ops.RX(p[1], q[0])
            ops.RZ(p[0], q[0])
            ops.RY(p[1], q[0])
            vals, parts = [a, b], [(rx(b), (0,)), (rz(a), (0,)), (ry(b), (0,))]
        elif kind == "mixed":
            ops.RX(p[0], q[0])
            ops.RZ(x, q[0])
            ops.CX(q[0], q[1])
            ops.RZ(p[1], q[1])
            vals, parts = [a, b], [(rx(a), (0,)), (rz(x), (0,)), (kron_controls(X, 1), (0, 1)), (rz(b), (1,))]
        elif kind == "controlled":
            ops.CRX(p[0], q[1], q[0])
            ops.RZ(p[1], q[0])
            ops.CRZ(p[0], q[0], q[1])
            vals, parts = [a, b], [(kron_controls(rx(a), 1), (1, 0)), (rz(b), (0,)), (kron_controls(rz(a), 1), (0, 1))]
        else:
            p[2]
            ops.Rotation([p[2], p[0], p[1]], q[1])
            ops.RY(p[0], q[0])
            vals, parts = [a, b, d], [(rz(d), (1,)), (ry(a), (1,)), (rz(b), (1,)), (ry(a), (0,))]
    return c, vals, parts


def scen_parameters():
    """every variable takes the value of the parameter of the same index, each time it occurs"""
    c, vals, parts = variable_circuit()
    op = create_operation(c, "custom")
    same(op.num_parameters, len(vals), "the number of parameters")
    ref = product(2, parts)
    o = op(vals)
    same_matrix(o.matrix, ref, "the matrix")
    same_matrix(o.matrix, ref, "the matrix, read again")
    same(list(o.parameters), vals, "the operation's parameters")
    q = op(vals, (Qubit("a"), Qubit("b")))
    same_matrix(q.matrix, ref, "the matrix of an operation with qubits")


def scen_set_variables():
    """the circuit's own variable values do not matter"""
    c, vals, parts = variable_circuit()
    op = create_operation(c)
    for p in parameters_of(c):
        p.set(any_num("other"))
    before = freeze_value(c)
    same_matrix(op(vals).matrix, product(2, parts), "the matrix")
    same(freeze_value(c), before, "the circuit")


def scen_two_instances():
    """two operations keep their own parameters"""
    y = any_num("y")
    c, vals, parts = variable_circuit()
    op = create_operation(c)
    one = op(vals)
    two = op([y for v in vals])
    m = two.matrix
    same_matrix(one.matrix, product(2, parts), "the matrix of the first")
    same_matrix(two.matrix, m, "the matrix of the second, read again")
    one.parameters[0] = y
    one.parameters[1] = y
    if len(vals) == 3:
        one.parameters[2] = y
    same_matrix(one.matrix, m, "the matrix after the parameters were changed")


def scen_unchanged():
    """computing the matrix changes neither the circuit nor the operation"""
    x = any_num("x")
    if choose(True, False):
        c, vals, parts = variable_circuit()
        op = create_operation(c)(vals)
    else:
        c = Circuit(3)
        with c.context as regs:
            f, u, qs = one_of(regs.q, x)
            f()
        op = create_operation(c)()
    before, was = freeze_value(c), freeze_value(op)
    m = op.matrix
    same(freeze_value(c), before, "the circuit after reading the matrix")
    same(freeze_value(op), was, "the operation after reading the matrix")
    m[0, 0] = 7
    same(freeze_value(c), before, "the circuit after changing the array")
    n = op.matrix
    expect(m is not n, "two reads give the same array")


def scen_current():
    """the matrix follows the circuit's operations"""
    x = any_num("x")
    c = Circuit(2)
    with c.context as regs:
        ops.RX(x, regs.q[0])
    op = create_operation(c)
    o = op()
    first = [(rx(x), (0,))]
    if choose(True, False):
        same_matrix(op.matrix, product(2, first), "the matrix of the class")
        same_matrix(o.matrix, product(2, first), "the matrix")
    c.unlock()
    with c.context as regs:
        ops.CX(regs.q[0], regs.q[1])
    second = first + [(kron_controls(X, 1), (0, 1))]
    same_matrix(op.matrix, product(2, second), "the matrix of the class after the circuit grew")
    same_matrix(o.matrix, product(2, second), "the matrix after the circuit grew")
    c.unlock()
    c.remove(c.circuit[0])
    same_matrix(o.matrix, product(2, second[1:]), "the matrix after an operation was removed")
    c.reset(keep_registers=True)
    with c.context as regs:
        ops.SWAP((regs.q[0], regs.q[1]))
    same_matrix(o.matrix, product(2, [(SWAP, (0, 1))]), "the matrix after a reset")


def scen_nested():
    """operations made from circuits are used like any other"""
    x = any_num("x")
    inner = Circuit(2)
    with inner.context as regs:
        ops.RY(x, regs.q[0])
        ops.CX(regs.q[0], regs.q[1])
    sub = create_operation(inner, "sub")
    a, b = choose((0, 1), (2, 0), (1, 2), (2, 1))
    outer = Circuit(3)
    with outer.context as regs:
        ops.Hadamard(regs.q[b])
        sub((regs.q[a], regs.q[b]))
        ops.S(regs.q[a])
    ref = product(3, [(H, (b,)), (ry(x), (a,)), (kron_controls(X, 1), (a, b)), (S, (a,))])
    same_matrix(create_operation(outer).matrix, ref, "the matrix of a nested operation")


def scen_nested_parametric():
    """parametric operations made from circuits are used like any other"""
    c, vals, parts = variable_circuit()
    sub = create_operation(c, "sub")
    outer = Circuit(2)
    with outer.context as regs:
        sub(vals, (regs.q[1], regs.q[0]))
        ops.S(regs.q[0])
    ref = product(2, [(u, tuple([1 - q for q in qs])) for u, qs in parts] + [(S, (0,))])
    same_matrix(create_operation(outer).matrix, ref, "the matrix of a nested operation")


def scen_in_context():
    """the matrix is the same inside a context, and reading it records nothing"""
    c, vals, parts = variable_circuit()
    op = create_operation(c, "custom")
    d = Circuit(3)
    with d.context as regs:
        o = op(vals, (regs.q[2], regs.q[0]))
        m = o.matrix
        same_matrix(m, product(2, parts), "the matrix in a context")
    expect(len(d.circuit) == 1, "reading the matrix recorded an operation")
