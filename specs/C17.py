"""Gate matrices."""
import math
import cmath
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit
from dwave.gate.primitives import Qubit

PAULI = {
    "x": [[0, 1], [1, 0]],
    "y": [[0, -1j], [1j, 0]],
    "z": [[1, 0], [0, -1]],
}


def controlled(u, n=1):
    """the block matrix diag(1, u), with n controls before the target"""
    size = 2 ** (n + 1)
    m = np.eye(size, dtype=np.complex128)
    for i in range(2):
        for j in range(2):
            m[size - 2 + i, size - 2 + j] = u[i][j]
    return m


def rx(x):
    return [[math.cos(x / 2), -1j * math.sin(x / 2)], [-1j * math.sin(x / 2), math.cos(x / 2)]]


def ry(x):
    return [[math.cos(x / 2), -math.sin(x / 2)], [math.sin(x / 2), math.cos(x / 2)]]


def rz(x):
    return [[cmath.exp(-1j * x / 2), 0], [0, cmath.exp(1j * x / 2)]]


def rot(b, g, d):
    return [[cmath.exp(-1j * (b + d) / 2) * math.cos(g / 2), -cmath.exp(1j * (b - d) / 2) * math.sin(g / 2)],
            [cmath.exp(-1j * (b - d) / 2) * math.sin(g / 2), cmath.exp(1j * (b + d) / 2) * math.cos(g / 2)]]


H = [[math.sqrt(0.5), math.sqrt(0.5)], [math.sqrt(0.5), -math.sqrt(0.5)]]


def permutation(n, a, b):
    m = np.eye(n)
    m[a, a] = 0
    m[b, b] = 0
    m[a, b] = 1
    m[b, a] = 1
    return m


def check(m, ref, what):
    same_matrix(m, np.array(ref), "the matrix of " + what)
    is_unitary(m, "the matrix of " + what)


def fixed_gates():
    return [
        (ops.Identity, [[1, 0], [0, 1]], "Identity", 1),
        (ops.X, PAULI["x"], "X", 1),
        (ops.Y, PAULI["y"], "Y", 1),
        (ops.Z, PAULI["z"], "Z", 1),
        (ops.Hadamard, H, "Hadamard", 1),
        (ops.S, [[1, 0], [0, 1j]], "S", 1),
        (ops.T, [[1, 0], [0, cmath.exp(1j * math.pi / 4)]], "T", 1),
        (ops.SWAP, permutation(4, 1, 2), "SWAP", 2),
        (ops.CSWAP, permutation(8, 5, 6), "CSWAP", 3),
        (ops.CCX, permutation(8, 6, 7), "CCX", 3),
    ]


def scen_class():
    """the matrix of a gate class is the standard one"""
    for g, ref, name, n in fixed_gates():
        check(g.matrix, ref, name)
        same(g.num_qubits, n, "qubits of " + name)


def scen_instance():
    """the matrix of a gate instance is the standard one, with and without qubits"""
    qs = [Qubit("a"), Qubit("b"), Qubit("c")]
    for g, ref, name, n in fixed_gates():
        check(g().matrix, ref, name + "()")
        check(g(qs[:n]).matrix, ref, name + " on qubits")


def scen_instance_in_context():
    """the matrix of a gate inside a context is the standard one"""
    c = Circuit(3)
    with c.context as r:
        for g, ref, name, n in fixed_gates():
            check(g(c.qubits[3 - n:]).matrix, ref, name + " in a context")


def scen_aliases():
    """aliases denote the same gate"""
    for g, ref, name, n in [
        (ops.CNOT, controlled(PAULI["x"]), "CNOT", 2),
        (ops.Phase, [[1, 0], [0, 1j]], "Phase", 1),
        (ops.P, [[1, 0], [0, 1j]], "P", 1),
        (ops.Fredkin, permutation(8, 5, 6), "Fredkin", 3),
        (ops.CCNOT, permutation(8, 6, 7), "CCNOT", 3),
        (ops.Toffoli, permutation(8, 6, 7), "Toffoli", 3),
    ]:
        check(g.matrix, ref, name)
        same(g.num_qubits, n, "qubits of " + name)


def scen_rotations():
    """the matrix of a rotation is the standard half-angle rotation, for every angle"""
    x = any_num("x")
    q = any_inst(Qubit, "q")
    for g, ref, name in [(ops.RX, rx(x), "RX"), (ops.RY, ry(x), "RY"), (ops.RZ, rz(x), "RZ")]:
        check(g(x).matrix, ref, name)
        check(g([x], q).matrix, ref, name + " on a qubit")
        expect(g.matrix is None, "no matrix of a rotation without an angle")
        same(g.num_parameters, 1, "parameters of " + name)
        same(g.num_qubits, 1, "qubits of " + name)


def scen_rotations_at_zero():
    """a rotation by zero is the identity"""
    for g in [ops.RX, ops.RY, ops.RZ]:
        check(g(0).matrix, [[1, 0], [0, 1]], "a rotation by 0")
        check(g(0.0).matrix, [[1, 0], [0, 1]], "a rotation by 0.0")
    check(ops.Rotation([0, 0, 0]).matrix, [[1, 0], [0, 1]], "a rotation by 0")


def scen_rotations_at_int():
    """integer angles are angles like any other"""
    for k in [1, 2, 3]:
        for g, ref, name in [(ops.RX, rx(k), "RX"), (ops.RY, ry(k), "RY"), (ops.RZ, rz(k), "RZ")]:
            check(g(k).matrix, ref, name)
    n = any_int("n")
    for g, ref, name in [(ops.RX, rx(n), "RX"), (ops.RY, ry(n), "RY"), (ops.RZ, rz(n), "RZ")]:
        check(g(n).matrix, ref, name)


def scen_rotation():
    """the general rotation is RZ(delta) RY(gamma) RZ(beta)"""
    b, g, d = any_num("beta"), any_num("gamma"), any_num("delta")
    m = ops.Rotation([b, g, d]).matrix
    check(m, rot(b, g, d), "Rotation")
    same_matrix(m, np.array(rz(d)) @ np.array(ry(g)) @ np.array(rz(b)), "the matrix of Rotation as a product")
    same_matrix(m, ops.RZ(d).matrix @ ops.RY(g).matrix @ ops.RZ(b).matrix, "the matrix of Rotation as a product of gates")
    same(ops.Rotation.num_parameters, 3, "parameters of Rotation")


def scen_two_operations():
    """two operations of one kind keep their own angles"""
    x, y = any_num("x"), any_num("y")
    for g, f in [(ops.RX, rx), (ops.RY, ry), (ops.RZ, rz)]:
        a = g(x)
        b = g(y)
        check(a.matrix, f(x), "the first operation")
        check(b.matrix, f(y), "the second operation")
        check(a.matrix, f(x), "the first operation, read again")


def scen_changed_parameter():
    """the matrix follows the operation's current parameters"""
    x, y = any_num("x"), any_num("y")
    for g, f in [(ops.RX, rx), (ops.RY, ry), (ops.RZ, rz)]:
        a = g(x)
        check(a.matrix, f(x), "the operation")
        a.parameters[0] = y
        check(a.matrix, f(y), "the operation after its parameter was changed")


def controlled_gates():
    return [(ops.CX, PAULI["x"], "CX"), (ops.CY, PAULI["y"], "CY"), (ops.CZ, PAULI["z"], "CZ"), (ops.CHadamard, H, "CHadamard")]


def scen_controlled():
    """the matrix of a controlled gate is diag(1, U)"""
    p, q = any_inst(Qubit, "p"), any_inst(Qubit, "q")
    for g, ref, name in controlled_gates():
        check(g.matrix, controlled(ref), name)
        check(g().matrix, controlled(ref), name + "()")
        check(g(p, q).matrix, controlled(ref), name + " on qubits")
        same(g.num_qubits, 2, "qubits of " + name)


def scen_controlled_rotations():
    """the matrix of a controlled rotation is diag(1, R) for every angle"""
    x = any_num("x")
    p, q = any_inst(Qubit, "p"), any_inst(Qubit, "q")
    for g, ref, name in [(ops.CRX, rx(x), "CRX"), (ops.CRY, ry(x), "CRY"), (ops.CRZ, rz(x), "CRZ")]:
        check(g(x).matrix, controlled(ref), name)
        check(g(x, p, q).matrix, controlled(ref), name + " on qubits")
        check(g([x], qubits=(p, q)).matrix, controlled(ref), name + " on qubits")
        same(g.num_qubits, 2, "qubits of " + name)
        same(g.num_parameters, 1, "parameters of " + name)


def scen_controlled_rotation():
    """the matrix of the controlled general rotation"""
    b, g, d = any_num("beta"), any_num("gamma"), any_num("delta")
    check(ops.CRotation([b, g, d]).matrix, controlled(rot(b, g, d)), "CRotation")
    same(ops.CRotation.num_parameters, 3, "parameters of CRotation")
    same(ops.CRotation.num_qubits, 2, "qubits of CRotation")


def scen_fresh():
    """every access gives a fresh array"""
    for g, ref, name, n in fixed_gates():
        a = g.matrix
        b = g.matrix
        expect(a is not b, "two reads of the matrix of " + name + " give the same array")
        a[0, 0] = 7
        check(g.matrix, ref, name + " after a caller changed the array it was given")
        check(g().matrix, ref, name + "() after a caller changed the array it was given")


def scen_fresh_instance():
    """every access through an instance gives a fresh array"""
    for g, ref, name, n in fixed_gates():
        o = g()
        a = o.matrix
        a[0, 0] = 7
        check(o.matrix, ref, name + "() after a caller changed the array it was given")
        check(g.matrix, ref, name + " after a caller changed the array it was given")


def scen_fresh_parametric():
    """every access to a rotation's matrix gives a fresh array"""
    x = any_num("x")
    for g, f in [(ops.RX, rx), (ops.RY, ry), (ops.RZ, rz)]:
        o = g(x)
        o.matrix[0, 0] = 7
        check(o.matrix, f(x), "a rotation after a caller changed the array it was given")
        check(g(x).matrix, f(x), "another rotation after a caller changed the array it was given")


def scen_fresh_controlled():
    """every access to a controlled gate's matrix gives a fresh array"""
    x = any_num("x")
    for g, ref, name in controlled_gates():
        g.matrix[0, 0] = 7
        g.target_operation.matrix[0, 0] = 7
        check(g.matrix, controlled(ref), name + " after a caller changed the array it was given")
    o = ops.CRX(x)
    o.matrix[2, 2] = 7
    check(o.matrix, controlled(rx(x)), "CRX after a caller changed the array it was given")
