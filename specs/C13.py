"""Density-matrix simulation."""
import math
import cmath
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitError
from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation
from dwave.gate.simulator.simulator import simulate
from dwave.gate.simulator.ops import single_qubit, apply_gate_control, apply_gate_two_control, apply_swap, apply_cswap


def place(i, q, n, little):
    return (i >> q) % 2 if little else (i >> (n - 1 - q)) % 2


def weight(q, n, little):
    return 1 << (q if little else n - 1 - q)


def ref_apply(vec, n, u, controls, target, little):
    """a (controlled) one-qubit matrix on a vector of n qubits"""
    out = [v for v in vec]
    w = weight(target, n, little)
    for i in range(2 ** n):
        if all(place(i, c, n, little) for c in controls):
            b = place(i, target, n, little)
            i0 = i - w * b
            out[i] = u[b][0] * vec[i0] + u[b][1] * vec[i0 + w]
    return out


def ref_swap(vec, n, controls, a, b, little):
    out = [v for v in vec]
    wa, wb = weight(a, n, little), weight(b, n, little)
    for i in range(2 ** n):
        if all(place(i, c, n, little) for c in controls) and place(i, a, n, little) != place(i, b, n, little):
            out[i] = vec[i + wa - wb] if place(i, a, n, little) == 0 else vec[i - wa + wb]
    return out


def rx(x):
    return [[math.cos(x / 2), -1j * math.sin(x / 2)], [-1j * math.sin(x / 2), math.cos(x / 2)]]


def ry(x):
    return [[math.cos(x / 2), -math.sin(x / 2)], [math.sin(x / 2), math.cos(x / 2)]]


def rz(x):
    return [[cmath.exp(-1j * x / 2), 0], [0, cmath.exp(1j * x / 2)]]


def rot(b, g, d):
    return [[cmath.exp(-1j * (b + d) / 2) * math.cos(g / 2), -cmath.exp(1j * (b - d) / 2) * math.sin(g / 2)],
            [cmath.exp(-1j * (b - d) / 2) * math.sin(g / 2), cmath.exp(1j * (b + d) / 2) * math.cos(g / 2)]]


X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]
H = [[math.sqrt(0.5), math.sqrt(0.5)], [math.sqrt(0.5), -math.sqrt(0.5)]]
S = [[1, 0], [0, 1j]]
T8 = [[1, 0], [0, cmath.exp(1j * math.pi / 4)]]


def outer(vec):
    v = np.array(vec)
    return np.outer(v, np.conj(v))


def run(n, apply, after, little, what):
    """simulates an arbitrary product state followed by apply(qubits); the density matrix is that of after(vector)"""
    c = Circuit(n)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")]
    with c.context as regs:
        for k in range(n):
            ops.RX(xs[k], regs.q[k])
        apply(regs.q)
    vec = [1] + [0] * (2 ** n - 1)
    for k in range(n):
        vec = ref_apply(vec, n, rx(xs[k]), [], k, little)
    expect_ok(attempt(lambda: simulate(c, mixed_state=True, little_endian=little)), "simulating " + what)
    same_matrix(c.density_matrix, outer(after(vec)), "the density matrix after " + what)
    expect_raises(attempt(lambda: c.state), CircuitError, "the pure state after a mixed simulation")


def scen_one_qubit():
    """one-qubit gates act with their matrix on the rows and its conjugate on the columns"""
    kernels("content")
    little = choose(False, True)
    k = choose(0, 1)
    x, g, d = any_num("x"), any_num("g"), any_num("d")
    gate, u, name = choose((ops.X, X, "X"), (ops.Y, Y, "Y"), (ops.Z, Z, "Z"), (ops.Hadamard, H, "H"), (ops.S, S, "S"), (ops.T, T8, "T"),
                           (lambda q: ops.RX(x, q), rx(x), "RX"), (lambda q: ops.RZ(x, q), rz(x), "RZ"), (lambda q: ops.RY(x, q), ry(x), "RY"),
                           (lambda q: ops.Rotation([x, g, d], q), rot(x, g, d), "Rotation"))
    run(2, lambda q: gate(q[k]), lambda v: ref_apply(v, 2, u, [], k, little), little, name)


def scen_controlled():
    """controlled gates"""
    kernels("content")
    little = choose(False, True)
    a, b = choose((0, 1), (1, 0))
    x, g, d = any_num("x"), any_num("g"), any_num("d")
    gate, u, name = choose((ops.CX, X, "CX"), (ops.CY, Y, "CY"), (ops.CZ, Z, "CZ"), (ops.CHadamard, H, "CHadamard"),
                           (lambda a, b: ops.CRX(x, a, b), rx(x), "CRX"), (lambda a, b: ops.CRZ(x, a, b), rz(x), "CRZ"),
                           (lambda a, b: ops.CRY(x, a, b), ry(x), "CRY"), (lambda a, b: ops.CRotation([x, g, d], a, b), rot(x, g, d), "CRotation"))
    run(2, lambda q: gate(q[a], q[b]), lambda v: ref_apply(v, 2, u, [a], b, little), little, name)


def scen_swap():
    """SWAP exchanges rows and columns alike"""
    kernels("content")
    little = choose(False, True)
    a, b = choose((0, 1), (1, 0), (0, 2))
    run(3, lambda q: ops.SWAP((q[a], q[b])), lambda v: ref_swap(v, 3, [], a, b, little), little, "SWAP")


def scen_ccx():
    """CCX"""
    kernels("content")
    little = choose(False, True)
    a, b, d = choose((0, 1, 2), (2, 0, 1))
    run(3, lambda q: ops.CCX((q[a], q[b], q[d])), lambda v: ref_apply(v, 3, X, [a, b], d, little), little, "CCX")


def scen_cswap():
    """CSWAP"""
    kernels("content")
    little = choose(False, True)
    a, b, d = choose((0, 1, 2), (2, 0, 1))
    run(3, lambda q: ops.CSWAP((q[a], q[b], q[d])), lambda v: ref_swap(v, 3, [a], b, d, little), little, "CSWAP")


def scen_sequence():
    """every operation is applied, in the order of the circuit"""
    kernels("content")
    little = choose(False, True)
    x = any_num("x")

    def apply(q):
        ops.Hadamard(q[1])
        ops.CY(q[1], q[0])
        ops.RZ(x, q[0])
        ops.SWAP((q[0], q[1]))
        ops.S(q[1])
        ops.CRX(x, q[0], q[1])

    def after(v):
        v = ref_apply(v, 2, H, [], 1, little)
        v = ref_apply(v, 2, Y, [1], 0, little)
        v = ref_apply(v, 2, rz(x), [], 0, little)
        v = ref_swap(v, 2, [], 0, 1, little)
        v = ref_apply(v, 2, S, [], 1, little)
        return ref_apply(v, 2, rx(x), [0], 1, little)

    run(2, apply, after, little, "a sequence")


def scen_blocked():
    """a blocked operation has no effect on rows or columns"""
    kernels("content")
    c = Circuit(2, 1)
    x = any_num("x")
    value = choose(None, 0, 1)
    gate = choose(0, 1, 2)
    with c.context as regs:
        q = regs.q
        ops.RX(x, q[0])
        op = [lambda: ops.S(q[0]), lambda: ops.CY(q[0], q[1]), lambda: ops.SWAP((q[0], q[1]))][gate]()
        op.conditional(regs.c[0])
        ops.Hadamard(q[1])
    if value is not None:
        c.bits[0].set(value)
    expect_ok(attempt(lambda: simulate(c, mixed_state=True)), "simulate")
    vec = ref_apply([1, 0, 0, 0], 2, rx(x), [], 0, False)
    if value != 0:
        vec = [lambda v: ref_apply(v, 2, S, [], 0, False), lambda v: ref_apply(v, 2, Y, [0], 1, False), lambda v: ref_swap(v, 2, [], 0, 1, False)][gate](vec)
    same_matrix(c.density_matrix, outer(ref_apply(vec, 2, H, [], 1, False)), "the density matrix with a conditional bit")


def scen_stored():
    """the density matrix replaces any stored state"""
    kernels("content")
    c = Circuit(2)
    with c.context as regs:
        ops.Y(regs.q[1])
    if choose(True, False):
        simulate(c)
    for again in range(choose(1, 2)):
        expect_ok(attempt(lambda: simulate(c, True)), "simulate")
        same_matrix(c.density_matrix, np.array([[0, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0]]), "the stored density matrix")


def scen_unsupported():
    """an operation the simulator does not know raises and stores nothing"""
    kernels("content")
    c = Circuit(3)
    with c.context as regs:
        ops.X(regs.q[0])
        ops.Barrier((regs.q[0], regs.q[1]))
        ops.X(regs.q[1])
    r = attempt(lambda: simulate(c, True, choose(True, False)))
    expect(raised(r), "simulating an unsupported operation succeeded")
    expect(c.state is None and c.density_matrix is None, "a state was stored")


def zero_state(n):
    state = np.zeros(1 << n, dtype=np.complex128)
    state[0] = 1
    return state


def any_ops(cls, step, conj):
    """a circuit of any size with any number of such operations: the gate on the rows, its conjugate on the columns"""
    kernels("trace")
    c = any_circuit("c")
    only(c, cls)
    assume(c.num_qubits > 0)
    little = choose(False, True)
    r = attempt(lambda: traced(lambda: simulate(c, True, little)))
    if not raised(r):
        same(result(r), traced(lambda: reference(c, step, conj, little)), "the gates applied")


def reference(c, step, conj, little):
    n = c.num_qubits
    state = zero_state(2 * n)
    for op in c.circuit:
        if not op.is_blocked:
            t = [c.qubits.index(q) for q in op.qubits]
            rows = [k + n for k in t] if little else t
            columns = t if little else [k + n for k in t]
            step(state, 2 * n, op, rows, little)
            conj(state, 2 * n, op, columns, little)


def scen_any_ry():
    """any circuit of RZ gates"""
    any_ops(ops.RZ, lambda s, n, op, t, le: single_qubit(n, s, np.array(rz(op.parameters[0])), t[0], little_endian=le),
            lambda s, n, op, t, le: single_qubit(n, s, np.array(rz(-op.parameters[0])), t[0], little_endian=le))


def scen_any_cy():
    """any circuit of CY gates"""
    any_ops(ops.CY, lambda s, n, op, t, le: apply_gate_control(n, s, np.array(Y), t[1], t[0], little_endian=le),
            lambda s, n, op, t, le: apply_gate_control(n, s, np.array([[0, 1j], [-1j, 0]]), t[1], t[0], little_endian=le))


def scen_any_swap():
    """any circuit of SWAP gates"""
    f = lambda s, n, op, t, le: apply_swap(n, s, None, t[0], t[1], little_endian=le)
    any_ops(ops.SWAP, f, f)


def scen_any_ccx():
    """any circuit of CCX gates"""
    f = lambda s, n, op, t, le: apply_gate_two_control(n, s, np.array(X), t[2], t[0], t[1], little_endian=le)
    any_ops(ops.CCX, f, f)


class CCY(ControlledOperation):
    _num_control = 2
    _num_target = 1
    _target_operation = ops.Y


class CCRZ(ParametricControlledOperation):
    _num_control = 2
    _num_target = 1
    _num_params = 1
    _target_operation = ops.RZ


def scen_own_controlled():
    """controlled operations of the user's own with two controls"""
    kernels("content")
    little = choose(False, True)
    x = any_num("x")
    a, b, d = choose((0, 1, 2), (2, 0, 1))
    if choose(0, 1):
        run(3, lambda q: CCY((q[a], q[b]), q[d]), lambda v: ref_apply(v, 3, Y, [a, b], d, little), little, "CCY")
    else:
        run(3, lambda q: CCRZ(x, (q[a], q[b]), q[d]), lambda v: ref_apply(v, 3, rz(x), [a, b], d, little), little, "CCRZ")
