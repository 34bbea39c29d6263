"""State-vector simulation."""
import math
import cmath
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit
from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation
from dwave.gate.simulator.simulator import simulate, sample_qubit
from dwave.gate.simulator.ops import single_qubit, apply_gate_control, apply_gate_two_control, apply_swap, apply_cswap

N = 3


def bit(i, q):
    """value of qubit q in the big-endian basis state i"""
    return (i >> (N - 1 - q)) % 2


def ref_apply(vec, u, controls, target, little):
    """a (controlled) one-qubit matrix on the vector"""
    out = [v for v in vec]
    for i in range(8):
        if all(place(i, c, little) for c in controls):
            b = place(i, target, little)
            w = 1 << (target if little else N - 1 - target)
            i0 = i - w * b
            out[i] = u[b][0] * vec[i0] + u[b][1] * vec[i0 + w]
    return out


def place(i, q, little):
    return (i >> q) % 2 if little else bit(i, q)


def ref_swap(vec, controls, a, b, little):
    out = [v for v in vec]
    for i in range(8):
        if all(place(i, c, little) for c in controls) and place(i, a, little) != place(i, b, little):
            wa = 1 << (a if little else N - 1 - a)
            wb = 1 << (b if little else N - 1 - b)
            out[i] = vec[i + wa - wb] if place(i, a, little) == 0 else vec[i - wa + wb]
    return out


def rx(x):
    return [[math.cos(x / 2), -1j * math.sin(x / 2)], [-1j * math.sin(x / 2), math.cos(x / 2)]]


def rz(x):
    return [[cmath.exp(-1j * x / 2), 0], [0, cmath.exp(1j * x / 2)]]


def ry(x):
    return [[math.cos(x / 2), -math.sin(x / 2)], [math.sin(x / 2), math.cos(x / 2)]]


X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]
H = [[math.sqrt(0.5), math.sqrt(0.5)], [math.sqrt(0.5), -math.sqrt(0.5)]]
S = [[1, 0], [0, 1j]]


def run(apply, after, little, what, kinds=True):
    """simulates: an arbitrary product state, then apply(qubits); the stored state is after(vector)"""
    c = Circuit(N)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")]
    with c.context as regs:
        for k in range(N):
            ops.RX(xs[k], regs.q[k])
        apply(regs.q)
    vec = [1, 0, 0, 0, 0, 0, 0, 0]
    for k in range(N):
        vec = ref_apply(vec, rx(xs[k]), [], k, little)
    expect_ok(attempt(lambda: simulate(c, little_endian=little)), "simulating " + what)
    same_matrix(c.state, np.array(after(vec)), "the state after " + what)


def gates1():
    x = any_num("x")
    return [(ops.X, X, "X"), (ops.Y, Y, "Y"), (ops.Z, Z, "Z"), (ops.Hadamard, H, "H"), (ops.S, S, "S"),
            (lambda q: ops.RX(x, q), rx(x), "RX"), (lambda q: ops.RZ(x, q), rz(x), "RZ"), (lambda q: ops.RY(x, q), ry(x), "RY")]


def scen_one_qubit():
    """one-qubit gates act with their matrix on their own qubit"""
    kernels("content")
    little = choose(False, True)
    k = choose(0, 1, 2)
    gate, u, name = choose(*gates1())
    run(lambda q: gate(q[k]), lambda v: ref_apply(v, u, [], k, little), little, name)


def gates2():
    x = any_num("x")
    return [(ops.CX, X, "CX"), (ops.CY, Y, "CY"), (ops.CZ, Z, "CZ"), (ops.CHadamard, H, "CHadamard"),
            (lambda a, b: ops.CRX(x, a, b), rx(x), "CRX"), (lambda a, b: ops.CRZ(x, a, b), rz(x), "CRZ"),
            (lambda a, b: ops.CRY(x, a, b), ry(x), "CRY")]


def scen_controlled():
    """controlled gates act on the target where the control is one"""
    kernels("content")
    little = choose(False, True)
    a, b = choose((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1))
    gate, u, name = choose(*gates2())
    run(lambda q: gate(q[a], q[b]), lambda v: ref_apply(v, u, [a], b, little), little, name)


def scen_three_qubits():
    """CCX, CSWAP and SWAP keep the roles of their qubits"""
    kernels("content")
    little = choose(False, True)
    a, b, d = choose((0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
    kind = choose("CCX", "CSWAP", "SWAP")
    if kind == "CCX":
        run(lambda q: ops.CCX((q[a], q[b], q[d])), lambda v: ref_apply(v, X, [a, b], d, little), little, kind)
    elif kind == "CSWAP":
        run(lambda q: ops.CSWAP((q[a], q[b], q[d])), lambda v: ref_swap(v, [a], b, d, little), little, kind)
    else:
        run(lambda q: ops.SWAP((q[a], q[b])), lambda v: ref_swap(v, [], a, b, little), little, kind)


def scen_sequence():
    """operations are applied in the order of the circuit, each once"""
    kernels("content")
    little = choose(False, True)
    x = any_num("x")

    def apply(q):
        ops.Hadamard(q[2])
        ops.CX(q[2], q[0])
        ops.RZ(x, q[0])
        ops.SWAP((q[0], q[1]))
        ops.CCX((q[1], q[2], q[0]))
        ops.S(q[1])

    def after(v):
        v = ref_apply(v, H, [], 2, little)
        v = ref_apply(v, X, [2], 0, little)
        v = ref_apply(v, rz(x), [], 0, little)
        v = ref_swap(v, [], 0, 1, little)
        v = ref_apply(v, X, [1, 2], 0, little)
        return ref_apply(v, S, [], 1, little)

    run(apply, after, little, "a sequence")


def zero_state(n):
    state = np.zeros(1 << n, dtype=np.complex128)
    state[0] = 1
    return state


def reference(c, step, little):
    """step(state, n, op, indices, little) for every operation that is not blocked, in order"""
    n = c.num_qubits
    state = zero_state(n)
    for op in c.circuit:
        if not op.is_blocked:
            step(state, n, op, [c.qubits.index(q) for q in op.qubits], little)


def any_ops(cls, step):
    """a circuit of any size with any number of such operations is simulated like the reference loop"""
    kernels("trace")
    c = any_circuit("c")
    only(c, cls)
    assume(c.num_qubits > 0)
    little = choose(False, True)
    r = attempt(lambda: traced(lambda: simulate(c, False, little)))
    if not raised(r):
        same(result(r), traced(lambda: reference(c, step, little)), "the gates applied")


def scen_any_rx():
    """any circuit of RX gates"""
    any_ops(ops.RX, lambda s, n, op, t, le: single_qubit(n, s, np.array(rx(op.parameters[0])), t[0], little_endian=le))


def scen_any_h():
    """any circuit of Hadamard gates"""
    any_ops(ops.Hadamard, lambda s, n, op, t, le: single_qubit(n, s, np.array(H), t[0], little_endian=le))


def scen_any_cx():
    """any circuit of CX gates"""
    any_ops(ops.CX, lambda s, n, op, t, le: apply_gate_control(n, s, np.array(X), t[1], t[0], little_endian=le))


def scen_any_crz():
    """any circuit of CRZ gates"""
    any_ops(ops.CRZ, lambda s, n, op, t, le: apply_gate_control(n, s, np.array(rz(op.parameters[0])), t[1], t[0], little_endian=le))


def scen_any_swap():
    """any circuit of SWAP gates"""
    any_ops(ops.SWAP, lambda s, n, op, t, le: apply_swap(n, s, None, t[0], t[1], little_endian=le))


def scen_any_cswap():
    """any circuit of CSWAP gates"""
    any_ops(ops.CSWAP, lambda s, n, op, t, le: apply_cswap(n, s, None, t[1], t[2], t[0], little_endian=le))


def scen_any_ccx():
    """any circuit of CCX gates"""
    any_ops(ops.CCX, lambda s, n, op, t, le: apply_gate_two_control(n, s, np.array(X), t[2], t[0], t[1], little_endian=le))


def rot(b, g, d):
    return [[cmath.exp(-1j * (b + d) / 2) * math.cos(g / 2), -cmath.exp(1j * (b - d) / 2) * math.sin(g / 2)],
            [cmath.exp(-1j * (b - d) / 2) * math.sin(g / 2), cmath.exp(1j * (b + d) / 2) * math.cos(g / 2)]]


def scen_other_gates():
    """the remaining gates, and operations made from a circuit"""
    kernels("content")
    little = choose(False, True)
    b, g, d = any_num("b"), any_num("g"), any_num("d")
    a, k = choose((0, 1), (2, 0))
    T8 = [[1, 0], [0, cmath.exp(1j * math.pi / 4)]]
    gate, after, name = choose(
        (lambda q: ops.Rotation([b, g, d], q[a]), lambda v: ref_apply(v, rot(b, g, d), [], a, little), "Rotation"),
        (lambda q: ops.CRotation([b, g, d], q[a], q[k]), lambda v: ref_apply(v, rot(b, g, d), [a], k, little), "CRotation"),
        (lambda q: ops.Identity(q[a]), lambda v: v, "Identity"),
        (lambda q: ops.T(q[a]), lambda v: ref_apply(v, T8, [], a, little), "T"),
    )
    run(gate, after, little, name)


def scen_custom_operation():
    """an operation made from a one-qubit circuit"""
    kernels("content")
    inner = Circuit(1)
    x = any_num("x")
    with inner.context as regs:
        ops.RY(x, regs.q[0])
        ops.S(regs.q[0])
    op = ops.create_operation(inner, name="custom")
    k = choose(0, 1, 2)
    run(lambda q: op(q[k]), lambda v: ref_apply(ref_apply(v, ry(x), [], k, False), S, [], k, False), False, "a custom operation")


def scen_registers():
    """a qubit's index is its position among all qubits of the circuit"""
    kernels("content")
    c = Circuit()
    c.add_qregister(1, "a")
    c.add_qregister(2, "b")
    x = any_num("x")
    with c.context as regs:
        b = c.qregisters["b"]
        ops.RX(x, b[0])
        ops.CX(b[0], b[1])
        ops.CX(b[1], c.qregisters["a"][0])
        ops.Z(b[1])
    expect_ok(attempt(lambda: simulate(c)), "simulate")
    vec = ref_apply([1, 0, 0, 0, 0, 0, 0, 0], rx(x), [], 1, False)
    vec = ref_apply(ref_apply(vec, X, [1], 2, False), X, [2], 0, False)
    same_matrix(c.state, np.array(ref_apply(vec, Z, [], 2, False)), "the state")


def scen_blocked():
    """an operation blocked by a zero bit has no effect, any other one has"""
    kernels("content")
    k, v, gate = choose((0, 0, 0), (1, 0, 0), (0, 1, 0), (1, None, 0), (0, 0, 1), (1, 1, 1), (0, 0, 2), (1, None, 2), (0, 0, 3), (0, 0, 4), (0, 1, 4))
    c = Circuit(3, 2)
    x = any_num("x")
    with c.context as regs:
        q = regs.q
        ops.RX(x, q[0])
        ops.RX(x, q[1])
        op = [lambda: ops.Hadamard(q[0]), lambda: ops.CX(q[0], q[2]), lambda: ops.SWAP((q[0], q[2])), lambda: ops.CCX((q[0], q[1], q[2])), lambda: ops.CRY(x, q[0], q[2])][gate]()
        op.conditional((regs.c[0], regs.c[1]) if k else regs.c[k])
        ops.S(q[1])
    c.bits[1 - k].set(1)
    if v is not None:
        c.bits[k].set(v)
    expect_ok(attempt(lambda: simulate(c)), "simulate")
    vec = ref_apply(ref_apply([1, 0, 0, 0, 0, 0, 0, 0], rx(x), [], 0, False), rx(x), [], 1, False)
    if v != 0:
        vec = [lambda w: ref_apply(w, H, [], 0, False), lambda w: ref_apply(w, X, [0], 2, False), lambda w: ref_swap(w, [], 0, 2, False),
               lambda w: ref_apply(w, X, [0, 1], 2, False), lambda w: ref_apply(w, ry(x), [0], 2, False)][gate](vec)
    same_matrix(c.state, np.array(ref_apply(vec, S, [], 1, False)), "the state with conditional bits")


def scen_stored():
    """the new state replaces whatever was stored before, and simulating again gives the same state"""
    kernels("content")
    c = Circuit(3)
    with c.context as regs:
        ops.X(regs.q[1])
    if choose(True, False):
        old = any_array("old")
        assume(old.ndim == choose(1, 2))
        assume(old.shape == ((8,) if old.ndim == 1 else (8, 8)))
        c.set_state(old)
    for again in range(choose(1, 2)):
        expect_ok(attempt(lambda: simulate(c)), "simulate")
        same_matrix(c.state, np.array([0, 0, 1, 0, 0, 0, 0, 0]), "the stored state")


def scen_unsupported():
    """an operation the simulator does not know raises and stores nothing"""
    kernels("content")
    c = Circuit(3)
    inner = Circuit(2)
    with inner.context as regs:
        ops.CX(regs.q[0], regs.q[1])
    custom = ops.create_operation(inner, name="custom")
    kind = choose("barrier", "custom", "plain")
    with c.context as regs:
        ops.X(regs.q[0])
        if kind == "barrier":
            ops.Barrier((regs.q[0], regs.q[1]))
        elif kind == "custom":
            custom((regs.q[0], regs.q[1]))
        else:
            ops.Barrier((regs.q[0], regs.q[1], regs.q[2]))
        ops.X(regs.q[1])
    r = attempt(lambda: simulate(c, little_endian=choose(True, False)))
    expect(raised(r), "simulating an unsupported operation succeeded")
    expect(c.state is None, "a state was stored")


def scen_measurement_endianness():
    """measuring needs big-endian qubit order"""
    kernels("content")
    c = Circuit(3, 1)
    with c.context as regs:
        ops.X(regs.q[0])
        ops.Measurement(regs.q[1]) | regs.c[0]
    expect_raises(attempt(lambda: simulate(c, little_endian=True)), CircuitError, "measuring in little-endian order")
    expect_ok(attempt(lambda: simulate(c, little_endian=False)), "measuring in big-endian order")


def scen_measured_then_conditioned():
    """conditions are evaluated while simulating, with the outcome measured before"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c = Circuit(2, 1)
    x = any_num("x")
    with c.context as regs:
        ops.RX(x, regs.q[0])
        ops.Measurement(regs.q[0]) | regs.c[0]
        ops.X(regs.q[1]).conditional(regs.c[0])
        ops.Hadamard(regs.q[0])
    if choose(True, False):
        c.bits[0].set(choose(0, 1))
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    u = rx(x)
    state = np.array([u[0][0], 0, u[1][0], 0])
    m = sample_qubit(0, state, first_rng(seed))
    same(c.bits[0].value, m, "the stored outcome")
    vec = [state[0], state[1], state[2], state[3]]
    if m != 0:
        vec = [vec[1], vec[0], vec[3], vec[2]]
    s = math.sqrt(0.5)
    vec = [s * vec[0] + s * vec[2], s * vec[1] + s * vec[3], s * vec[0] - s * vec[2], s * vec[1] - s * vec[3]]
    same_array(c.state, np.array(vec), "the state")


def scen_seeded():
    """every measurement draws from the one generator made from the seed"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c = Circuit(2, 2)
    x = any_num("x")
    with c.context as regs:
        ops.RX(x, regs.q[0])
        ops.RX(x, regs.q[1])
        ops.Measurement(regs.q[0]) | regs.c[0]
        ops.Measurement(regs.q[1]) | regs.c[1]
        ops.Measurement(regs.q)
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    u = rx(x)
    state = np.array([u[0][0] * u[0][0], u[0][0] * u[1][0], u[1][0] * u[0][0], u[1][0] * u[1][0]])
    rng = first_rng(seed)
    a = sample_qubit(0, state, rng)
    b = sample_qubit(1, state, rng)
    sample_qubit(0, state, rng)
    sample_qubit(1, state, rng)
    same(c.bits[0].value, a, "the first outcome")
    same(c.bits[1].value, b, "the second outcome")
    same_array(c.state, state, "the state")


class CCY(ControlledOperation):
    _num_control = 2
    _num_target = 1
    _target_operation = ops.Y


class CCRZ(ParametricControlledOperation):
    _num_control = 2
    _num_target = 1
    _num_params = 1
    _target_operation = ops.RZ


class OwnRY(ParametricControlledOperation):
    _num_control = 1
    _num_target = 1
    _num_params = 1
    _target_operation = ops.RY


class CCCX(ControlledOperation):
    _num_control = 3
    _num_target = 1
    _target_operation = ops.X


class CSwapped(ControlledOperation):
    _num_control = 1
    _num_target = 2
    _target_operation = ops.SWAP


def scen_own_controlled():
    """controlled operations of the user's own, with one or two controls"""
    kernels("content")
    little = choose(False, True)
    x = any_num("x")
    a, b, d = choose((0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
    kind = choose("CCY", "CCRZ", "OwnRY")
    if kind == "CCY":
        run(lambda q: CCY((q[a], q[b]), q[d]), lambda v: ref_apply(v, Y, [a, b], d, little), little, kind)
    elif kind == "CCRZ":
        run(lambda q: CCRZ(x, (q[a], q[b]), q[d]), lambda v: ref_apply(v, rz(x), [a, b], d, little), little, kind)
    else:
        run(lambda q: OwnRY(x, q[a], q[b]), lambda v: ref_apply(v, ry(x), [a], b, little), little, kind)


def scen_own_unsupported():
    """controlled operations the simulator does not know raise and store nothing"""
    kernels("content")
    c = Circuit(4)
    kind = choose("three controls", "two targets")
    with c.context as regs:
        ops.X(regs.q[0])
        if kind == "three controls":
            CCCX((regs.q[0], regs.q[1], regs.q[2]), regs.q[3])
        else:
            CSwapped(regs.q[0], (regs.q[1], regs.q[2]))
    r = attempt(lambda: simulate(c, mixed_state=choose(False, True), little_endian=choose(True, False)))
    expect(raised(r), "simulating an unsupported operation succeeded")
    expect(c.state is None and c.density_matrix is None, "a state was stored")
