"""Controlled operations."""
import math
import cmath
import itertools
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit
from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation, Measurement
from dwave.gate.primitives import Qubit
from dwave.gate.tools.unitary import build_controlled_unitary


def reference(n, controls, target, u):
    """the identity except where all controls are one, where u acts on the target; qubit 0 is the leading bit"""
    m = np.eye(2 ** n, dtype=np.complex128)
    for i in range(2 ** n):
        if all((i >> (n - 1 - c)) % 2 == 1 for c in controls):
            w = 1 << (n - 1 - target)
            row = (i >> (n - 1 - target)) % 2
            base = i - w * row
            m[i, base] = u[row][0]
            m[i, base + w] = u[row][1]
    return m


def any_2x2():
    return [[any_num("a"), any_num("b")], [any_num("c"), any_num("d")]]


def rx(x):
    return [[math.cos(x / 2), -1j * math.sin(x / 2)], [-1j * math.sin(x / 2), math.cos(x / 2)]]


def ry(x):
    return [[math.cos(x / 2), -math.sin(x / 2)], [math.sin(x / 2), math.cos(x / 2)]]


def rz(x):
    return [[cmath.exp(-1j * x / 2), 0], [0, cmath.exp(1j * x / 2)]]


def placements(n):
    """every choice of a target and of controls among n qubits"""
    return [(tuple(cs), t) for t in range(n) for k in range(1, n) for cs in itertools.permutations([q for q in range(n) if q != t], k)]


def built(n):
    controls, target = choose(*placements(n))
    u = any_2x2()
    form = choose("size", "inferred", "int")
    if form == "size":
        m = build_controlled_unitary(controls, (target,), np.array(u), n)
    elif form == "inferred":
        m = build_controlled_unitary(list(controls), [target], np.array(u))
        n = max(controls + (target,)) + 1
    else:
        m = build_controlled_unitary(controls[0], target, np.array(u), num_qubits=n)
        controls = controls[:1]
    same_matrix(m, reference(n, controls, target, u), "the controlled matrix")


def scen_built_2():
    """two qubits, any positions, any target matrix"""
    built(2)


def scen_built_3():
    """three qubits, any positions and number of controls, any target matrix"""
    built(3)


def scen_built_4():
    """four qubits, any one or two controls, any target matrix"""
    controls, target = choose(*[(cs, t) for cs, t in placements(4) if len(cs) < 3])
    u = any_2x2()
    m = build_controlled_unitary(controls, target, np.array(u), 4)
    same_matrix(m, reference(4, controls, target, u), "the controlled matrix")


def scen_built_4_all():
    """four qubits, three controls, any target matrix"""
    controls, target = choose(*[(cs, t) for cs, t in placements(4) if len(cs) == 3])
    u = any_2x2()
    m = build_controlled_unitary(controls, target, np.array(u), choose(4, None))
    same_matrix(m, reference(4, controls, target, u), "the controlled matrix")


def scen_built_5():
    """five qubits"""
    controls, target = choose(((0,), 4), ((4,), 0), ((1, 3), 2), ((3, 1), 4), ((4, 0, 2), 1), ((0, 1, 2, 4), 3), ((2,), 3), ((3, 4), 0))
    u = any_2x2()
    m = build_controlled_unitary(controls, target, np.array(u), 5)
    same_matrix(m, reference(5, controls, target, u), "the controlled matrix")


def scen_refused_overlap():
    """controls and target may not overlap"""
    t, c = any_int("t", 0), any_int("c", 0)
    n = choose(None, 7)
    u = np.array([[0, 1], [1, 0]])
    kind = choose(0, 1, 2, 3)
    if kind == 0:
        r = attempt(lambda: build_controlled_unitary(t, t, u, n))
    elif kind == 1:
        r = attempt(lambda: build_controlled_unitary((c, t), t, u, n))
    elif kind == 2:
        r = attempt(lambda: build_controlled_unitary([t, c], [t], u, num_qubits=n))
    else:
        assume(c != t)
        r = attempt(lambda: build_controlled_unitary([c], (t, c), u, num_qubits=n))
    expect_raises(r, ValueError, "overlapping controls and target")


def scen_refused_outside():
    """indices outside the requested size are refused"""
    t, c, d = any_int("t"), any_int("c"), any_int("d")
    n = choose(1, 2, 3)
    assume(t != c and t != d and c != d)
    controls = choose((c,), (c, d))
    qs = controls + (t,)
    assume(not all(0 <= q and q < n for q in qs))
    r = attempt(lambda: build_controlled_unitary(controls if len(controls) > 1 else choose(controls, c), choose(t, [t]), np.array([[0, 1], [1, 0]]), n))
    expect_raises(r, ValueError, "an index outside the requested size")


def scen_refused_any_size():
    """indices outside the requested size are refused, for every size"""
    t, c, n = any_int("t", 0), any_int("c", 0), any_int("n", 1)
    assume(t != c)
    assume(t >= n or c >= n)
    expect_raises(attempt(lambda: build_controlled_unitary(c, t, np.array([[0, 1], [1, 0]]), n)), ValueError, "an index outside the requested size")


def scen_refused_negative():
    """negative indices are refused"""
    c, t = choose((-1, 0), (0, -1), (-1, -2), ((0, -1), 1), ((0, 1), -1), ([-2], [1]))
    expect_raises(attempt(lambda: build_controlled_unitary(c, t, np.array([[0, 1], [1, 0]]), choose(None, 2, 3))), ValueError, "a negative index")


def scen_refused_targets():
    """several targets are not supported"""
    a, b, c = choose((0, 1, 2), (2, 0, 1), (1, 2, 0))
    r = attempt(lambda: build_controlled_unitary((a,), (b, c), np.array([[0, 1], [1, 0]]), choose(3, None, 4)))
    expect_raises(r, NotImplementedError, "several targets")
    r = attempt(lambda: build_controlled_unitary((a, b), (), np.array([[0, 1], [1, 0]]), choose(3, None)))
    expect_raises(r, NotImplementedError, ValueError, "no target")


class CCRY(ParametricControlledOperation):
    _num_control = 2
    _num_target = 1
    _num_params = 1
    _target_operation = ops.RY


class CCCZ(ControlledOperation):
    _num_control = 3
    _num_target = 1
    _target_operation = ops.Z


def scen_matrix_of_operations():
    """the matrix of a controlled operation, its controls leading"""
    x = any_num("x")
    qs = [any_inst(Qubit, "q0"), any_inst(Qubit, "q1"), any_inst(Qubit, "q2"), any_inst(Qubit, "q3")]
    same_matrix(ops.CRX(x, qs[1], qs[0]).matrix, reference(2, (0,), 1, rx(x)), "the matrix of CRX")
    same_matrix(ops.CRY(x).matrix, reference(2, (0,), 1, ry(x)), "the matrix of CRY")
    same_matrix(ops.CX(qs[1], qs[0]).matrix, reference(2, (0,), 1, [[0, 1], [1, 0]]), "the matrix of CX")
    same_matrix(CCRY([x]).matrix, reference(3, (0, 1), 2, ry(x)), "the matrix of a rotation with two controls")
    same_matrix(CCRY([x], (qs[2], qs[0]), qs[1]).matrix, reference(3, (0, 1), 2, ry(x)), "the matrix of a rotation with two controls")
    same_matrix(CCCZ.matrix, reference(4, (0, 1, 2), 3, [[1, 0], [0, -1]]), "the matrix of Z with three controls")
    same_matrix(CCCZ(qs[:3], qs[3]).matrix, reference(4, (0, 1, 2), 3, [[1, 0], [0, -1]]), "the matrix of Z with three controls")


def scen_own_parameters():
    """the matrix uses the operation's own, current parameters"""
    x, y = any_num("x"), any_num("y")
    a = ops.CRZ(x)
    b = ops.CRZ(y)
    same_matrix(a.matrix, reference(2, (0,), 1, rz(x)), "the matrix of the first")
    same_matrix(b.matrix, reference(2, (0,), 1, rz(y)), "the matrix of the second")
    same_matrix(a.matrix, reference(2, (0,), 1, rz(x)), "the matrix of the first, read again")
    a.parameters[0] = y
    same_matrix(a.matrix, reference(2, (0,), 1, rz(y)), "the matrix after the parameter was changed")
    same_matrix(ops.CX.matrix, reference(2, (0,), 1, [[0, 1], [1, 0]]), "the matrix of another gate")


def builtin():
    return [ops.CX, ops.CY, ops.CZ, ops.CHadamard, ops.CRX, ops.CRY, ops.CRZ, ops.CRotation]


def scen_counts():
    """the counts of controls, targets and qubits agree with the operation"""
    x = any_num("x")
    qs = [Qubit("a"), Qubit("b"), Qubit("c"), Qubit("d")]
    for g in builtin() + [CCRY, CCCZ]:
        n = g.num_control + g.num_target
        same(g.num_qubits, n, "the number of qubits")
        same(g.target_operation.num_qubits, g.num_target, "the targets and the target operation's qubits")
        if hasattr(g, "num_parameters"):
            op = g([x, x, x][:g.num_parameters], qs[:g.num_control], qs[g.num_control:n])
            bare = g([x, x, x][:g.num_parameters])
        else:
            op = g(qs[:g.num_control], qs[g.num_control:n])
            bare = g()
        same(len(op.control), g.num_control, "the number of controls")
        same(len(op.target), g.num_target, "the number of targets")
        same(op.num_control, g.num_control, "the number of controls of an instance")
        same(op.num_target, g.num_target, "the number of targets of an instance")
        same(op.num_qubits, n, "the number of qubits of an instance")
        same(bare.num_qubits, n, "the number of qubits of an instance without qubits")
        same(g.num_control + g.num_target, g.num_qubits, "the counts afterwards")


def scen_targets():
    """every built-in controlled gate controls its own target gate"""
    for g, t in [(ops.CX, ops.X), (ops.CY, ops.Y), (ops.CZ, ops.Z), (ops.CHadamard, ops.Hadamard), (ops.CRX, ops.RX),
                 (ops.CRY, ops.RY), (ops.CRZ, ops.RZ), (ops.CRotation, ops.Rotation)]:
        expect(g.target_operation is t, "the target operation")
        expect(g().target_operation is t if not hasattr(g, "num_parameters") else g([0, 0, 0][:g.num_parameters]).target_operation is t, "the target operation of an instance")


def scen_refused_at_the_end():
    """the first index outside the requested size is refused"""
    n = choose(1, 2, 3, 4)
    c = choose(*range(n + 2))
    t = choose(*range(n + 2))
    d = choose(None, *range(n + 2))
    assume(c != t and d != c and d != t)
    controls = (c,) if d is None else (c, d)
    u = any_2x2()
    r = attempt(lambda: build_controlled_unitary(controls, t, np.array(u), n))
    if max(controls + (t,)) >= n:
        expect_raises(r, ValueError, "an index outside the requested size")
    else:
        expect_ok(r, "building a controlled matrix")
        same_matrix(result(r), reference(n, controls, t, u), "the controlled matrix")


def scen_built_many():
    """twelve qubits, indices of one and two digits"""
    controls, target = choose(((0, 1, 2, 3, 4, 5, 6, 7, 8, 9), 10), ((10, 9, 8, 7, 6, 5, 4, 3, 2, 1), 0), ((11, 2, 3, 4, 5, 6, 7, 8, 9, 0), 10))
    u = any_2x2()
    m = build_controlled_unitary(controls, target, np.array(u), 12)
    (free,) = [q for q in range(12) if q != target and q not in controls]
    place = {q: 1 << (11 - q) for q in range(12)}
    base = sum(place[c] for c in controls)
    for extra in (0, place[free]):
        i = base + extra
        j = i + place[target]
        same_matrix(np.array([[m[i, i], m[i, j]], [m[j, i], m[j, j]]]), u, "the target matrix at its place")
    expect(m.shape == (4096, 4096), "the size")
