"""Decompositions."""
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.operations.base import Operation, ParametricOperation, Measurement, Barrier, create_operation
from dwave.gate.circuit import Circuit
from dwave.gate.primitives import Qubit

GATES = (ops.Identity, ops.X, ops.Y, ops.Z, ops.Hadamard, ops.S, ops.T, ops.RX, ops.RY, ops.RZ, ops.Rotation, ops.CX, ops.CY, ops.CZ, ops.SWAP, ops.CHadamard,
         ops.CRX, ops.CRY, ops.CRZ, ops.CRotation, ops.CSWAP, ops.CCX)


def parameters(cls):
    return [any_num("x0"), any_num("x1"), any_num("x2")][:cls.num_parameters if hasattr(cls, "num_parameters") else 0]


def scen_denotes():
    """the named operations, one after the other and taking the parameters in order, do what the operation does"""
    cls = choose(*GATES)
    xs = parameters(cls)
    where = choose("class", "instance")
    r = attempt(lambda: cls.decomposition if where == "class" else (cls(xs) if xs else cls()).decomposition)
    if raised(r):
        expect_raises(r, NotImplementedError, "an operation without decomposition")
        return
    labels = result(r)
    expect(len(labels) > 0, "a decomposition is not empty")
    m, k = np.eye(2 ** cls.num_qubits, dtype=np.complex128), 0
    for label in labels:
        expect(hasattr(ops, label), "a decomposition names operations")
        part = getattr(ops, label)
        n = part.num_parameters if hasattr(part, "num_parameters") else 0
        expect(k + n <= len(xs), "the operation's parameters suffice")
        expect(part.num_qubits == cls.num_qubits, "the named operations act on the same qubits")
        m = np.dot((part(xs[k:k + n]) if n else part()).matrix, m)
        k = k + n
    expect(k == len(xs), "every parameter is used")
    same_matrix((cls(xs) if xs else cls()).matrix, m, "the matrix of the operation and of its decomposition")


def scen_kept():
    """the built-in decompositions can be read"""
    for cls in (ops.Z, ops.Rotation):
        expect(len(expect_ok(attempt(lambda: cls.decomposition), "the decomposition")) > 0, "the decomposition")


class Declared(Operation):
    """an operation that declares its decomposition"""
    _num_qubits = 1
    _decomposition = ["S", "S"]


class Undeclared(Operation):
    """an operation that does not"""
    _num_qubits = 1


class Empty(Operation):
    """an operation with an empty one"""
    _num_qubits = 1
    _decomposition = []


def scen_declared():
    """a declared decomposition is the one that is read, on class and instance, and without one reading raises"""
    q = any_inst(Qubit, "q")
    same(list(Declared.decomposition), ["S", "S"], "the declared decomposition")
    same(list(Declared(q).decomposition), ["S", "S"], "the declared decomposition of an instance")
    for cls in (Undeclared, Empty, Measurement, Barrier, Operation):
        expect_raises(attempt(lambda: cls.decomposition), NotImplementedError, "an operation without decomposition")
        expect_raises(attempt(lambda: cls(q).decomposition), NotImplementedError, "an instance without decomposition")


def scen_custom():
    """an operation made of a circuit has no decomposition"""
    c = Circuit(1)
    with c.context as regs:
        ops.X(regs.q[0])
    custom = create_operation(c, name=choose("Z", "custom"))
    expect_raises(attempt(lambda: custom.decomposition), NotImplementedError, "a custom operation")
