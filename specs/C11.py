"""The state stored on a circuit."""
import numpy as np
from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit
from dwave.gate.registers.registers import QuantumRegister


def a_circuit():
    """A circuit with at least one qubit, in any of the reachable storage conditions."""
    c = choose(any_circuit("c", None, False), any_circuit("pc", ParametricCircuit, False))
    assume(c.num_qubits > 0)
    return c


def fresh():
    n = any_int("n", 1)
    return choose(Circuit, ParametricCircuit)(n), n


def a_vector(n):
    """A normalized vector of the right size."""
    v = any_array("v")
    assume(v.ndim == 1)
    assume(v.shape == (2 ** n,))
    assume(np.isclose(np.linalg.norm(v), 1))
    return v


def a_matrix(n):
    m = any_array("m")
    assume(m.ndim == 2)
    assume(m.shape == (2 ** n, 2 ** n))
    assume(np.isclose(np.trace(m), 1))
    return m


def scen_new():
    """a new circuit has no state"""
    c, n = fresh()
    expect(c.state is None, "state of a new circuit")
    expect(c.density_matrix is None, "density matrix of a new circuit")


def scen_pure():
    """a normalized vector is accepted and is the state"""
    c, n = fresh()
    v = a_vector(n)
    expect_ok(attempt_all(lambda: c.set_state(v)), "setting a normalized vector")
    same(c.state, v, "the state")
    same(c.density_matrix, v.reshape(-1, 1) @ v.conj().reshape(1, -1), "the density matrix of a pure state")
    same(c.state, v, "the state after reading the density matrix")


def scen_mixed():
    """a matrix of unit trace is accepted and is the density matrix"""
    c, n = fresh()
    m = a_matrix(n)
    expect_ok(attempt_all(lambda: c.set_state(m)), "setting a normalized matrix")
    same(c.density_matrix, m, "the density matrix")
    expect_raises(attempt(lambda: c.state), CircuitError, "reading the pure state of a mixed circuit")


def scen_outer():
    """the density matrix of a pure state is its outer product with its conjugate"""
    c, n = fresh()
    v = a_vector(n)
    c.set_state(v)
    rho = c.density_matrix
    same(rho, v.reshape(-1, 1) @ v.conj().reshape(1, -1), "the density matrix of a pure state")
    same(c.density_matrix, rho, "read again")


def scen_entries():
    """the entries of the density matrix of a pure state"""
    kernels("content")
    x, y, z = any_num("x"), any_num("y"), any_num("z")
    if choose(1, 2) == 1:
        c = choose(Circuit, ParametricCircuit)(1)
        v = [x, 1j * y]
        w = [x, -1j * y]
    else:
        c = Circuit(2)
        v = [x + 1j * y, 0, 1j * z, y]
        w = [x - 1j * y, 0, -1j * z, y]
    expect_ok(attempt(lambda: c.set_state(np.array(v))), "setting a state")
    for _ in range(choose(1, 2)):
        same_matrix(c.density_matrix, np.array([[p * q for q in w] for p in v]), "the density matrix of a pure state")
    same_array(c.state, np.array(v), "the state")


def scen_sizes():
    """only arrays of the right size are accepted"""
    kernels("content")
    n = choose(1, 2)
    c = choose(Circuit, ParametricCircuit)(n)
    if choose(True, False):
        k = choose(1, 2, 3, 4, 5, 8)
        s = np.array([1] + [0] * (k - 1), dtype=np.complex128)
        good = k == 2 ** n
    else:
        k, j = choose(1, 2, 3, 4, 8), choose(1, 2, 3, 4, 8)
        s = np.array([[1] + [0] * (j - 1)] + [[0] * j for _ in range(k - 1)], dtype=np.complex128)
        good = k == j == 2 ** n
    force = choose(True, False)
    if good:
        expect_ok(attempt(lambda: c.set_state(s, force=force)), "a state of the right size")
    else:
        expect_raises(attempt(lambda: c.set_state(s, force=force)), ValueError, "a state of another size")
        expect(c.state is None and c.density_matrix is None, "nothing is set")


def scen_wrong_shape():
    """other shapes are refused and change nothing"""
    c, n = fresh()
    w = any_array("w")
    good = w.shape == (2 ** n,) or w.shape == (2 ** n, 2 ** n)
    first = choose(0, 1, 2)
    if first == 1:
        old = a_vector(n)
        c.set_state(old)
    elif first == 2:
        old = a_matrix(n)
        c.set_state(old)
    force = True if first else choose(True, False)
    r = attempt(lambda: c.set_state(w, force))
    if not good:
        expect_raises(r, ValueError, "setting a state of the wrong shape")
        if first == 0:
            expect(c.state is None, "state after a refused call")
            expect(c.density_matrix is None, "density matrix after a refused call")
        elif first == 1:
            same(c.state, old, "state after a refused call")
        else:
            same(c.density_matrix, old, "density matrix after a refused call")
            expect_raises(attempt(lambda: c.state), CircuitError, "reading the pure state of a mixed circuit")


def scen_wrong_norm():
    """states that are not normalized are refused and change nothing"""
    c, n = fresh()
    w = any_array("w")
    vec = choose(True, False)
    if vec:
        assume(w.ndim == 1)
        assume(w.shape == (2 ** n,))
        good = np.isclose(np.linalg.norm(w), 1)
    else:
        assume(w.ndim == 2)
        assume(w.shape == (2 ** n, 2 ** n))
        good = np.isclose(np.trace(w), 1)
    old = a_vector(n)
    c.set_state(old)
    r = attempt(lambda: c.set_state(w, force=True))
    if good:
        expect_ok(r, "setting a normalized state")
        if vec:
            same(c.state, w, "the state")
        else:
            same(c.density_matrix, w, "the density matrix")
            expect_raises(attempt(lambda: c.state), CircuitError, "reading the pure state of a mixed circuit")
    else:
        expect_raises(r, ValueError, "setting a state that is not normalized")
        same(c.state, old, "state after a refused call")


def scen_overwrite():
    """a set state is overwritten only by force"""
    c, n = fresh()
    first, second = choose(0, 1), choose(0, 1)
    a = a_vector(n) if first == 0 else a_matrix(n)
    b = a_vector(n) if second == 0 else a_matrix(n)
    c.set_state(a)
    if choose(True, False) and first == 0:
        c.density_matrix
    if choose(True, False):
        expect_raises(attempt(lambda: c.set_state(b)), CircuitError, "overwriting a state")
        same(c.state if first == 0 else c.density_matrix, a, "state after a refused call")
    else:
        expect_ok(attempt(lambda: c.set_state(b, force=True)), "overwriting a state by force")
        if second == 0:
            same(c.state, b, "the state")
            same(c.density_matrix, b.reshape(-1, 1) @ b.conj().reshape(1, -1), "the density matrix of a pure state")
        else:
            same(c.density_matrix, b, "the density matrix")
            expect_raises(attempt(lambda: c.state), CircuitError, "reading the pure state of a mixed circuit")


def scen_refused_by_force():
    """the refusal to overwrite does not depend on the new state's validity"""
    c, n = fresh()
    a = a_vector(n)
    c.set_state(a)
    w = any_array("w")
    r = attempt(lambda: c.set_state(w, normalize=choose(True, False)))
    expect_raises(r, CircuitError, "overwriting a state")
    same(c.state, a, "state after a refused call")


def scen_normalize():
    """normalizing divides by the norm, or by the trace of a matrix"""
    c, n = fresh()
    w = any_array("w")
    if choose(True, False):
        assume(w.ndim == 1)
        want = w / np.linalg.norm(w)
        assume(want.shape == (2 ** n,))
        assume(want.ndim == 1)
        assume(np.isclose(np.linalg.norm(want), 1))
        expect_ok(attempt(lambda: c.set_state(w, normalize=True)), "setting a state to be normalized")
        same(c.state, want, "the normalized state")
    else:
        assume(w.ndim == 2)
        want = w / np.trace(w)
        assume(want.shape == (2 ** n, 2 ** n))
        assume(want.ndim == 2)
        assume(np.isclose(np.trace(want), 1))
        expect_ok(attempt(lambda: c.set_state(w, normalize=True)), "setting a state to be normalized")
        same(c.density_matrix, want, "the normalized density matrix")


def scen_two_registers():
    """the size counts the qubits of all registers"""
    c = Circuit()
    n, m = any_int("n", 1), any_int("m", 0)
    c.add_qregister(n)
    c.add_qregister(m)
    v = a_vector(n + m)
    expect_ok(attempt(lambda: c.set_state(v)), "setting a normalized vector")
    same(c.state, v, "the state")


def scen_other_circuit():
    """another circuit keeps its state"""
    n = any_int("n", 1)
    c, d = Circuit(n), Circuit(n)
    v = a_vector(n)
    c.set_state(v)
    expect(d.state is None, "state of another circuit")
    m = a_matrix(n)
    d.set_state(m)
    same(c.state, v, "the state")


def scen_caller_array():
    """setting a state does not change the caller's array"""
    c, n = fresh()
    v = a_vector(n)
    before = v.copy()
    r = attempt(lambda: c.set_state(v, normalize=choose(True, False)))
    same(v, before, "the caller's array")
    rho = attempt(lambda: c.density_matrix)
    same(v, before, "the caller's array")
