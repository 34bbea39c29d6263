"""Conditional operations."""
import copy
import math
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit
from dwave.gate.operations.base import Measurement, Barrier
from dwave.gate.primitives import Qubit, Bit
from dwave.gate.simulator.simulator import simulate, sample_qubit


def an_operation():
    q, p = any_inst(Qubit, "q"), any_inst(Qubit, "p")
    return choose(lambda: ops.X(q), lambda: ops.RX(any_num("x"), q), lambda: ops.CX(q, p), lambda: ops.SWAP((q, p)), lambda: ops.CRX(any_num("x"), q, p),
                  lambda: Measurement(q), lambda: Barrier((q, p)), lambda: ops.X(), lambda: any_inst(ops.X, "old"))()


def zero(b):
    return b.value is not None and b.value == 0


def yes(condition):
    return True if condition else False


def scen_one():
    """one bit"""
    op, b = an_operation(), any_inst(Bit, "b")
    q = op.qubits
    r = expect_ok(attempt(lambda: op.conditional(b)), "conditional")
    same_object(r, op, "the same operation is returned")
    same_strict(yes(op.is_blocked), yes(zero(b)), "blocked exactly when the bit is zero")
    same_strict(op.qubits, q, "the qubits")
    same_strict(tuple(condition_of(op)), (b,), "the attached bits")


def scen_several():
    """several bits"""
    op = an_operation()
    bs = [any_inst(Bit, "a"), any_inst(Bit, "b"), any_inst(Bit, "d")][:choose(1, 2, 3)]
    r = expect_ok(attempt(lambda: op.conditional(choose(list, tuple)(bs))), "conditional")
    same_object(r, op, "the same operation is returned")
    same_strict(yes(op.is_blocked), yes(any([zero(b) for b in bs])), "blocked exactly when some bit is zero")
    same_strict(tuple(condition_of(op)), tuple(bs), "the attached bits")


def scen_any_number():
    """any number of bits"""
    op = an_operation()
    bs = any_seq(Bit, "bs")
    r = expect_ok(attempt(lambda: op.conditional(bs)), "conditional")
    same_object(r, op, "the same operation is returned")
    same_strict(yes(op.is_blocked), yes(any([b.value is not None and b.value == 0 for b in bs])), "blocked exactly when some bit is zero")
    same_strict([b for b in condition_of(op)], [b for b in bs], "the attached bits")


def scen_register():
    """the bits of a circuit's register"""
    c = any_circuit("c", Circuit)
    r = c.cregisters[any_index(c.cregisters, "r")] if choose(0, 1) else c.bits
    op = an_operation()
    expect_ok(attempt(lambda: op.conditional(r)), "conditional")
    same_strict([b for b in condition_of(op)], [b for b in r], "the attached bits")


def scen_unconditional():
    """an operation without conditions is never blocked"""
    op = an_operation()
    if choose(0, 1):
        op.conditional(choose((), []))
    else:
        assume(not condition_of(op))
    same_strict(yes(op.is_blocked), False, "an operation without conditions")


def scen_later():
    """the bits' values at the time of asking count"""
    op = choose(lambda: ops.X(any_inst(Qubit, "q")), lambda: ops.RX(any_num("x"), any_inst(Qubit, "q")))()
    a, b = Bit("a"), Bit("b")
    op.conditional(choose((a, b), [b, a]))
    same_strict(yes(op.is_blocked), False, "no value yet")
    v, w = any_bool("v"), any_bool("w")
    a.set(v)
    same_strict(yes(op.is_blocked), yes(not v), "after the first value")
    b.set(w)
    same_strict(yes(op.is_blocked), yes(not v or not w), "after both values")
    a.reset()
    same_strict(yes(op.is_blocked), yes(not w), "after resetting the first bit")
    b.set(1, force=True)
    same_strict(yes(op.is_blocked), False, "after setting the second bit")
    a.set(0)
    same_strict(yes(op.is_blocked), True, "after setting the first bit again")


def scen_attached():
    """the attached bits are those that were given, whatever becomes of the list"""
    op = choose(lambda: ops.X(any_inst(Qubit, "q")), lambda: ops.RX(any_num("x"), any_inst(Qubit, "q")))()
    a, b = Bit("a"), Bit("b")
    bits = [a]
    op.conditional(bits)
    if choose(0, 1):
        bits.append(b)
    else:
        bits.clear()
    same_strict(tuple(condition_of(op)), (a,), "the attached bits")
    a.set(any_bool("v"))
    b.set(any_bool("w"))
    same_strict(yes(op.is_blocked), yes(zero(a)), "blocked exactly when the bit is zero")


def scen_again():
    """conditioning again replaces the bits"""
    op = ops.X(any_inst(Qubit, "q"))
    a, b = any_inst(Bit, "a"), any_inst(Bit, "b")
    op.conditional(a)
    op.conditional((b,))
    same_strict(tuple(condition_of(op)), (b,), "the attached bits")


def scen_recorded():
    """in a context the recorded operation is conditioned, and others are not"""
    c = any_circuit("c", Circuit)
    assume(not c.is_locked())
    q, b = any_inst(Qubit, "q"), any_inst(Bit, "b")
    assume(q in c.qubits and b in c.bits)
    with c.context:
        x = ops.X(q)
        y = ops.X(q).conditional(b)
        z = ops.X(q)
    same_object(c.circuit[-2], y, "the recorded operation")
    same_strict(tuple(condition_of(c.circuit[-2])), (b,), "the attached bits")
    expect(not condition_of(c.circuit[-1]) and not condition_of(c.circuit[-3]), "other operations have no conditions")
    same_strict(yes(c.circuit[-2].is_blocked), yes(zero(b)), "blocked exactly when the bit is zero")
    expect(not c.circuit[-1].is_blocked and not c.circuit[-3].is_blocked, "other operations are not blocked")


def scen_simulated():
    """the simulator skips an operation exactly when a bit is zero as it comes to the operation"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c = Circuit(2, 2)
    x = any_num("x")
    second = choose(0, 1, None)
    with c.context as regs:
        ops.RX(x, regs.q[0])
        ops.Measurement(regs.q[0]) | regs.c[0]
        ops.X(regs.q[1]).conditional(regs.c[0] if second is None else regs.c)
    if second is not None:
        c.bits[1].set(second)
    if choose(True, False):
        c.bits[0].set(choose(0, 1))
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    state = np.array([math.cos(x / 2), 0, -1j * math.sin(x / 2), 0])
    m = sample_qubit(0, state, first_rng(seed))
    same(c.bits[0].value, m, "the stored outcome")
    vec = [state[0], state[1], state[2], state[3]]
    if m != 0 and second != 0:
        vec = [vec[1], vec[0], vec[3], vec[2]]
    same_array(c.state, np.array(vec), "the state")


def scen_simulated_unset():
    """a bit that is never set blocks nothing, in a pure and in a mixed simulation"""
    kernels("content")
    c = Circuit(1, 1)
    x = any_num("x")
    with c.context as regs:
        ops.RX(x, regs.q[0])
        ops.X(regs.q[0]).conditional(regs.c[0])
    v = choose(None, 0, 1)
    if v is not None:
        c.bits[0].set(v)
    mixed = choose(False, True)
    expect_ok(attempt(lambda: simulate(c, mixed_state=mixed)), "simulate")
    vec = [math.cos(x / 2), -1j * math.sin(x / 2)]
    if v != 0:
        vec = [vec[1], vec[0]]
    if mixed:
        same_array(c.density_matrix, np.outer(np.array(vec), np.conj(np.array(vec))), "the density matrix")
    else:
        same_array(c.state, np.array(vec), "the state")


def scen_bit():
    """a bit's value is the truth of what it was set to, and is kept unless forced"""
    b = Bit(any_value("label"))
    expect(b.value is None, "a new bit has no value")
    v = choose(any_bool("v"), any_int("n"), any_num("x"))
    expect_ok(attempt(lambda: b.set(v)), "set")
    same(b.value, 1 if v else 0, "the value")
    w = any_bool("w")
    expect_raises(attempt(lambda: b.set(w)), ValueError, "setting twice")
    same(b.value, 1 if v else 0, "the value is kept")
    expect_ok(attempt(lambda: b.set(w, force=True)), "forcing")
    same(b.value, 1 if w else 0, "the value")
    b.reset()
    expect(b.value is None, "reset")
