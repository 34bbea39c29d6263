"""Measurements."""
import math
import numpy as np
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitError
from dwave.gate.primitives import Bit, Qubit
from dwave.gate.registers.registers import ClassicalRegister
from dwave.gate.simulator.simulator import simulate, sample_qubit


def rx(x):
    return [[math.cos(x / 2), -1j * math.sin(x / 2)], [-1j * math.sin(x / 2), math.cos(x / 2)]]


def product(us):
    """the state of qubits rotated from zero, the first qubit leading"""
    v = [1]
    for u in us:
        v = [a * u[b][0] for a in v for b in range(2)]
    return v


def prepared(n, bits):
    """a circuit whose qubits were all rotated by their own angle, its state and its registers"""
    c = Circuit(n, bits)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")]
    return c, xs[:n], product([rx(x) for x in xs[:n]])


def scen_outcomes():
    """each measured qubit is sampled and collapsed once, in order, into the bit at its position"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    picked = choose((0,), (2,), (1, 0), (0, 2), (2, 0, 1), (0, 1, 2))
    order = choose(0, 1)
    c, xs, vec = prepared(3, 3)
    with c.context as regs:
        for k in range(3):
            ops.RX(xs[k], regs.q[k])
        m = ops.Measurement(tuple(regs.q[k] for k in picked))
        bits = [regs.c[k] for k in range(len(picked))]
        if order:
            bits = [regs.c[2 - k] for k in range(len(picked))]
        expect((m | tuple(bits)) is m, "assigning bits returns the measurement")
    for j in range(choose(0, 1, 2)):
        c.bits[j].set(choose(0, 1))
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    state, rng = np.array(vec), first_rng(seed)
    same_array(m.state, np.array(vec), "the kept state")
    outs = [sample_qubit(k, state, rng) for k in picked]
    for j in range(len(picked)):
        same(bits[j].value, outs[j], "the outcome in the bit at the same position")
    same_array(c.state, state, "the state after measuring")
    expect(m.state is not c.state, "the kept state is private")
    s = m.sample()
    expect(len(s) == 1 and len(s[0]) == len(picked), "one outcome for every measured qubit")
    state, rng = np.array(vec), first_rng(None)
    outs = [sample_qubit(k, state, rng) for k in picked]
    for j in range(len(picked)):
        same(s[0][j], outs[j], "sampling measures the qubits that were measured, in order")


def scen_whole_register():
    """measuring a register into a register"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(2, choose(2, 3))
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        ops.RX(xs[1], regs.q[1])
        m = ops.Measurement(regs.q) | (regs.c if choose(True, False) else list(c.cregisters.values())[0])
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    state, rng = np.array(vec), first_rng(seed)
    outs = [sample_qubit(k, state, rng) for k in range(2)]
    for j in range(2):
        same(c.bits[j].value, outs[j], "the outcome in the bit at the same position")
    if len(c.bits) == 3:
        expect(c.bits[2].value is None, "the other bit is left alone")


def scen_private_copy():
    """what happens after the measurement does not reach the kept state, and the other way round"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(2, 1)
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        ops.RX(xs[1], regs.q[1])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
        ops.X(regs.q[0])
        m2 = ops.Measurement(regs.q[0]) | regs.c[0]
        ops.CX(regs.q[0], regs.q[1])
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    state, rng = np.array(vec), first_rng(seed)
    same_array(m.state, np.array(vec), "the kept state")
    sample_qubit(1, state, rng)
    flipped = np.array([state[2], state[3], state[0], state[1]])
    same_array(m2.state, flipped, "the second kept state")
    out = sample_qubit(0, flipped, rng)
    same(c.bits[0].value, out, "the last outcome stays in the bit")
    before = freeze_value(c.state)
    m.sample(num_samples=choose(1, 2))
    m2.sample([0, 1])
    same_array(m.state, np.array(vec), "the kept state after sampling")
    same(freeze_value(c.state), before, "the circuit's state after sampling")
    same(c.bits[0].value, out, "the bit after sampling")


def scen_no_bits():
    """without bits there is a warning, and the qubits are still remembered"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(2, choose(0, 1))
    picked = choose((0,), (1,), (1, 0))
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        ops.RX(xs[1], regs.q[1])
        m = ops.Measurement(tuple(regs.q[k] for k in picked))
    expect(m.bits is None, "no bits are assigned")
    watch_warnings()
    r = attempt(lambda: simulate(c, rng_seed=seed))
    expect_ok(r, "simulating a measurement without bits")
    expect(warned(), "there is no warning that the outcomes are not stored")
    state, rng = np.array(vec), first_rng(seed)
    for k in picked:
        sample_qubit(k, state, rng)
    same_array(c.state, state, "the state after measuring")
    same_array(m.state, np.array(vec), "the kept state")
    s = m.sample()
    expect(len(s) == 1 and len(s[0]) == len(picked), "one outcome for every measured qubit")
    for b in c.bits:
        expect(b.value is None, "no bit is set")


def scen_simulated_again():
    """simulating again starts over"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(2, 2)
    picked = choose((0,), (1, 0))
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        ops.RX(xs[1], regs.q[1])
        m = ops.Measurement(tuple(regs.q[k] for k in picked)) | regs.c
    for _ in range(choose(2, 3)):
        expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    same_array(m.state, np.array(vec), "the kept state")
    s = m.sample()
    expect(len(s) == 1 and len(s[0]) == len(picked), "one outcome for every measured qubit")
    state, rng = np.array(vec), first_rng(None)
    outs = [sample_qubit(k, state, rng) for k in picked]
    for j in range(len(picked)):
        same(s[0][j], outs[j], "sampling measures the qubits that were measured, in order")


def scen_simulated_after_change():
    """simulating again after the circuit was changed keeps the new state"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(2, 2)
    picked = choose((0,), (1, 0))
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        ops.RX(xs[1], regs.q[1])
        m = ops.Measurement(tuple(regs.q[k] for k in picked)) | regs.c
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    how = choose("insert", "remove", "again")
    if how == "again":
        c.reset()
        with c.context as regs:
            ops.RX(xs[0], regs.q[0])
            ops.X(regs.q[0])
            m(tuple(regs.q[k] for k in picked)) | regs.c
        m = c.circuit[2]
        vec = product([[rx(xs[0])[1], rx(xs[0])[0]], [[1], [0]]])
    elif how == "insert":
        c.circuit.insert(2, ops.X(c.qubits[1]))
        vec = [vec[1], vec[0], vec[3], vec[2]]
    else:
        del c.circuit[1]
        vec = [rx(xs[0])[0][0], 0, rx(xs[0])[1][0], 0]
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate again")
    same_array(m.state, np.array(vec), "the kept state")
    state, rng = np.array(vec), first_rng(seed)
    outs = [sample_qubit(k, state, rng) for k in picked]
    for j in range(len(picked)):
        same(c.bits[j].value, outs[j], "the outcome in the bit at the same position")
    state, rng = np.array(vec), first_rng(None)
    outs = [sample_qubit(k, state, rng) for k in picked]
    s = m.sample()
    for j in range(len(picked)):
        same(s[0][j], outs[j], "sampling uses the new state")


def scen_assign_bits():
    """the first as many bits as there are qubits are kept, in order"""
    n, k = any_int("n", 1), any_int("k", 0)
    qubits = any_seq(Qubit, "qs", True)
    bits = any_seq(Bit, "bs", True)
    assume(len(qubits) > 0)
    m = ops.Measurement(qubits)
    shape = choose("list", "tuple", "register")
    given = bits if shape == "list" else tuple(bits) if shape == "tuple" else ClassicalRegister(bits)
    r = attempt(lambda: m | given)
    if len(bits) < len(qubits):
        expect_raises(r, ValueError, "too few bits")
        expect(m.bits is None, "a refused assignment changes nothing")
    else:
        expect_ok(r, "assigning bits")
        same_object(result(r), m, "assigning bits returns the measurement")
        same(list(m.bits), [bits[i] for i in range(len(qubits))], "the bits assigned")


def scen_assign_one_bit():
    """one bit for one qubit"""
    m = ops.Measurement(any_inst(Qubit, "q") if choose(True, False) else any_seq(Qubit, "qs", True))
    assume(m.num_qubits > 0)
    b = any_inst(Bit, "b")
    r = attempt(lambda: m | b)
    if m.num_qubits > 1:
        expect_raises(r, ValueError, "too few bits")
    else:
        expect_ok(r, "assigning a bit")
        same(list(m.bits), [b], "the bit assigned")
        b2 = any_inst(Bit, "b2")
        m | b2
        same(list(m.bits), [b2], "a later assignment replaces it")


def scen_sampling():
    """every sample is drawn from a fresh copy of the kept state"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(3, 1)
    with c.context as regs:
        for k in range(3):
            ops.RX(xs[k], regs.q[k])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    picked = choose(None, [0], [2, 1], [0, 1, 2], (2, 0))
    count = choose(1, 2, 3)
    kind = choose("list", "string")
    if kind == "list":
        s = m.sample(picked, count)
    else:
        s = m.sample(picked, count, as_bitstring=True)
    rng = first_rng(None)
    expect(len(s) == count, "as many samples as requested")
    for i in range(count):
        state = np.array(vec)
        outs = [sample_qubit(k, state, rng) for k in ([1] if picked is None else picked)]
        if kind == "list":
            expect(len(s[i]) == len(outs), "one outcome per qubit")
            for j in range(len(outs)):
                same(s[i][j], outs[j], "the outcome of each requested qubit")
        else:
            same(s[i], "".join([str(o) for o in outs]), "the outcomes as a string")
    same_array(m.state, np.array(vec), "the kept state after sampling")


def scen_refused():
    """sampling needs a simulated state and qubits inside it"""
    kernels("content")
    seed = any_value("seed")
    assume(seed is not None)
    c, xs, vec = prepared(2, 1)
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
    q = any_int("q")
    ask = choose(None, [0], [1, 0])
    expect_raises(attempt(lambda: m.sample(ask)), CircuitError, "sampling before simulating")
    expect_raises(attempt(lambda: m.expval(ask)), CircuitError, "expectation before simulating")
    expect_ok(attempt(lambda: simulate(c, rng_seed=seed)), "simulate")
    where = choose(0, 1)
    r = attempt(lambda: m.sample([q, 0] if where == 0 else [1, q], choose(1, 2)))
    if q < 0 or q >= 2:
        expect_raises(r, ValueError, OverflowError, "sampling a qubit outside the state")
    else:
        expect_ok(r, "sampling a qubit of the state")
    same_array(m.state, np.array(product([rx(xs[0]), [[1], [0]]])), "the kept state")


def scen_nothing_asked():
    """an empty selection never samples other qubits"""
    kernels("content")
    c, xs, vec = prepared(2, 1)
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
    expect_ok(attempt(lambda: simulate(c)), "simulate")
    r = attempt(lambda: m.sample(choose([], ()), choose(1, 2)))
    if not raised(r):
        expect(all([len(s) == 0 for s in result(r)]), "no outcomes without qubits")
    same_array(m.state, np.array(product([rx(xs[0]), [[1], [0]]])), "the kept state")


def scen_any_sampling():
    """any number of samples of any qubits"""
    kernels("trace")
    c = Circuit(2, 1)
    with c.context as regs:
        ops.X(regs.q[0])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
    simulate(c)
    k = any_int("k", 0)
    qubits = choose([1], [0, 1], [1, 0, 1])
    r = attempt(lambda: traced(lambda: m.sample(qubits, k)))

    def reference():
        rng = np.random.default_rng()
        for _ in range(k):
            state = m.state.copy()
            for q in qubits:
                sample_qubit(q, state, rng)

    expect_ok(r, "sampling")
    same(result(r), traced(reference), "the draws made")


def scen_blocked():
    """a blocked measurement measures nothing"""
    kernels("content")
    c, xs, vec = prepared(2, 2)
    with c.context as regs:
        ops.RX(xs[0], regs.q[0])
        ops.RX(xs[1], regs.q[1])
        m = ops.Measurement(regs.q[1]) | regs.c[0]
        m.conditional(regs.c[1])
    c.bits[1].set(0)
    expect_ok(attempt(lambda: simulate(c)), "simulate")
    same_array(c.state, np.array(vec), "the state")
    expect(c.bits[0].value is None, "the bit is left alone")
    expect(m.state is None, "nothing is kept")


def scen_outside():
    """a qubit outside the state is neither sampled nor is the state touched"""
    kernels("content")
    q, x = any_int("q"), any_num("x")
    assume(isinstance(x, float))
    n = choose(1, 2)
    assume(q < 0 or q >= n)
    state = np.zeros(2 ** n, dtype=np.complex128)
    state[1] = 1
    rng = np.random.default_rng(7)
    little, collapse = choose(False, True), choose(False, True)
    r = attempt(lambda: sample_qubit(q, state, rng, collapse_state=collapse, little_endian=little))
    expect_raises(r, ValueError, OverflowError, "sampling a qubit outside the state")
    want = np.zeros(2 ** n, dtype=np.complex128)
    want[1] = 1
    same_array(state, want, "the state")
