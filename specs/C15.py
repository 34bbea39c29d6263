"""Gate kernels: every wrapper applies the gate to the addressed qubits, whatever the sizes."""
import dwave.gate.simulator.ops as model
from dwave.gate.simulator.ops import single_qubit, apply_gate_control, apply_gate_two_control, apply_swap, apply_cswap


real = source("dwave.gate.simulator.ops")


def size_and(*names):
    """A number of qubits and as many distinct qubits below it."""
    n = any_int("n", 1)
    qs = [any_int(x, 0) for x in names]
    for i in range(len(qs)):
        assume(qs[i] < n)
        for j in range(i):
            assume(qs[i] != qs[j])
    return n, qs


def agree(f, g, n, qs, names, msg):
    """The generated wrapper f does what the kernel g is specified to do."""
    v, m = any_array("v"), any_array("m")
    how = choose(0, 1, 2, 3)
    if how == 0:
        le = choose(True, False)
        got = traced(lambda: f(n, v, m, *qs, little_endian=le))
        want = traced(lambda: g(n, v, m, *qs, little_endian=le))
    elif how == 1:
        got = traced(lambda: f(n, v, m, *qs))
        want = traced(lambda: g(n, v, m, *qs))
    elif how == 2:
        le = choose(True, False)
        got = traced(lambda: f(n, v, m, *qs, le))
        want = traced(lambda: g(n, v, m, *qs, le))
    else:
        le = choose(True, False)
        kw = {names[i]: qs[i] for i in range(len(qs))}
        got = traced(lambda: f(num_qubits=n, state_vector=v, gate_matrix=m, little_endian=le, **kw))
        want = traced(lambda: g(n, v, m, *qs, little_endian=le))
    same(len(got), 1, "one update of the state")
    same(updates(got), updates(want), msg)


def scen_single_qubit():
    """one-qubit gate"""
    kernels("trace")
    n, qs = size_and("target0")
    agree(real.single_qubit, single_qubit, n, qs, ["target0"], "a gate on one qubit")


def scen_controlled():
    """one-qubit gate with one control"""
    kernels("trace")
    n, qs = size_and("target0", "control0")
    agree(real.apply_gate_control, apply_gate_control, n, qs, ["target0", "control0"], "a controlled gate")


def scen_doubly_controlled():
    """one-qubit gate with two controls"""
    kernels("trace")
    n, qs = size_and("target0", "control0", "control1")
    agree(real.apply_gate_two_control, apply_gate_two_control, n, qs, ["target0", "control0", "control1"], "a doubly controlled gate")


def scen_swap():
    """swap"""
    kernels("trace")
    n, qs = size_and("target0", "target1")
    agree(real.apply_swap, apply_swap, n, qs, ["target0", "target1"], "a swap")


def scen_controlled_swap():
    """controlled swap"""
    kernels("trace")
    n, qs = size_and("target0", "target1", "control0")
    agree(real.apply_cswap, apply_cswap, n, qs, ["target0", "target1", "control0"], "a controlled swap")
