"""Measurement kernels: selection by the drawn number, collapse and normalization."""
import dwave.gate.simulator.ops as model
from specs.C15 import size_and

real = source("dwave.gate.simulator.ops")


class Draws:
    """A generator that gives one number and counts the draws."""

    def __init__(self, u):
        self.u = u
        self.count = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        expect(low == 0 and high == 1 and size is None, "a number between zero and one is drawn")
        self.count += 1
        return self.u

    def random(self, size=None):
        expect(size is None, "one number is drawn")
        self.count += 1
        return self.u


def measure(n, v, q, rng, le, collapse):
    """The wrapper with its arguments given in one of the ways they can be given."""
    f = real.measurement_computational_basis
    how = choose(0, 1, 2, 3, 4)
    if how == 0:
        return f(n, v, q, rng, little_endian=le, apply_operator=collapse)
    if how == 1:
        return f(n, v, q, rng, le, collapse)
    if how == 2:
        return f(num_qubits=n, state_vector=v, target0=q, rng=rng, little_endian=le, apply_operator=collapse)
    if how == 3:
        assume(le)
        return f(n, v, q, rng, apply_operator=collapse)
    assume(collapse)
    return f(n, v, q, rng, little_endian=le)


def scen_measurement():
    """outcome, number of draws and update of the state"""
    kernels("trace")
    n, qs = size_and("target0")
    v, u = any_array("v"), any_num("u")
    assume(0 <= u)
    assume(u < 1)
    le, collapse = choose(True, False), choose(True, False)
    first = probability(0, n, qs[0], le, v)
    k = 0 if u < first else 1
    p = probability(k, n, qs[0], le, v)
    assume(p > 0)
    rng = Draws(u)
    r = attempt(lambda: measure(n, v, qs[0], rng, le, collapse))
    expect_ok(r, "measuring")
    same(result(r), k, "the outcome")
    same(rng.count, 1, "one number is drawn")
    if collapse:
        same(updates(trace()), updates(collapsed(k, n, qs[0], le, v, p)), "the state is projected on the outcome and normalized")
    else:
        same(trace(), (), "the state is left alone")
