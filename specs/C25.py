"""Equality and hashing of qubits, bits, variables and operations."""
import copy
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, Measurement, Barrier, create_operation
from dwave.gate.primitives import Qubit, Bit, Variable


def yes(condition):
    return True if condition else False


def history(x):
    """what may have happened to an object, its label or value"""
    h = choose("nothing", "label", "set", "reset", "copied")
    if h == "label" and not isinstance(x, Variable):
        x.label = any_value("newlabel")
    if h == "set" and isinstance(x, Bit):
        x.set(any_bool("b"), force=True)
    if h == "set" and isinstance(x, Variable):
        x.set(any_num("v"))
    if h == "reset" and not isinstance(x, Qubit):
        x.reset()
    if h == "copied":
        return copy.deepcopy(x)
    return x


def scen_eq_kind():
    """equal exactly when the identifier (or name) agrees, and then hashed alike"""
    cls = choose(Qubit, Bit, Variable)
    a, b = any_inst(cls, "a"), any_inst(cls, "b")
    key = (lambda x: x.name) if cls is Variable else (lambda x: x.id)
    ka = key(a)
    a, b = history(a), history(b)
    same_strict(key(a), ka, "identity kept")
    r = expect_ok(attempt(lambda: choose(lambda: a == b, lambda: not (a != b))()), "comparing")
    same_strict(r, yes(key(a) == key(b)), "equal exactly when the identifiers agree")
    if key(a) == key(b):
        same_strict(hash(a), hash(b), "equal ones hash alike")


def scen_eq_new():
    """new objects: qubits and bits with any labels, variables by name"""
    x, y = any_str("x"), any_str("y")
    v, w = Variable(x), Variable(y)
    same_strict(v == w, yes(x == y), "variables are equal exactly when their names agree")
    if x == y:
        same_strict(hash(v), hash(w), "equal variables hash alike")
    n = any_int("n")
    expect(Variable(n) == Variable(str(n)), "variable names are strings")
    cls = choose(Qubit, Bit)
    label = any_value("label")
    a = cls(label)
    expect(a == a, "equal to itself")
    same_strict(hash(a), hash(a), "the same hash every time")
    h = hash(a)
    a.label = any_value("other")
    same_strict(hash(a), h, "the hash does not depend on the label")
    if cls is Bit:
        a.set(1)
        same_strict(hash(a), h, "the hash does not depend on the value")


def scen_eq_qubit_other():
    """a qubit is not equal to anything else"""
    a = any_inst(Qubit, "a")
    o = choose(lambda: any_inst(Bit, "b"), lambda: any_inst(Variable, "v"), lambda: any_num("x"), lambda: any_str("s"), lambda: None, lambda: a.id, lambda: ops.X(a), lambda: (a,))()
    same_strict(expect_ok(attempt(lambda: a == o), "comparing"), False, "a qubit and another object")


def scen_eq_value():
    """a bit or variable holding a value equals that value and no other"""
    a = choose(lambda: any_inst(Bit, "b"), lambda: any_inst(Variable, "w"))()
    x = any_num("x")
    if isinstance(a, Bit):
        v = choose(0, 1)
        o = choose(0, 1, 2, -1, True, x, 0.5, "1", None)
    else:
        v = choose(x, 0, 1.5, any_num("y"))
        o = choose(x, 0, 1, 1.5, "x", None)
    expect_ok(attempt(lambda: a.reset()), "reset")
    same_strict(expect_ok(attempt(lambda: a == o), "comparing"), False, "without a value it equals no value")
    if isinstance(a, Bit):
        a.set(v, force=True)
    else:
        a.set(v)
    same_strict(expect_ok(attempt(lambda: a == o), "comparing"), yes(v == o), "equal exactly to its value")
    same_strict(expect_ok(attempt(lambda: o == a), "comparing the other way round"), yes(v == o), "the other way round")


def scen_eq_set():
    """bits and variables in other kinds of comparison"""
    a = choose(lambda: any_inst(Bit, "b"), lambda: any_inst(Variable, "v"))()
    o = choose(lambda: any_inst(Qubit, "q"), lambda: any_inst(Variable, "w"), lambda: any_inst(Bit, "d"), lambda: None)()
    assume(type(a) is not type(o) and a.value is None)
    same_strict(expect_ok(attempt(lambda: a == o), "comparing"), False, "a " + type(a).__name__ + " without value and another kind")


PLAIN = (ops.X, ops.Hadamard, ops.CX, ops.SWAP, ops.CSWAP, Measurement, Barrier)
PARAMETRIC = (ops.RX, ops.RZ, ops.CRX, ops.Rotation, ops.CRotation)


def qubits(cls, name):
    n = 2 if cls is Barrier else 1 if cls is Measurement else cls.num_qubits
    return tuple([any_inst(Qubit, name + str(k)) for k in range(n)])


def make(cls, xs, qs):
    args = [] if not xs else [xs[0]] if len(xs) == 1 else [tuple(xs)]
    if cls in (ops.CX, ops.CRX, ops.CRotation) and qs:
        return cls(*args, *qs)
    return cls(*args, qs) if qs else cls(*args)


def scen_eq_plain():
    """operations without parameters"""
    f, g = choose(*PLAIN), choose(*PLAIN)
    p = qubits(f, "p") if choose(0, 1) else ()
    q = qubits(g, "q") if choose(0, 1) else ()
    a, b = make(f, (), p), make(g, (), q)
    if f is Measurement and p:
        a | any_inst(Bit, "bit")
    if choose(0, 1):
        a.conditional(any_inst(Bit, "cond"))
    r = expect_ok(attempt(lambda: choose(lambda: a == b, lambda: not (a != b))()), "comparing")
    same_strict(r, yes(f is g and p == q), "equal exactly when kind and qubits agree")


def scen_eq_parametric():
    """operations with parameters"""
    f, g = choose(*PARAMETRIC), choose(*PARAMETRIC)
    xs = tuple([choose(any_num("x"), any_inst(Variable, "v"))] + [any_num("x1"), any_num("x2")][:f.num_parameters - 1])
    ys = tuple([choose(any_num("y"), any_inst(Variable, "w"))] + [any_num("y1"), any_num("y2")][:g.num_parameters - 1])
    p = qubits(f, "p") if choose(0, 1) else ()
    q = qubits(g, "q") if choose(0, 1) else ()
    a, b = make(f, xs, p), make(g, ys, q)
    r = expect_ok(attempt(lambda: choose(lambda: a == b, lambda: not (a != b))()), "comparing")
    same_strict(r, yes(f is g and p == q and xs == ys), "equal exactly when kind, qubits and parameters agree")


def scen_eq_mixed():
    """operations with and without parameters"""
    f, g = choose(*PLAIN), choose(*PARAMETRIC)
    a = make(f, (), qubits(f, "p") if choose(0, 1) else ())
    b = make(g, (any_num("x0"), any_num("x1"), any_num("x2"))[:g.num_parameters], qubits(g, "q") if choose(0, 1) else ())
    x, y = choose((a, b), (b, a))
    same_strict(expect_ok(attempt(lambda: x == y), "comparing"), False, "operations of different kinds")


def scen_eq_other():
    """operations and anything else"""
    f = choose(*PLAIN, *PARAMETRIC)
    a = make(f, (any_num("x0"), any_num("x1"), any_num("x2"))[:f.num_parameters] if f in PARAMETRIC else (), qubits(f, "p") if choose(0, 1) else ())
    q = any_inst(Qubit, "q")

    class X:
        pass

    class RX:
        qubits = a.qubits
        parameters = None
    o = choose(lambda: None, lambda: any_num("y"), lambda: any_str("s"), lambda: q, lambda: any_inst(Bit, "b"), lambda: f, lambda: (a,), lambda: X(), lambda: RX(), lambda: any_value("o"))()
    assume(not isinstance(o, Operation))
    x = choose(0, 1)
    r = expect_ok(attempt(lambda: a == o), "comparing with anything else")
    same_strict(r, False, "an operation and something else")


def scen_eq_custom():
    """a custom operation with the name of a built-in one never makes a comparison raise"""
    t = Circuit(1)
    with t.context as regs:
        ops.X(regs.q[0])
    q = any_inst(Qubit, "q")
    Mine = create_operation(t, choose("RX", "X", "Mine"))
    a, b = Mine(q), choose(lambda: ops.RX(any_num("x"), q), lambda: ops.X(q))()
    x, y = choose((a, b), (b, a))
    r = expect_ok(attempt(lambda: x == y), "comparing with a custom operation")
    if Mine.__name__ == "Mine":
        same_strict(r, False, "operations of different kinds")
    same_strict(Mine(q) == a, True, "operations of the same kind")
    p = any_inst(Qubit, "p")
    same_strict(Mine(p) == a, yes(p == q), "operations of the same kind")
