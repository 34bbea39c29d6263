"""Mixed properties."""
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, ControlledOperation, create_operation
from dwave.gate.primitives import Qubit

mixedproperty = source("dwave.gate.mixedproperty").mixedproperty


class Thing:
    a = "class a"


class Sub(Thing):
    pass


def one(cls):
    return ("one", cls)


def two(cls, self):
    return ("two", cls, self)


def defaulted(cls, self=None):
    return ("defaulted", cls, self)


def raising(cls, self):
    raise KeyError("x")


def an_instance():
    """a true or a false object"""
    return choose(lambda: Thing(), lambda: Sub(), lambda: any_value("obj"), lambda: (), lambda: 0)()


def made(f, required):
    """all ways of making one"""
    if required:
        return mixedproperty(self_required=True)(f)
    return choose(lambda: mixedproperty(f), lambda: mixedproperty()(f), lambda: mixedproperty(self_required=False)(f), lambda: mixedproperty(f, self_required=False))()


def scen_class_only():
    """a function of the class alone is called with the class, on both paths"""
    p = made(one, choose(True, False))
    cls = choose(Thing, Sub)
    same_strict(expect_ok(attempt(lambda: p.__get__(None, cls)), "read on the class"), ("one", cls), "on the class")
    x = an_instance()
    assume(x is not None)
    same_strict(expect_ok(attempt(lambda: p.__get__(x, cls)), "read on an instance"), ("one", cls), "on an instance")


def scen_both():
    """a function of both is called with the class and with the instance or nothing"""
    f = choose(two, defaulted)
    p = made(f, False)
    cls = choose(Thing, Sub)
    same_strict(expect_ok(attempt(lambda: p.__get__(None, cls)), "read on the class"), (f.__name__, cls, None), "on the class")
    x = an_instance()
    r = expect_ok(attempt(lambda: p.__get__(x, cls)), "read on an instance")
    same_strict(r[:2], (f.__name__, cls), "on an instance")
    same_object(r[2], x, "the instance")


def scen_required():
    """one that requires an instance is nothing on the class"""
    p = made(choose(two, defaulted, raising), True)
    same_strict(expect_ok(attempt(lambda: p.__get__(None, Thing)), "read on the class"), None, "on the class")
    f = choose(two, defaulted)
    q = made(f, True)
    x = an_instance()
    assume(x is not None)
    r = expect_ok(attempt(lambda: q.__get__(x, Thing)), "read on an instance")
    same_strict(r[:2], (f.__name__, Thing), "on an instance")
    same_object(r[2], x, "the instance")


def scen_errors():
    """what the function raises is raised"""
    p = made(raising, False)
    expect_raises(attempt(lambda: p.__get__(choose(None, Thing()), Thing)), KeyError, "a raising function")


def scen_set():
    """it cannot be assigned"""
    p = made(choose(one, two), choose(True, False))
    expect_raises(attempt(lambda: p.__set__(an_instance(), any_value("v"))), AttributeError, "assigning")


def scen_two_properties():
    """each property calls its own function"""
    p, q = mixedproperty(one), mixedproperty(self_required=True)(two)
    x = Thing()
    same_strict(q.__get__(x, Thing), ("two", Thing, x), "the second")
    same_strict(p.__get__(x, Thing), ("one", Thing), "the first")
    same_strict(q.__get__(None, Thing), None, "the second on the class")


GATES = (ops.X, ops.Hadamard, ops.SWAP, ops.CX, ops.CCX, ops.RX, ops.CRX, ops.Rotation)


def an_operation(cls):
    n = cls.num_qubits
    qs = tuple([any_inst(Qubit, "q" + str(k)) for k in range(n)])
    args = () if not issubclass(cls, ParametricOperation) else (0.5,) if cls.num_parameters == 1 else ((0.1, 0.2, 0.3),)
    if issubclass(cls, ControlledOperation) and cls is not ops.CCX:
        return cls(*args, *qs)
    return cls(*args, qs)


def scen_matrix_locked():
    """the matrix of an operation class or operation cannot be assigned"""
    cls = choose(*GATES, Operation, ParametricOperation)
    expect_raises(attempt(lambda: setattr(cls, "matrix", any_value("v"))), ValueError, "assigning a class's matrix")

    class Mine(Operation):
        _num_qubits = 1
    expect_raises(attempt(lambda: setattr(Mine, "matrix", any_value("v"))), ValueError, "assigning a derived class's matrix")
    t = Circuit(1)
    with t.context as regs:
        ops.X(regs.q[0])
    Custom = create_operation(t)
    expect_raises(attempt(lambda: setattr(Custom, "matrix", any_value("v"))), ValueError, "assigning a custom class's matrix")
    op = an_operation(choose(*GATES))
    expect_raises(attempt(lambda: setattr(op, "matrix", any_value("v"))), AttributeError, "assigning an operation's matrix")


def scen_other_attributes():
    """other class attributes can be set"""
    class Mine(Operation):
        _num_qubits = 1
        note = 1
    cls = choose(Mine, ops.X)
    v = any_value("v")
    name = choose("note", "matrices", "_matrix_", "something")
    expect_ok(attempt(lambda: setattr(cls, name, v)), "setting another attribute")
    same_strict(getattr(cls, name), v, "its value")
    op = cls(any_inst(Qubit, "q"))
    same_strict(getattr(op, name), v, "its value on an instance")


def scen_agree():
    """what does not depend on the instance is the same on class and instance"""
    cls = choose(ops.X, ops.Hadamard, ops.SWAP, ops.CX, ops.CCX, ops.RX, ops.CRX, ops.Rotation)
    op = an_operation(cls)
    same_strict(op.num_qubits, cls.num_qubits, "number of qubits")
    expect(op.name.startswith(cls.name), "name")
    if hasattr(cls, "num_parameters"):
        same_strict(op.num_parameters, cls.num_parameters, "number of parameters")
        expect(cls.matrix is None, "the matrix of a parametric class")
        expect(op.matrix is not None, "the matrix of a parametric operation")
    else:
        same_array(op.matrix, cls.matrix, "matrix")
