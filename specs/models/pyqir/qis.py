"""Instructions of the quantum instruction set."""
from pyqir import Intrinsic


def emit(builder, name, args):
    builder.call(Intrinsic("__quantum__qis__" + name), args)


def barrier(builder):
    emit(builder, "barrier__body", [])


def swap(builder, qubit1, qubit2):
    emit(builder, "swap__body", [qubit1, qubit2])


def ccx(builder, control1, control2, target):
    emit(builder, "ccx__body", [control1, control2, target])


def cx(builder, control, target):
    emit(builder, "cnot__body", [control, target])


def cz(builder, control, target):
    emit(builder, "cz__body", [control, target])


def h(builder, qubit):
    emit(builder, "h__body", [qubit])


def mz(builder, qubit, result):
    emit(builder, "mz__body", [qubit, result])


def reset(builder, qubit):
    emit(builder, "reset__body", [qubit])


def rx(builder, theta, qubit):
    emit(builder, "rx__body", [theta, qubit])


def ry(builder, theta, qubit):
    emit(builder, "ry__body", [theta, qubit])


def rz(builder, theta, qubit):
    emit(builder, "rz__body", [theta, qubit])


def s(builder, qubit):
    emit(builder, "s__body", [qubit])


def s_adj(builder, qubit):
    emit(builder, "s__adj", [qubit])


def t(builder, qubit):
    emit(builder, "t__body", [qubit])


def t_adj(builder, qubit):
    emit(builder, "t__adj", [qubit])


def x(builder, qubit):
    emit(builder, "x__body", [qubit])


def y(builder, qubit):
    emit(builder, "y__body", [qubit])


def z(builder, qubit):
    emit(builder, "z__body", [qubit])
