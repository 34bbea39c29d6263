"""Instructions of the QIR run time."""
from pyqir import Intrinsic


def array_record_output(builder, num_elements, label):
    builder.call(Intrinsic("__quantum__rt__array_record_output"), [num_elements, label])


def initialize(builder, data):
    builder.call(Intrinsic("__quantum__rt__initialize"), [data])


def result_record_output(builder, result, label):
    builder.call(Intrinsic("__quantum__rt__result_record_output"), [result, label])


def tuple_record_output(builder, num_elements, label):
    builder.call(Intrinsic("__quantum__rt__tuple_record_output"), [num_elements, label])
