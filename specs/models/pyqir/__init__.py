"""Contract of the PyQIR library: what it builds, as content that the analysed code is compared on.

A module's text, bitcode and verification result are unknown functions of its content: its name and
flags, its functions in order, each with its blocks, each with its instructions in order.
"""
from enum import Enum, auto


class Linkage(Enum):
    APPENDING = auto()
    COMMON = auto()
    EXTERNAL = auto()
    INTERNAL = auto()
    PRIVATE = auto()


class Opcode(Enum):
    ADD = auto()
    BR = auto()
    CALL = auto()
    RET = auto()
    STORE = auto()


class Context:
    pass


class Type:
    def __init__(self, name):
        self.text = name

    @staticmethod
    def void(context):
        return Type("void")

    @staticmethod
    def double(context):
        return Type("double")

    @property
    def is_void(self):
        return self.text == "void"

    @property
    def is_double(self):
        return self.text == "double"

    def __eq__(self, other):
        return isinstance(other, Type) and self.text == other.text


class IntType(Type):
    def __init__(self, context, width):
        self.width = width
        self.text = "i" + str(width)


class StructType(Type):
    def __init__(self, name):
        self.name = name
        self.text = "%" + name


class ArrayType(Type):
    pass


class PointerType(Type):
    def __init__(self, pointee):
        self.pointee = pointee
        self.text = pointee.text + "*"


class FunctionType(Type):
    def __init__(self, ret, params):
        self.ret = ret
        self.params = [p for p in params]
        self.text = ret.text + " (" + ", ".join([p.text for p in self.params]) + ")"


def qubit_type(context):
    return PointerType(StructType("Qubit"))


def result_type(context):
    return PointerType(StructType("Result"))


class Value:
    pass


class Constant(Value):
    @staticmethod
    def null(type):
        return NullConstant(type)


class Reference(Constant):
    """reference to a qubit or result"""

    @property
    def is_null(self):
        return reference_id(self) == 0

    @property
    def type(self):
        return PointerType(StructType(reference_kind(self)))

    def __str__(self):
        kind = reference_kind(self)
        if reference_id(self) == 0:
            return "%" + kind + "* null"
        return "%" + kind + "* inttoptr (i64 " + str(reference_id(self)) + " to %" + kind + "*)"


class NullConstant(Constant):
    def __init__(self, type):
        self._type = type

    @property
    def type(self):
        return self._type

    @property
    def is_null(self):
        return True

    def __str__(self):
        return self._type.text + " null"


class IntConstant(Constant):
    def __init__(self, type, value):
        self._type = type
        self.value = value

    @property
    def type(self):
        return self._type

    @property
    def is_null(self):
        return self.value == 0

    def __str__(self):
        return self._type.text + " " + str(self.value)


class FloatConstant(Constant):
    def __str__(self):
        return "double " + str(self.value)

    def __init__(self, type, value):
        self._type = type
        self.value = value

    @property
    def type(self):
        return self._type

    @property
    def is_null(self):
        return False


def described(value):
    """a value as it stands in a program"""
    if isinstance(value, Reference):
        return value
    if isinstance(value, NullConstant):
        if value.type.text == "%Qubit*":
            return reference("Qubit", 0)
        if value.type.text == "%Result*":
            return reference("Result", 0)
        return (value.type.text, None)
    if isinstance(value, (IntConstant, FloatConstant)):
        return (value.type.text, value.value)
    if isinstance(value, Function):
        return ("function", value.name)
    return value


class Parameter(Value):
    def __init__(self, type):
        self.type = type
        self.name = ""


def const(type, value):
    if type.is_double:
        return FloatConstant(type, value)
    return IntConstant(type, value)


def qubit(context, id):
    return reference("Qubit", id)


def result(context, id):
    return reference("Result", id)


def qubit_id(value):
    if isinstance(value, Reference) and value.type.text == "%Qubit*":
        return reference_id(value)
    return None


def result_id(value):
    if isinstance(value, Reference) and value.type.text == "%Result*":
        return reference_id(value)
    return None


def is_qubit_type(type):
    return type.text == "%Qubit*"


def is_result_type(type):
    return type.text == "%Result*"


class Module:
    def __init__(self, context, name):
        self.context = context
        self.source_filename = name
        self.flags = ()
        self.functions = []

    @staticmethod
    def from_ir(context, ir, name=""):
        return ir.text_of

    @staticmethod
    def from_bitcode(context, bitcode, name=""):
        return bitcode.bitcode_of

    def verify(self):
        return llvm("error", self.content())

    @property
    def bitcode(self):
        return llvm("bitcode", self.content())

    def __str__(self):
        return llvm("text", self.content())

    def content(self):
        return (self.source_filename, self.flags, tuple([f.content() for f in self.functions]))


def qir_module(context, name, qir_major_version=1, qir_minor_version=0, dynamic_qubit_management=False, dynamic_result_management=False):
    m = Module(context, name)
    m.flags = (qir_major_version, qir_minor_version, dynamic_qubit_management, dynamic_result_management)
    return m


class Function(Constant):
    def __init__(self, type, linkage, name, module):
        self._type = type
        self.linkage = linkage
        self.name = name
        self.params = [Parameter(t) for t in type.params]
        self.basic_blocks = []
        self.required = None
        module.functions.append(self)

    @property
    def type(self):
        return self._type

    @property
    def is_null(self):
        return False

    def content(self):
        if self.required is None:
            return ("declare", self.name, self._type.text)
        return ("entry", self.name, self.required, tuple([b.content() for b in self.basic_blocks]))


def entry_point(module, name, required_num_qubits, required_num_results):
    f = Function(FunctionType(Type("void"), []), Linkage.EXTERNAL, name, module)
    f.required = (required_num_qubits, required_num_results)
    return f


def is_entry_point(function):
    return function.required is not None


def required_num_qubits(function):
    return None if function.required is None else function.required[0]


def required_num_results(function):
    return None if function.required is None else function.required[1]


class Instruction(Value):
    opcode = None

    def __init__(self, block):
        self.block = block
        block.instructions.append(self)

    def erase(self):
        block = self.block
        self.block = None
        block.instructions.remove(self)


class Ret(Instruction):
    opcode = Opcode.RET

    def __init__(self, block, value):
        super().__init__(block)
        self.value = value

    def content(self):
        return ("ret", described(self.value))


class Branch(Instruction):
    opcode = Opcode.BR

    def __init__(self, block, dest):
        super().__init__(block)
        self.dest = dest

    def content(self):
        return ("br", self.dest.name)


class Call(Instruction):
    opcode = Opcode.CALL

    def __init__(self, block, callee, args):
        super().__init__(block)
        self.callee = callee
        self.args = [a for a in args]

    def content(self):
        return ("call", self.callee.name, tuple([described(a) for a in self.args]))


class Intrinsic(Constant):
    def __init__(self, name):
        self.name = name


class BasicBlock(Value):
    def __init__(self, context, name, parent=None, before=None):
        self.name = name
        self.instructions = []
        parent.basic_blocks.append(self)

    def content(self):
        return (self.name, tuple([i.content() for i in self.instructions]))


class Builder:
    def __init__(self, context):
        self.block = None

    def insert_at_end(self, block):
        self.block = block

    def br(self, dest):
        return Branch(self.block, dest)

    def ret(self, value):
        return Ret(self.block, value)

    def call(self, callee, args):
        Call(self.block, callee, args)
        return None


import pyqir.qis
import pyqir.rt
