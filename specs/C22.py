"""Loading QIR into circuits."""
import pyqir
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit
from dwave.gate.qir.loader import load_qir_string, load_qir_bitcode

GATES = (("id", ops.Identity, 0, 1), ("x", ops.X, 0, 1), ("y", ops.Y, 0, 1), ("z", ops.Z, 0, 1), ("h", ops.Hadamard, 0, 1), ("s", ops.S, 0, 1), ("t", ops.T, 0, 1),
         ("rx", ops.RX, 1, 1), ("ry", ops.RY, 1, 1), ("rz", ops.RZ, 1, 1), ("rot", ops.Rotation, 3, 1), ("cnot", ops.CX, 0, 2), ("cx", ops.CX, 0, 2), ("cy", ops.CY, 0, 2),
         ("cz", ops.CZ, 0, 2), ("swap", ops.SWAP, 0, 2), ("ch", ops.CHadamard, 0, 2), ("crx", ops.CRX, 1, 2), ("cry", ops.CRY, 1, 2), ("crz", ops.CRZ, 1, 2),
         ("crot", ops.CRotation, 3, 2), ("cswap", ops.CSWAP, 0, 3), ("ccnot", ops.CCX, 0, 3))


class Text:
    """the text of a program"""

    def __init__(self, program):
        self.text_of = program


class Bitcode:
    """the bitcode of a program"""

    def __init__(self, program):
        self.bitcode_of = program


class Program:
    """builds the program that is loaded"""

    def __init__(self):
        self.context = pyqir.Context()
        self.module = pyqir.Module(self.context, "p")
        self.builder = pyqir.Builder(self.context)

    def function(self, name="main"):
        self.entry = pyqir.Function(pyqir.FunctionType(pyqir.Type.void(self.context), []), pyqir.Linkage.EXTERNAL, name, self.module)
        self.block("entry")

    def block(self, name):
        self.builder.insert_at_end(pyqir.BasicBlock(self.context, name, parent=self.entry))

    def declare(self, name):
        pyqir.Function(pyqir.FunctionType(pyqir.Type.void(self.context), []), pyqir.Linkage.EXTERNAL, name, self.module)

    def gate(self, name, params, qubits):
        args = [pyqir.const(pyqir.Type.double(self.context), p) for p in params] + [pyqir.qubit(self.context, q) for q in qubits]
        self.call("__quantum__qis__" + name + "__body", args)

    def measure(self, q, b):
        self.call("__quantum__qis__mz__body", [pyqir.qubit(self.context, q), pyqir.result(self.context, b)])

    def call(self, name, args):
        self.builder.call(pyqir.Intrinsic(name), args)

    def load(self, circuit=None):
        """the circuit the program is loaded into, one way or another"""
        t, b = Text(self.module), Bitcode(self.module)
        if circuit is not None:
            return choose(lambda: load_qir_string(t, circuit), lambda: load_qir_bitcode(b, circuit))()
        return choose(lambda: load_qir_string(t), lambda: load_qir_bitcode(b), lambda: Circuit.from_qir(t), lambda: Circuit.from_qir(b, bitcode=True))()


def check(c, start, expected, msg):
    """the operations of c from start on are the expected (class, parameters, positions of qubits[, positions of bits])"""
    n = len(expected)
    expect(len(c.circuit) == start + n, "one operation per call, " + msg)
    for k in range(n):
        op, e = c.circuit[start + k], expected[k]
        expect(type(op) is e[0], "the gate the name stands for, " + msg)
        same([c.qubits.index(q) for q in op.qubits], list(e[2]), "the qubits, " + msg)
        if hasattr(op, "parameters"):
            same([p for p in op.parameters], list(e[1]), "the parameters, " + msg)
        if len(e) > 3:
            same([c.bits.index(b) for b in op.bits], list(e[3]), "the bits, " + msg)
        expect(not condition_of(op), "no condition")


def scen_gates():
    """a call becomes the gate of its name"""
    name, cls, params, qubits = choose(*GATES)
    xs = [any_num("x0"), any_num("x1"), any_num("x2")][:params]
    at = choose((2, 0, 1), (1, 12, 0))[:qubits]
    p = Program()
    p.declare("__quantum__qis__" + name + "__body")
    p.function()
    p.gate(name, xs, at)
    p.builder.ret(None)
    c = expect_ok(attempt(lambda: load_qir_string(Text(p.module))), "loading")
    expect(c.num_qubits == max(at) + 1 and c.num_bits == 0, "as many qubits as needed")
    check(c, 0, [(cls, xs, at)], "of one call")


def scen_order():
    """calls of all blocks and functions in order, up to each return"""
    x, y = any_num("x"), any_num("y")
    p = Program()
    p.declare("__quantum__qis__x__body")
    p.function("a")
    null = pyqir.Constant.null(pyqir.PointerType(pyqir.IntType(p.context, 8)))
    p.call("__quantum__rt__initialize", [null])
    p.gate("h", [], [1])
    p.gate("rx", [x], [0])
    second = choose("one block", "two blocks", "a return between")
    if second == "two blocks":
        p.builder.br(pyqir.BasicBlock(p.context, "unused", parent=pyqir.Function(pyqir.FunctionType(pyqir.Type.void(p.context), []), pyqir.Linkage.EXTERNAL, "other", pyqir.Module(p.context, "q"))))
        p.block("more")
    if second == "a return between":
        p.builder.ret(None)
        if choose(0, 1):
            p.block("more")
    p.gate("cnot", [], [2, 1])
    p.gate("rx", [y], [0])
    p.builder.ret(None)
    expected = [(ops.Hadamard, [], [1]), (ops.RX, [x], [0])]
    if second != "a return between":
        expected += [(ops.CX, [], [2, 1]), (ops.RX, [y], [0])]
    if choose(0, 1):
        p.declare("__quantum__rt__result_record_output")
        p.function("b")
        p.gate("s", [], [4])
        p.gate("x", [], [1])
        if choose(0, 1):
            p.builder.ret(None)
        expected += [(ops.S, [], [4]), (ops.X, [], [1])]
    c = expect_ok(attempt(lambda: p.load()), "loading")
    check(c, 0, expected, "of several calls")
    expect(c.num_qubits == max([q for e in expected for q in e[2]]) + 1, "as many qubits as needed")


def scen_measurements():
    """measurements are added together after the gates, each into its own bit"""
    p = Program()
    p.function()
    ms = choose([(0, 0)], [(1, 0), (0, 1)], [(2, 5), (0, 0)], [(0, 2), (12, 1), (3, 0), (0, 4)], [(1, 11)])
    early = choose(0, 1)
    expected = []
    if early:
        p.measure(*ms[0])
    if choose(0, 1):
        p.gate("z", [], [1])
        expected.append((ops.Z, [], [1]))
    for q, b in ms[early:]:
        p.measure(q, b)
    if choose(0, 1):
        p.call("__quantum__rt__result_record_output", [pyqir.result(p.context, ms[0][1])])
    if choose(0, 1):
        p.builder.ret(None)
        if choose(0, 1):
            p.function("more")
            p.gate("y", [], [0])
            expected.append((ops.Y, [], [0]))
            p.measure(5, 7)
            p.builder.ret(None)
            ms = ms + [(5, 7)]
    c = expect_ok(attempt(lambda: p.load()), "loading")
    qs, bs = [q for q, b in ms], [b for q, b in ms]
    check(c, 0, expected + [(ops.Measurement, None, qs, bs)], "with measurements")
    expect(c.num_qubits == max(qs + [q for e in expected for q in e[2]]) + 1, "as many qubits as needed")
    expect(c.num_bits == max(bs) + 1, "as many bits as needed")


def scen_into():
    """a circuit keeps what it has and grows as needed"""
    c = Circuit(choose(0, 1, 3), choose(0, 2))
    if choose(0, 1):
        c.add_qregister(2)
        c.add_cregister(1)
    n, m = c.num_qubits, c.num_bits
    start = 0
    if n and choose(0, 1):
        with c.context:
            ops.T(c.qubits[0])
        start = 1
    old, bits, first = list(c.qubits), list(c.bits), list(c.circuit)
    p = Program()
    p.function()
    expected = []
    for g in choose([], [("x", ops.X, [0])], [("cnot", ops.CX, [1, 0]), ("h", ops.Hadamard, [6]), ("y", ops.Y, [2])]):
        p.gate(g[0], [], g[2])
        expected.append((g[1], [], g[2]))
    most = max([n] + [q + 1 for e in expected for q in e[2]])
    if choose(0, 1):
        p.measure(1, 4)
        expected.append((ops.Measurement, None, [1], [4]))
        most, m = max(most, 2), max(m, 5)
    p.builder.ret(None)
    r = expect_ok(attempt(lambda: p.load(c)), "loading")
    expect(r is c, "the given circuit")
    expect(c.num_qubits == most and c.num_bits == m, "as many qubits and bits as needed")
    same(list(c.qubits)[:len(old)], old, "the qubits it had, at their places")
    same(list(c.bits)[:len(bits)], bits, "the bits it had, at their places")
    same(list(c.circuit)[:start], first, "the operations it had")
    check(c, start, expected, "into a circuit")


def scen_unknown():
    """an unknown gate is refused"""
    p = Program()
    p.function()
    if choose(0, 1):
        p.gate("x", [], [0])
    p.call(choose("__quantum__qis__banana__body", "__quantum__qis__x__adj", "__quantum__qis__s__adj", "__quantum__qis__cnott__body", "__quantum__qis__out__body", "__quantum__qis__reset__body"), [pyqir.qubit(p.context, 1)])
    p.builder.ret(None)
    expect_raises(attempt(lambda: p.load()), TypeError, "an unknown gate")
