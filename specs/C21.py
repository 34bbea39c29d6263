"""QIR modules through compile, reset and recompile."""
import pyqir
from dwave.gate.qir.compiler import BaseModule, CompileError
from dwave.gate.qir.instructions import Instruction, InstrType


def flow(content):
    """the flags, what the entry point needs, the instructions in order of execution, and the declarations"""
    name, flags, functions = content
    entries = [f for f in functions if f[0] == "entry"]
    expect(len(entries) == 1, "one entry point")
    tag, fname, required, blocks = entries[0]
    instrs = []
    here = blocks[0][0]
    for k in range(len(blocks)):
        expect(blocks[k][0] == here, "blocks follow each other")
        body = list(blocks[k][1])
        last = body.pop()
        for i in body:
            if i[1] == "__quantum__rt__result_record_output":
                instrs.append(("output", i[2][0]))
            elif i[1] != "__quantum__rt__initialize":
                instrs.append(i)
        if k + 1 < len(blocks):
            expect(last[0] == "br", "each block goes on to the next one")
            here = last[1]
        else:
            expect(last[0] == "ret", "the last block returns")
            instrs.append(last)
    return name, flags, required, instrs, [f for f in functions if f[0] == "declare"]


def program(m):
    """the program of the module's text, which is that of its bitcode"""
    a, b = m.qir, m.bitcode
    p, q = flow(content_of(a, "text")), flow(content_of(b, "bitcode"))
    same(p, q, "text and bitcode")
    return p


def qis(name, *args):
    return ("call", "__quantum__qis__" + name + "__body", tuple(args))


def valid(f):
    """f succeeds, or the verifier found an error"""
    r = attempt(f)
    assume(not raised(r, CompileError))
    return expect_ok(r, "compile")


class Filled:
    """a module, its instructions added in a mixed order, and what they stand for"""

    def __init__(self):
        x = any_num("x")
        assume(isinstance(x, float))
        self.flags = choose({}, {"qir_major_version": 2, "dynamic_result_management": True})
        self.m = BaseModule("name", 3, 2, **self.flags)
        self.name = "name"
        m, q, r = self.m, self.m.qubits, self.m.results
        expect(len(q) == 3 and len(r) == 2, "the references")
        self.body, self.measurements, self.output = [], [], []
        parts = [(self.body, "body", InstrType.BASE, "x", [q[2]]), (self.output, "output", InstrType.OUTPUT, "out", [r[1]]), (self.body, "body", InstrType.BASE, "rx", [x, q[0]]),
                 (self.measurements, "measurements", InstrType.MEASUREMENT, "mz", [q[1], r[0]]), (self.body, "body", InstrType.BASE, "x", [q[2]]),
                 (self.measurements, "measurements", InstrType.MEASUREMENT, "mz", [q[0], r[1]]), (self.output, "output", InstrType.OUTPUT, "out", [r[0]]), (self.body, "body", InstrType.BASE, "cz", [q[1], q[0]])]
        n = choose(0, 4, 8)
        for k in range(n):
            kind, block, type, name, args = parts[k]
            m.add_instruction(block, Instruction(type, name, args))
            kind.append(("output", args[0]) if block == "output" else qis(name, *args))
        self.ret = None
        self.declared = []

    def expected(self):
        f = self.flags
        flags = (f.get("qir_major_version", 1), f.get("qir_minor_version", 0), f.get("dynamic_qubit_management", False), f.get("dynamic_result_management", False))
        return self.name, flags, (3, 2), self.body + self.measurements + self.output + [("ret", pyqir.described(self.ret))], self.declared

    def check(self, msg):
        same(valid(lambda: program(self.m)), self.expected(), msg)


def scen_compile():
    """each block's instructions once, in order; compiling again has to be forced and gives the same"""
    f = Filled()
    m = f.m
    same(m.name, "name", "the name")
    if choose(0, 1):
        valid(lambda: m.compile(force=choose(True, False)))
    f.check("compiled")
    again = choose(0, 1, 2)
    if again == 0:
        expect_raises(attempt(lambda: m.compile()), CompileError, "compiling again has to be forced")
        f.check("after the refused compilation")
    else:
        for k in range(again):
            valid(lambda: m.compile(force=True))
            f.check("compiled again")


def scen_added_later():
    """instructions added to a compiled module come with the next compilation"""
    f = Filled()
    m = f.m
    valid(lambda: m.compile())
    old = valid(lambda: m.qir)
    m.add_instruction("body", Instruction(InstrType.BASE, "h", [m.qubits[1]]))
    same(m.qir, old, "the text of the present compilation")
    f.body.append(qis("h", m.qubits[1]))
    valid(lambda: m.compile(force=True))
    f.check("compiled again")


def scen_reset():
    """removing the instructions leaves an empty module; keeping them leaves the same program"""
    f = Filled()
    m = f.m
    if choose(0, 1):
        valid(lambda: m.compile())
    keep = choose(True, False)
    for k in range(choose(1, 2)):
        expect_ok(attempt(lambda: m.reset(rm_instructions=not keep)), "reset")
    if not keep:
        f.body, f.measurements, f.output = [], [], []
    if choose(0, 1):
        m.add_instruction("body", Instruction(InstrType.BASE, "s", [m.qubits[0]]))
        f.body.append(qis("s", m.qubits[0]))
    if choose(0, 1):
        valid(lambda: m.compile())
    f.check("after a reset")


def scen_return():
    """a return value stays until it is replaced by force"""
    f = Filled()
    m = f.m
    a, b = pyqir.const(m.Types.INT64, 3), pyqir.const(m.Types.INT64, 4)
    m.set_return(a)
    f.ret = a
    when = choose(0, 1, 2)
    if when == 1:
        valid(lambda: m.compile())
    how = choose(0, 1, 2)
    if how == 0:
        expect_raises(attempt(lambda: m.set_return(b)), ValueError, "replacing has to be forced")
    elif how == 1:
        expect_ok(attempt(lambda: m.set_return(b, force=True)), "replacing")
        f.ret = b
    else:
        expect_ok(attempt(lambda: m.set_return(None, force=True)), "replacing")
        f.ret = None
    if when == 1:
        valid(lambda: m.compile(force=True))
    if when == 2:
        m.reset(rm_instructions=False)
    f.check("the return value")
    m.reset()
    f.body, f.measurements, f.output, f.ret = [], [], [], None
    if choose(0, 1):
        m.set_return(b)
        f.ret = b
    f.check("after a reset")


def scen_verification():
    """verification errors are reported when strict, and leave the module usable"""
    f = Filled()
    m = f.m
    if choose(0, 1):
        valid(lambda: m.compile())
        r = attempt(lambda: m.compile(force=True))
    else:
        r = attempt(lambda: m.compile())
    bad = raised(r)
    if bad:
        expect_raises(r, CompileError, "an invalid module")
        expect_raises(attempt(lambda: m.bitcode), CompileError, "an invalid module has no bitcode")
        f.body.append(qis("z", m.qubits[0]))
        m.add_instruction("body", Instruction(InstrType.BASE, "z", [m.qubits[0]]))
    else:
        f.check("a valid module")
        m.reset(rm_instructions=False)
    expect_ok(attempt(lambda: m.compile(strict=False)), "compiling without verification")
    same(program(m), f.expected(), "compiled without verification")


def scen_strict():
    """exactly the verifier's errors are raised"""
    m = BaseModule("m", 1, 0)
    how = choose(lambda: m.compile(), lambda: m.compile(force=True), lambda: m.qir, lambda: m.bitcode)
    if choose(0, 1):
        m.compile(strict=False)
        how = lambda: m.compile(force=True)
    r = attempt(how)
    n = BaseModule("m", 1, 0)
    n.compile(strict=False)
    error = llvm("error", content_of(n.qir, "text"))
    if error is None:
        expect_ok(r, "a valid module compiles")
    else:
        expect_raises(r, CompileError, "an invalid module does not compile")


def scen_failed_instruction():
    """an instruction that cannot be executed leaves no part of a program behind"""
    f = Filled()
    m = f.m
    last = Instruction(choose(InstrType.SKIP, InstrType.INVALID, InstrType.DECOMPOSE, InstrType.OUTPUT), "x", [m.qubits[0]])
    m.add_instruction("body", last)
    expect_raises(attempt(lambda: m.compile()), TypeError, "cannot be executed")
    m.reset()
    f.body, f.measurements, f.output = [qis("t", m.qubits[2])], [], []
    m.add_instruction("body", Instruction(InstrType.BASE, "t", [m.qubits[2]]))
    f.check("after the failure")


def scen_external():
    """external functions are declared with their types and called with their arguments"""
    f = Filled()
    m = f.m
    ret = choose(None, m.Types.INT64, m.Types.DOUBLE)
    kinds = [m.Types.DOUBLE, m.Types.QUBIT, m.Types.RESULT, m.Types.QUBIT]
    args = [0.5, m.qubits[1], m.results[0], m.qubits[0]]
    k = choose(0, 2, 4)
    m.add_external_function("banana", kinds[:k], ret)
    text = "void" if ret is None else "i64" if ret is m.Types.INT64 else "double"
    f.declared = [("declare", "__quantum__qis__banana__body", text + " (" + ", ".join(["double", "%Qubit*", "%Result*", "%Qubit*"][:k]) + ")")]
    i = m.get_external_instruction("banana", args[:k])
    expect(i.type is InstrType.EXTERNAL, "an external instruction")
    m.add_instruction("body", i)
    f.body.append(qis("banana", *args[:k]))
    f.check("the external instruction")
    expect_raises(attempt(lambda: m.get_external_instruction("kiwi", [])), ValueError, "unknown external functions are refused")
    del f.body[-1]
    if choose(0, 1):
        valid(lambda: m.compile(force=True))
    else:
        m.reset(rm_instructions=False)
    f.check("the other instructions are kept")
    m.add_instruction("body", m.get_external_instruction("banana", args[:k]))
    f.body.append(qis("banana", *args[:k]))
    m.reset(rm_instructions=True)
    f.body, f.measurements, f.output, f.declared = [], [], [], []
    expect_raises(attempt(lambda: m.get_external_instruction("banana", args[:k])), ValueError, "external functions are gone")
    f.check("after a reset")


def scen_external_mixed():
    """removing the external instructions removes all of them, in every block, and nothing else"""
    m = BaseModule("name", 3, 2)
    q, r = m.qubits, m.results
    m.add_external_function("banana", [m.Types.QUBIT])
    m.add_external_function("kiwi", [m.Types.QUBIT, m.Types.QUBIT])
    body = []
    for kind in choose("bk", "bkb", "xbk", "bkx", "bbx", "xbbkx", "bxk", "bxkx", "xbxbb", "xkkh"):
        if kind == "b":
            m.add_instruction("body", m.get_external_instruction("banana", [q[1]]))
            body.append(qis("banana", q[1]))
        elif kind == "k":
            m.add_instruction("body", m.get_external_instruction("kiwi", [q[2], q[0]]))
            body.append(qis("kiwi", q[2], q[0]))
        else:
            m.add_instruction("body", Instruction(InstrType.BASE, kind, [q[0]]))
            body.append(qis(kind, q[0]))
    if choose(0, 1):
        m.add_instruction("measurements", Instruction(InstrType.MEASUREMENT, "mz", [q[1], r[0]]))
        m.add_instruction("measurements", m.get_external_instruction("banana", [q[2]]))
        body.append(qis("mz", q[1], r[0]))
        body.append(qis("banana", q[2]))
    flags = (1, 0, False, False)
    declared = [("declare", "__quantum__qis__banana__body", "void (%Qubit*)"), ("declare", "__quantum__qis__kiwi__body", "void (%Qubit*, %Qubit*)")]
    how = choose(0, 1, 2)
    if how < 2:
        same(valid(lambda: program(m)), ("name", flags, (3, 2), body + [("ret", pyqir.described(None))], declared), "compiled")
    if how == 1:
        valid(lambda: m.compile(force=True))
    else:
        m.reset(rm_instructions=False)
    body = [i for i in body if i[1] != "__quantum__qis__banana__body" and i[1] != "__quantum__qis__kiwi__body"]
    same(valid(lambda: program(m)), ("name", flags, (3, 2), body + [("ret", pyqir.described(None))], declared), "the other instructions are kept")


def scen_arguments():
    """instructions take numbers and constants only, all of them"""
    v, w = any_value("v"), any_num("w")
    good = [1, 0.5, reference("Qubit", 2)]
    args = choose([v], [v] + good, good + [v])
    r = attempt(lambda: Instruction(InstrType.BASE, "x", args))
    if isinstance(v, (int, float, pyqir.Constant)):
        i = expect_ok(r, "valid arguments")
        same(list(i.args), args, "the arguments")
        same(i.name, "x", "the name")
        expect(i.type is InstrType.BASE, "the type")
    else:
        expect_raises(r, TypeError, "other arguments are refused")


def scen_execute():
    """an instruction is executed as what its type says"""
    m = BaseModule("m", 2, 1)
    t = choose(*[t for t in InstrType])
    m.add_external_function("x", [m.Types.QUBIT])
    fn = pyqir.Function(pyqir.FunctionType(m.Types.VOID, [m.Types.QUBIT]), pyqir.Linkage.EXTERNAL, "mine", pyqir.qir_module(m.context, "other"))
    given = choose(None, fn)
    r = attempt(lambda: Instruction(t, "x", [m.qubits[1]], given))
    if t is InstrType.EXTERNAL and given is None:
        expect_raises(r, ValueError, "an external instruction needs its function")
        return
    i = expect_ok(r, "an instruction")
    module = pyqir.qir_module(m.context, "t")
    block = pyqir.BasicBlock(m.context, "b", parent=pyqir.entry_point(module, "main", 2, 1))
    builder = pyqir.Builder(m.context)
    builder.insert_at_end(block)
    e = attempt(lambda: i.execute(builder))
    if t is InstrType.BASE or t is InstrType.MEASUREMENT:
        expect_ok(e, "execute")
        same(list(block.content()[1]), [qis("x", m.qubits[1])], "the instruction")
    elif t is InstrType.EXTERNAL:
        expect_ok(e, "execute")
        same(list(block.content()[1]), [("call", "mine", (m.qubits[1],))], "the external call")
    else:
        expect_raises(e, TypeError, "cannot be executed")
        expect(len(block.content()[1]) == 0, "nothing is emitted")


def scen_eq_instructions():
    """instructions are equal exactly when name, type, parameters and the numbers of qubits and results agree"""
    x, y = any_num("x"), any_num("y")
    assume(isinstance(x, float) and isinstance(y, float))
    q = [reference("Qubit", k) for k in range(3)]
    r = [reference("Result", k) for k in range(2)]
    kinds = [("a", InstrType.BASE, [x], 1, 0), ("b", InstrType.BASE, [x], 1, 0), ("a", InstrType.MEASUREMENT, [x], 1, 0), ("a", InstrType.BASE, [x], 2, 0), ("a", InstrType.BASE, [x], 1, 1), ("a", InstrType.BASE, [x], 1, 2),
             ("a", InstrType.BASE, [y], 1, 0), ("a", InstrType.BASE, [x, y], 1, 0), ("a", InstrType.BASE, [y, x], 1, 0), ("a", InstrType.BASE, [], 0, 0), ("b", InstrType.BASE, [], 2, 1), ("a", InstrType.BASE, [], 1, 1), ("a", InstrType.BASE, [], 2, 0)]
    k, l = choose(*range(len(kinds))), choose(*range(len(kinds)))
    a, b = kinds[k], kinds[l]
    one = Instruction(a[1], a[0], a[2] + q[:a[3]] + r[:a[4]])
    other = Instruction(b[1], b[0], b[2] + q[3 - b[3]:] + r[2 - b[4]:])
    wanted = a[0] == b[0] and a[1] is b[1] and a[3] == b[3] and a[4] == b[4] and a[2] == b[2]
    got = expect_ok(attempt(lambda: one == other), "comparison")
    expect(bool(got) == bool(wanted), "equal exactly when they are the same instruction up to the references")
