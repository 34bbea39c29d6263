"""OpenQASM text of circuits."""
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit, CircuitError
from dwave.gate.operations.base import Operation, Measurement, Barrier, create_operation
from dwave.gate.primitives import Qubit

HEADER = 'OPENQASM 2.0; include "qelib1.inc"; '


def names(registers, letter, labels):
    """the declared name of each register"""
    if labels:
        return [str(label) for label in registers]
    return [letter if len(registers) == 1 else letter + str(k) for k in range(len(registers))]


def registers(c, labels):
    """the declarations of the registers"""
    t = ""
    for name, r in zip(names(c.qregisters, "q", labels), c.qregisters.values()):
        t += "qreg " + name + "[" + str(len(r)) + "]; "
    for name, r in zip(names(c.cregisters, "c", labels), c.cregisters.values()):
        t += "creg " + name + "[" + str(len(r)) + "]; "
    return t


def call(name, xs, operands):
    """the text of a gate call"""
    text = name
    if xs:
        text = text + "(" + ", ".join([str(x) for x in xs]) + ")"
    return text + " " + ", ".join(operands) + "; "


def operand(c, q, labels):
    """register and index of a qubit"""
    for name, r in zip(names(c.qregisters, "q", labels), c.qregisters.values()):
        if q in r:
            return name + "[" + str(r.index(q)) + "]"
    fail("a qubit of the circuit")


def text(c, **kwargs):
    return expect_ok(attempt(lambda: choose(lambda: c.to_qasm(**kwargs), lambda: c.to_qasm("2.0", **kwargs))()), "to_qasm")


def scen_layouts():
    """registers of several sizes and labels, and operations across them"""
    la, lb = any_str("la"), any_str("lb")
    assume(la != lb and la not in ("reg", "qreg1", "creg1") and lb not in ("reg", "qreg1", "creg1"))
    c = Circuit()
    layout = choose((3,), (1, 2), (0, 2, 1), (2, 0, 1))
    for n, label in zip(layout, choose((None, None, None), (la, None, lb), (lb, 7, "reg"))):
        c.add_qregister(n, label)
    for n, label in zip(choose((), (2,), (1, 3)), choose((None, None), (lb, la))):
        c.add_cregister(n, label)
    x = any_num("x")
    with c.context as regs:
        q = [regs.q[k] for k in choose((0, 1, 2), (2, 0, 1))]
        ops.X(q[0])
        ops.RX(x, q[2])
        ops.CX(q[2], q[1])
        ops.CCX((q[1], q[2], q[0]))
        ops.X(q[0])
    labels = choose(True, False)
    t = text(c, reg_labels=labels) if labels or choose(0, 1) else text(c)
    o = [operand(c, p, labels) for p in q]
    same(squeezed(t), squeezed(HEADER + registers(c, labels) + call("x", [], o[:1]) + call("rx", [x], o[2:]) + call("cx", [], [o[2], o[1]])
                               + call("ccx", [], [o[1], o[2], o[0]]) + call("x", [], o[:1])), "the text")


def scen_sizes():
    """registers of any sizes, and no operations"""
    c = Circuit()
    la, lb = any_str("la"), any_str("lb")
    assume(la != lb and la not in ("reg", "qreg1", "creg1") and lb not in ("reg", "qreg1", "creg1"))
    n, m = any_int("n", 0), any_int("m", 0)
    k = choose(0, 1, 2)
    if k > 0:
        c.add_qregister(n, la)
    if k > 1:
        c.add_qregister(m, lb)
    k = choose(0, 1, 2)
    if k > 0:
        c.add_cregister(m, lb)
    if k > 1:
        c.add_cregister(n)
    labels, d = choose(True, False), choose(True, False)
    same(squeezed(text(c, reg_labels=labels, gate_definitions=d)), squeezed(HEADER + registers(c, labels)), "the text")


def scen_empty_registers():
    """empty registers among the others keep their place and name"""
    c = Circuit()
    sizes = choose((0, 1), (1, 0), (0, 2), (0, 1, 1), (1, 0, 2), (0, 0, 1), (0, 1, 0))
    for k in range(len(sizes)):
        c.add_qregister(sizes[k], "r" + str(k))
    if choose(0, 1):
        c.add_cregister(0, "m")
        c.add_cregister(1, "n")
    with c.context as regs:
        ops.X(regs.q[0])
        ops.RZ(0.25, regs.q[c.num_qubits - 1])
    labels, d = choose(True, False), choose(True, False)
    calls = call("x", [], [operand(c, c.qubits[0], labels)]) + call("rz", [0.25], [operand(c, c.qubits[c.num_qubits - 1], labels)])
    same(squeezed(text(c, reg_labels=labels, gate_definitions=d)), squeezed(HEADER + registers(c, labels) + calls), "the text")


def scen_definitions():
    """gate declarations are written once, before use, if asked for"""
    x, y, z = any_num("x"), any_num("y"), any_num("z")
    c = Circuit(choose(3, 4))
    used = choose((), ("swap",), ("swap", "swap"), ("rot", "swap", "rot"), ("cswap", "rot", "cswap", "swap", "rot"), ("crot", "swap"))
    with c.context as regs:
        q = [regs.q[k] for k in range(3)]
        body = ""
        for g in used:
            ops.H(q[0]) if hasattr(ops, "H") else ops.Hadamard(q[0])
            body += "h q[0]; "
            if g == "swap":
                ops.SWAP((q[2], q[0]))
                body += "swap q[2],q[0]; "
            elif g == "cswap":
                ops.CSWAP((q[2], q[0], q[1]))
                body += "cswap q[2],q[0],q[1]; "
            elif g == "rot":
                ops.Rotation((x, y, z), q[1])
                body += call("rot", [x, y, z], ["q[1]"])
            else:
                ops.CRotation((x, y, z), q[1], q[0])
                body += call("crot", [x, y, z], ["q[1]", "q[0]"])
    wanted = choose(True, False)
    t = text(c, gate_definitions=wanted) if wanted or choose(0, 1) else text(c)
    declared = []
    for g in used:
        d = {"swap": ops.SWAP, "cswap": ops.CSWAP, "rot": ops.Rotation, "crot": ops.CRotation}[g]._qasm_decl
        if wanted and d not in declared:
            declared.append(d)
    same(squeezed(t), squeezed(HEADER + "".join(["\n" + d + "\n" for d in declared]) + registers(c, False) + body), "the text")


def scen_custom():
    """custom operations are written with their own names"""
    t = Circuit(2)
    with t.context as regs:
        ops.CX(regs.q[1], regs.q[0])
    Mine = create_operation(t, "Mine")
    c = Circuit()
    c.add_qregister(1)
    c.add_qregister(2, "b")
    with c.context as regs:
        q = [regs.q[k] for k in range(3)]
        Mine((q[2], q[0]))
        ops.Z(q[1])
        Mine((q[0], q[1]))
    labels = any_bool("labels")
    o = [operand(c, p, labels) for p in q]
    same(squeezed(text(c, reg_labels=labels)), squeezed(HEADER + registers(c, labels) + call("mine", [], [o[2], o[0]]) + call("z", [], [o[1]]) + call("mine", [], [o[0], o[1]])), "the text")


def scen_refused():
    """other versions, parametric circuits and operations without an OpenQASM form are refused"""
    mode = choose("version", "parametric", "measurement", "barrier", "conditional")
    if mode == "parametric":
        c = ParametricCircuit(1)
        with c.context as regs:
            ops.RX(regs.p[0], regs.q[0])
        expect_raises(attempt(lambda: c.to_qasm()), CircuitError, "a parametric circuit")
        return
    c = Circuit(2, 1)
    with c.context as regs:
        ops.X(regs.q[0])
        if mode == "measurement":
            ops.Measurement(regs.q[0]) | regs.c[0]
        if mode == "barrier":
            ops.Barrier((regs.q[0], regs.q[1]))
        if mode == "conditional":
            ops.X(regs.q[1]).conditional(regs.c[0])
    if mode == "version":
        v = any_str("version")
        assume(v != "2.0")
        expect_raises(attempt(lambda: c.to_qasm(v) if choose(0, 1) else c.to_qasm(version=v)), NotImplementedError, "another version")
    else:
        expect_raises(attempt(lambda: c.to_qasm()), NotImplementedError, "an operation without an OpenQASM form")
