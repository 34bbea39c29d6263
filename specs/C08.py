"""Flat qubit and bit views agree with the registers."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.primitives import Qubit, Bit
from dwave.gate.registers.registers import QuantumRegister, ClassicalRegister


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def flat(regs):
    return [x for r in regs.values() for x in r]


def registered():
    """A circuit with up to three registers of each kind, of any sizes and labels."""
    c = choose(Circuit, ParametricCircuit)()
    n, m = any_int("n", 0), any_int("m", 0)
    la, lb = any_str("la"), any_str("lb")
    assume(la != lb)
    k = choose(0, 1, 2)
    if k > 0:
        c.add_qregister(n, la)
        c.add_cregister(m, la)
    if k > 1:
        c.add_qregister(m, lb)
        c.add_cregister(n, lb)
    return c


def agree(c):
    same(list(c.qubits), flat(c.qregisters), "the qubits of the circuit")
    same(list(c.bits), flat(c.cregisters), "the bits of the circuit")
    same(c.num_qubits, len(flat(c.qregisters)), "the number of qubits")
    same(c.num_bits, len(flat(c.cregisters)), "the number of bits")


def scen_views():
    """the views list the registers' items in register order, read once or again"""
    c = a_circuit()
    agree(c)
    agree(c)


def scen_add_qubit():
    """adding a qubit, given or new, to a named or the default register"""
    c = registered()
    q = any_inst(Qubit, "q")
    label = choose(None, any_str("label"))
    r = attempt_one(lambda: c.add_qubit(q, label), lambda: c.add_qubit(None, label), lambda: c.add_qubit())
    agree(c)


def scen_add_bit():
    """adding a bit, given or new, to a named or the default register"""
    c = registered()
    b = any_inst(Bit, "b")
    label = choose(None, any_str("label"))
    r = attempt_one(lambda: c.add_bit(b, label), lambda: c.add_bit(None, label), lambda: c.add_bit())
    agree(c)


def scen_add_register():
    """adding registers"""
    c = a_circuit()
    n = any_int("n", 0)
    label = choose(None, any_str("label"))
    r = attempt_one(lambda: c.add_qregister(n, label), lambda: c.add_cregister(n, label), lambda: c.add_qregister(),
                    lambda: c.add_cregister())
    agree(c)


def scen_reset():
    """resetting, keeping the registers or not"""
    c = a_circuit()
    keep = choose(True, False)
    old = flat(c.qregisters)
    oldb = flat(c.cregisters)
    c.reset(keep)
    agree(c)
    if keep:
        same(list(c.qubits), old, "kept qubits")
        same(list(c.bits), oldb, "kept bits")
    else:
        same(c.num_qubits, 0, "number of qubits after dropping the registers")
        same(c.num_bits, 0, "number of bits after dropping the registers")


def scen_reset_then_add():
    """adding registers and qubits after a reset"""
    c = registered()
    n = any_int("k", 0)
    c.reset(choose(True, False))
    attempt_one(lambda: c.add_qregister(n), lambda: c.add_cregister(n), lambda: c.add_qubit(), lambda: c.add_bit())
    agree(c)


def scen_new_qregister():
    """a new quantum register has exactly the requested number of qubits, labelled consecutively"""
    c = a_circuit()
    n = any_int("n", 0)
    before = flat(c.qregisters)
    old = len(c.qregisters)
    count = c.num_qubits
    r = attempt(lambda: c.add_qregister(n))
    if not raised(r):
        same(len(c.qregisters), old + 1, "number of registers")
        same(c.num_qubits, count + n, "number of qubits")
        reg = list(c.qregisters.values())[-1]
        same(len(reg), n, "size of the new register")
        same_object(list(c.qregisters.values())[-1], c.qregisters[f"qreg{old}"], "the default label")
        i = any_index(list(reg))
        same(reg[i].label, str(count + i), "label of a new qubit")
        same_object(c.qubits[count + i], reg[i], "place of a new qubit")


def scen_new_cregister():
    """a new classical register has exactly the requested number of bits, labelled consecutively"""
    c = a_circuit()
    n = any_int("n", 0)
    old = len(c.cregisters)
    count = c.num_bits
    r = attempt(lambda: c.add_cregister(n))
    if not raised(r):
        same(len(c.cregisters), old + 1, "number of registers")
        same(c.num_bits, count + n, "number of bits")
        reg = list(c.cregisters.values())[-1]
        same(len(reg), n, "size of the new register")
        same_object(reg, c.cregisters[f"creg{old}"], "the default label")
        i = any_index(list(reg))
        same(reg[i].label, str(count + i), "label of a new bit")
        expect(reg[i].value is None, "a new bit has no value")
        same_object(c.bits[count + i], reg[i], "place of a new bit")


def scen_new_register_label():
    """a given label is used as it is, falsy ones too"""
    c = a_circuit()
    n = any_int("n", 0)
    label = choose(any_str("label"), "", 0)
    kind = choose(0, 1)
    regs = c.qregisters if kind == 0 else c.cregisters
    had = label in regs
    count = len(regs)
    total = c.num_qubits if kind == 0 else c.num_bits
    r = attempt(lambda: c.add_qregister(n, label) if kind == 0 else c.add_cregister(n, label))
    if had:
        expect_raises(r, ValueError, "adding a register under a label already taken")
        same(len(regs), count, "number of registers")
        same(c.num_qubits if kind == 0 else c.num_bits, total, "number of items")
    else:
        expect_ok(r, "adding a register")
        same(len(regs), count + 1, "number of registers")
        same(len(regs[label]), n, "size of the register under the given label")


def scen_default_taken():
    """the default label is refused, not overwritten, when it is taken"""
    c = a_circuit()
    n = any_int("n", 0)
    kind = choose(0, 1)
    regs = c.qregisters if kind == 0 else c.cregisters
    name = f"qreg{len(regs)}" if kind == 0 else f"creg{len(regs)}"
    had = name in regs
    before = flat(regs)
    r = attempt(lambda: c.add_qregister(n) if kind == 0 else c.add_cregister(n))
    if had:
        expect_raises(r, ValueError, "adding a register under a label already taken")
        same(flat(regs), before, "items after a refused addition")
    else:
        expect_ok(r, "adding a register")


def scen_new_circuit():
    """a new circuit has exactly the requested numbers of qubits and bits"""
    n, m = any_int("n", 0), any_int("m", 0)
    c = choose(Circuit, ParametricCircuit)(n, m)
    same(c.num_qubits, n, "number of qubits")
    same(c.num_bits, m, "number of bits")
    same(len(c.qregisters), 1, "number of quantum registers")
    same(len(c.cregisters), 1, "number of classical registers")
    d = choose(Circuit, ParametricCircuit)()
    same(len(d.qregisters) + len(d.cregisters), 0, "registers of an empty circuit")
    agree(d)


def scen_separate():
    """two circuits share no qubits"""
    n, m = any_int("n", 0), any_int("m", 0)
    c = Circuit(n, m)
    d = Circuit(n, m)
    c.add_qregister(m)
    same(d.num_qubits, n, "number of qubits of another circuit")
    same(len(d.qregisters), 1, "registers of another circuit")


def scen_two_registers():
    """several registers in order"""
    c = Circuit()
    n, m = any_int("n", 0), any_int("m", 0)
    c.add_qregister(n, "a")
    c.add_qregister(m, "b")
    c.add_qubit(Qubit("x"), "a")
    c.add_cregister(n)
    c.add_bit()
    same(c.num_qubits, n + m + 1, "number of qubits")
    same(len(c.qregisters["a"]), n + 1, "size of the first register")
    same(len(c.qregisters["b"]), m, "size of the second register")
    same(c.num_bits, n + 1, "number of bits")
    agree(c)


def scen_register_change():
    """the handed-out view is a register of its own: reading does not change the circuit's registers"""
    c = a_circuit()
    n, m = len(flat(c.qregisters)), len(flat(c.cregisters))
    q, b = c.qubits, c.bits
    same(len(flat(c.qregisters)), n, "number of registered qubits after reading")
    same(len(flat(c.cregisters)), m, "number of registered bits after reading")
    r = any_index(list(c.qregisters.values()))
    expect(c.qubits is not list(c.qregisters.values())[r], "the view is not one of the registers")
