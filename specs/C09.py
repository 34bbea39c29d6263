"""Adding and finding qubits and bits; bit values."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.primitives import Qubit, Bit
from dwave.gate.registers.registers import QuantumRegister, ClassicalRegister


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def flat(regs):
    return [x for r in regs.values() for x in r]


def registered(k=None):
    """A circuit with up to two registers of each kind, of any sizes and labels."""
    c = choose(Circuit, ParametricCircuit)()
    n, m = any_int("n", 0), any_int("m", 0)
    la, lb = any_str("la"), any_str("lb")
    assume(la != lb)
    if k is None:
        k = choose(0, 1, 2)
    if k > 0:
        c.add_qregister(n, la)
        c.add_cregister(m, la)
    if k > 1:
        c.add_qregister(m, lb)
        c.add_cregister(n, lb)
    return c


def a_qubit(c):
    """A qubit of the circuit or a foreign one."""
    if choose(True, False) and c.num_qubits > 0:
        return c.qubits[any_index(list(c.qubits))]
    return any_inst(Qubit, "q")


def a_bit(c):
    if choose(True, False) and c.num_bits > 0:
        return c.bits[any_index(list(c.bits))]
    return any_inst(Bit, "b")


def scen_add_qubit_first():
    """without a register label the qubit goes to the end of the first register"""
    c = registered()
    assume(len(c.qregisters) > 0)
    q = a_qubit(c)
    first = list(c.qregisters.values())[0]
    before = freeze_value(first)
    n = len(c.qregisters)
    had = q in c.qubits
    total = c.num_qubits
    r = attempt(lambda: c.add_qubit(q))
    same(len(c.qregisters), n, "number of registers")
    if had:
        expect_raises(r, ValueError, "adding a qubit again")
        same(list(first), before, "the first register after a refused addition")
        same(c.num_qubits, total, "number of qubits after a refused addition")
    else:
        expect_ok(r, "adding a qubit")
        same(len(first), len(before) + 1, "size of the first register")
        same_object(first[len(before)], q, "the added qubit")
        same(c.num_qubits, total + 1, "number of qubits")


def scen_add_qubit_label():
    """with a label the qubit goes to the end of exactly that register, created if missing"""
    c = registered()
    q = a_qubit(c)
    label = choose(any_str("label"), 0, "")
    had = label in c.qregisters
    before = freeze_value(c.qregisters[label]) if had else []
    n = len(c.qregisters)
    total = c.num_qubits
    known = q in c.qubits
    r = attempt(lambda: c.add_qubit(q, label))
    if known:
        expect_raises(r, ValueError, "adding a qubit again")
        same(c.num_qubits, total, "number of qubits after a refused addition")
    else:
        expect_ok(r, "adding a qubit")
        same(len(c.qregisters), n if had else n + 1, "number of registers")
        same(len(c.qregisters[label]), len(before) + 1, "size of the register")
        same_object(c.qregisters[label][len(before)], q, "the added qubit")
        same(c.num_qubits, total + 1, "number of qubits")


def scen_add_qubit_other():
    """the other registers stay as they are"""
    c = registered()
    q = a_qubit(c)
    label, other = any_str("label"), any_str("other")
    assume(label != other)
    assume(other in c.qregisters)
    assume(label in c.qregisters)
    before = freeze_value(c.qregisters[other])
    r = attempt(lambda: c.add_qubit(q, label))
    same(list(c.qregisters[other]), before, "another register")


def scen_add_new_qubit():
    """without a qubit one new qubit is added, labelled with the count"""
    c = registered()
    label = any_str("label")
    had = label in c.qregisters
    n = len(c.qregisters[label]) if had else 0
    total = c.num_qubits
    expect_ok(attempt(lambda: c.add_qubit(qreg_label=label)), "adding a new qubit")
    same(len(c.qregisters[label]), n + 1, "size of the register")
    same(c.qregisters[label][n].label, str(total), "label of the new qubit")
    expect(isinstance(c.qregisters[label][n], Qubit), "a qubit is added")


def scen_add_first_register():
    """a circuit without registers gets one"""
    c = Circuit()
    q = any_inst(Qubit, "q")
    b = any_inst(Bit, "b")
    c.add_qubit(q)
    c.add_bit(b)
    same(len(c.qregisters), 1, "number of quantum registers")
    same(list(c.qubits), [q], "qubits")
    same(len(c.cregisters), 1, "number of classical registers")
    same(len(c.bits), 1, "number of bits")
    same_object(c.bits[0], b, "the added bit")


def scen_add_bit_first():
    """without a register label the bit goes to the end of the first register, whatever its value"""
    c = registered()
    assume(len(c.cregisters) > 0)
    b = a_bit(c)
    first = list(c.cregisters.values())[0]
    before = freeze_value(first)
    had = any(b is x for x in c.bits)
    total = c.num_bits
    r = attempt(lambda: c.add_bit(b))
    if had:
        expect_raises(r, ValueError, "adding a bit again")
        same(c.num_bits, total, "number of bits after a refused addition")
    elif not raised(r):
        same(len(first), len(before) + 1, "size of the first register")
        same_object(first[len(before)], b, "the added bit")
        same(c.num_bits, total + 1, "number of bits")


def scen_add_bit_label():
    """with a label the bit goes to the end of exactly that register, created if missing"""
    c = registered()
    b = a_bit(c)
    label = choose(any_str("label"), 0, "")
    had = label in c.cregisters
    before = freeze_value(c.cregisters[label]) if had else []
    total = c.num_bits
    known = b in c.bits
    r = attempt(lambda: c.add_bit(b, label))
    if known:
        expect_raises(r, ValueError, "adding a bit again")
        same(c.num_bits, total, "number of bits after a refused addition")
    else:
        expect_ok(r, "adding a bit")
        same(len(c.cregisters[label]), len(before) + 1, "size of the register")
        same_object(c.cregisters[label][len(before)], b, "the added bit")
        same(c.num_bits, total + 1, "number of bits")


def scen_add_set_bit():
    """a bit that has a value is added itself"""
    c = Circuit(1, 1)
    b = Bit("b")
    v = choose(None, 0, 1)
    if v is not None:
        b.set(v)
    expect_ok(attempt(lambda: c.add_bit(b)), "adding a bit")
    same(c.num_bits, 2, "number of bits")
    same_object(c.bits[1], b, "the added bit")
    same(b.value, v, "value of the added bit")


def scen_add_wrong_type():
    """an item of another type is refused"""
    c = registered()
    x = choose(any_inst(Bit, "b"), any_str("s"), any_num("k"), any_circuit("d"))
    y = choose(any_inst(Qubit, "q"), any_str("s"), any_num("k"))
    n, m = c.num_qubits, c.num_bits
    if choose(True, False):
        r = attempt(lambda: c.add_qubit(x))
    else:
        r = attempt(lambda: c.add_bit(y))
    expect_raises(r, TypeError, "adding an item of another type")
    same(c.num_qubits, n, "number of qubits after a refused addition")
    same(c.num_bits, m, "number of bits after a refused addition")


def scen_find_qubit():
    """finding returns the register that holds the qubit and its position there"""
    c = registered()
    q = a_qubit(c)
    r = attempt(lambda: c.find_qubit(q))
    if q in c.qubits:
        i, k = expect_ok(r, "finding a qubit")
        reg = list(c.qregisters.values())[i]
        same_object(reg[k], q, "the qubit at the position found")
    else:
        expect_raises(r, ValueError, "finding an absent qubit")


def scen_find_qubit_label():
    """the same by register label"""
    c = registered()
    q = a_qubit(c)
    r = attempt(lambda: c.find_qubit(q, True))
    if q in c.qubits:
        label, k = expect_ok(r, "finding a qubit")
        same_object(c.qregisters[label][k], q, "the qubit at the position found")
    else:
        expect_raises(r, ValueError, "finding an absent qubit")


def scen_find_bit():
    """finding bits"""
    c = registered()
    b = a_bit(c)
    r = attempt(lambda: c.find_bit(b))
    if b in c.bits:
        i, k = expect_ok(r, "finding a bit")
        reg = list(c.cregisters.values())[i]
        same(reg[k].id, b.id, "the bit at the position found")
    else:
        expect_raises(r, ValueError, "finding an absent bit")


def scen_find_bit_label():
    """finding bits by register label"""
    c = registered()
    b = a_bit(c)
    r = attempt(lambda: c.find_bit(b, True))
    if b in c.bits:
        label, k = expect_ok(r, "finding a bit")
        same(c.cregisters[label][k].id, b.id, "the bit at the position found")
    else:
        expect_raises(r, ValueError, "finding an absent bit")


def scen_find_small():
    """finding in several registers"""
    c = Circuit(2, 1)
    c.add_qregister(2, "a")
    c.add_cregister(2, "b")
    same(c.find_qubit(c.qubits[0]), (0, 0), "position")
    same(c.find_qubit(c.qubits[1]), (0, 1), "position")
    same(c.find_qubit(c.qubits[3]), (1, 1), "position")
    same(c.find_qubit(c.qubits[3], qreg_label=True), ("a", 1), "position")
    same(c.find_bit(c.bits[2]), (1, 1), "position")
    same(c.find_bit(c.bits[1], creg_label=True), ("b", 0), "position")


def scen_get_qubit():
    """getting by label searches all registers in order and returns the first match"""
    c = registered()
    label = any_value("label")
    r = attempt(lambda: c.get_qubit(label))
    hits = [q for q in flat(c.qregisters) if q.label == label]
    if len(hits) > 0:
        same_object(expect_ok(r, "getting a qubit"), hits[0], "the qubit found")
    else:
        expect_raises(r, ValueError, "getting an absent qubit")


def scen_get_qubit_all():
    """all matches, in order"""
    c = a_circuit()
    label = any_value("label")
    r = attempt(lambda: c.get_qubit(label, return_all=True))
    hits = [q for q in flat(c.qregisters) if q.label == label]
    if len(hits) > 0:
        same(expect_ok(r, "getting qubits"), hits, "the qubits found")
    else:
        expect_raises(r, ValueError, "getting an absent qubit")


def scen_get_qubit_register():
    """with a register label exactly that register is searched"""
    c = a_circuit()
    label = any_value("label")
    reg = choose(any_str("reg"), 0, "")
    assume(reg in c.qregisters)
    r = attempt(lambda: c.get_qubit(label, reg))
    if any(q.label == label for q in c.qregisters[reg]):
        q = expect_ok(r, "getting a qubit")
        expect(q.label == label, "label of the qubit found")
        expect(q in c.qregisters[reg], "register of the qubit found")
    else:
        expect_raises(r, ValueError, "getting a qubit absent from the register")


def scen_get_bit():
    """bits by label"""
    c = registered()
    label = any_value("label")
    r = attempt(lambda: c.get_bit(label))
    hits = [q for q in flat(c.cregisters) if q.label == label]
    if len(hits) > 0:
        same_object(expect_ok(r, "getting a bit"), hits[0], "the bit found")
    else:
        expect_raises(r, ValueError, "getting an absent bit")


def scen_get_bit_all():
    """all matching bits, in order"""
    c = a_circuit()
    label = any_value("label")
    r = attempt(lambda: c.get_bit(label, return_all=True))
    hits = [q for q in flat(c.cregisters) if q.label == label]
    if len(hits) > 0:
        same(expect_ok(r, "getting bits"), hits, "the bits found")
    else:
        expect_raises(r, ValueError, "getting an absent bit")


def scen_get_bit_register():
    """bits by label in one register"""
    c = a_circuit()
    label = any_value("label")
    reg = choose(any_str("reg"), 0, "")
    assume(reg in c.cregisters)
    r = attempt(lambda: c.get_bit(label, reg))
    if any(q.label == label for q in c.cregisters[reg]):
        q = expect_ok(r, "getting a bit")
        expect(q.label == label, "label of the bit found")
        expect(q in c.cregisters[reg], "register of the bit found")
    else:
        expect_raises(r, ValueError, "getting a bit absent from the register")


def scen_get_small():
    """first and all matches in order over several registers"""
    c = Circuit()
    a, b, d = Qubit("x"), Qubit("y"), Qubit("x")
    c.add_qubit(a, "r")
    c.add_qubit(b, "r")
    c.add_qubit(d, "s")
    same_object(c.get_qubit("x"), a, "first match")
    same(c.get_qubit("x", return_all=True), [a, d], "all matches")
    same_object(c.get_qubit("x", "s"), d, "match in a register")
    same(c.get_qubit("x", "s", True), [d], "all matches in a register")
    expect_raises(attempt(lambda: c.get_qubit("y", "s")), ValueError, "getting a qubit absent from the register")


def scen_bit_set():
    """a bit keeps its value until forced or reset"""
    b = any_inst(Bit, "b")
    was = b.value
    v = choose(0, 1, True, False, 2)
    force = choose(True, False)
    r = attempt(lambda: b.set(v, force))
    if was is not None and not force:
        expect_raises(r, ValueError, "setting a set bit without force")
        same(b.value, was, "value after a refused set")
    else:
        expect_ok(r, "setting a bit")
        same(b.value, 1 if v else 0, "value of the bit")


def scen_bit_set_default():
    """force is off by default"""
    b = Bit("b")
    b.set(choose(0, 1))
    was = b.value
    expect_raises(attempt(lambda: b.set(choose(0, 1))), ValueError, "setting a set bit without force")
    same(b.value, was, "value after a refused set")
    b.reset()
    expect(b.value is None, "value after reset")
    b.set(choose(0, 1))


def scen_bit_reset():
    """reset clears the value and leaves other bits alone"""
    b, d = any_inst(Bit, "b"), any_inst(Bit, "d")
    assume(b is not d)
    was = d.value
    b.reset()
    expect(b.value is None, "value after reset")
    same(d.value, was, "value of another bit")
    expect_ok(attempt(lambda: b.set(1)), "setting a reset bit")
    same(b.value, 1, "value")
    same(d.value, was, "value of another bit")
