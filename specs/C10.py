"""Registers are ordered sets."""
from dwave.gate.registers.cyregister import cyRegister
from dwave.gate.registers.registers import Register, QuantumRegister, ClassicalRegister, SelfIncrementingRegister, RegisterError
from dwave.gate.primitives import Qubit, Bit, Variable


def check(reg, items, absent=()):
    """All views of the register agree with the list of items."""
    same(len(reg), len(items), "length")
    same(list(reg), items, "items in order")
    for i in range(len(items)):
        same(reg[i], items[i], "item by position")
        same(reg[i - len(items)], items[i], "item by negative position")
        same(reg.index(items[i]), i, "position of an item")
        expect(reg.count(items[i]), "count of an item")
        expect(items[i] in reg, "membership of an item")
    expect_raises(attempt(lambda: reg[len(items)]), IndexError, "position past the end")
    expect_raises(attempt(lambda: reg[-len(items) - 1]), IndexError, "position before the start")
    for x in absent:
        expect(x not in reg, "membership of an absent item")
        expect(not reg.count(x), "count of an absent item")
        expect_raises(attempt(lambda: reg.index(x)), ValueError, "position of an absent item")


def distinct_labels(n, kind):
    """Distinct labels: strings, integers or objects."""
    if kind == 0:
        xs = [any_str("a"), any_str("b"), any_str("c"), any_str("d")][:n]
    elif kind == 1:
        xs = [any_int("a"), any_int("b"), any_int("c"), any_int("d")][:n]
    else:
        xs = [Qubit("a"), Qubit("b"), Qubit("c"), Qubit("d")][:n]
    for i in range(n):
        for j in range(i):
            assume(xs[i] != xs[j])
    return xs


def scen_real_build():
    """a register built from distinct labels"""
    n = choose(0, 1, 2, 3)
    xs = distinct_labels(n + 1, choose(0, 1, 2))
    items, absent = xs[:n], xs[n]
    reg = choose(cyRegister, Register)(items)
    check(reg, items, [absent])


def some_register(most=2):
    """A register of up to `most` arbitrary distinct labels and one more distinct label."""
    n = choose(*range(most + 1))
    xs = distinct_labels(n + 1, choose(0, 1, 2))
    return Register(xs[:n]), xs[:n], xs[n]


def scen_real_mixed():
    """labels of different kinds in one register"""
    a, b, c = any_int("a"), any_str("b"), Qubit("c")
    items = choose([a, b], [b, a], [c, a], [a, b, c], [b, c, a])
    check(Register(items), items, [Qubit("c"), Bit("c")])


def scen_real_numbers():
    """whole numbers are the same label whatever their type"""
    reg = Register(choose([1, 0], ["x", 1, 0]))
    expect(1.0 in reg, "membership")
    same(reg.index(1.0), len(reg) - 2, "position")
    expect(0.5 not in reg, "membership of an absent item")
    expect(2 not in reg, "membership of an absent item")


def scen_real_duplicates():
    """building from repeated labels keeps each once, first occurrences in order"""
    a, b = distinct_labels(2, choose(0, 1, 2))
    items = choose([a, b, a], [a, a, b], [a, b, b])
    check(Register(items), [a, b])


def scen_real_append():
    """a new item goes to the end, an old one is refused, or ignored when permissive"""
    reg, items, new = some_register()
    if choose(True, False):
        r = expect_ok(attempt(lambda: reg._append(new)), "appending")
        same(r, new, "the appended item")
        check(reg, items + [new])
    elif len(items) > 0:
        x = items[choose(*range(len(items)))]
        if choose(True, False):
            expect_ok(attempt(lambda: reg._append(x, permissive=True)), "appending permissively")
        else:
            expect_raises(attempt(lambda: reg._append(x)), ValueError, "appending an item again")
        check(reg, items, [new])


def scen_real_append_generated():
    """without a label the next free number is used"""
    reg, items, new = some_register()
    old = list(reg)
    r = expect_ok(attempt(lambda: reg._append()), "appending")
    expect(r not in old, "the generated label is new")
    check(reg, items + [r])


def scen_real_extend():
    """extending adds all items at the end, in order"""
    n = choose(0, 1, 2)
    xs = distinct_labels(n + 2, choose(0, 2))
    reg = Register(xs[:n])
    reg._extend(xs[n:])
    check(reg, xs)


def scen_real_extend_duplicate():
    """extending by an item already there is refused"""
    n = choose(1, 2)
    xs = distinct_labels(n + 1, choose(0, 1, 2))
    reg = Register(xs[:n])
    x = xs[choose(*range(n))]
    expect_raises(attempt(lambda: reg._extend(choose([x], [xs[n], x], [xs[n], xs[n]]))), ValueError, "adding an item again")
    for i in range(n):
        same(reg[i], xs[i], "items before the refused one")


def scen_real_add_public():
    """adding items to a register"""
    reg, items, new = some_register()
    how = choose(0, 1, 2, 3)
    if how == 0:
        reg.add([new])
    elif how == 1:
        reg.add(Register([new]))
    elif how == 2:
        reg.add((new,))
    else:
        reg.add(new)
    check(reg, items + [new])


def scen_real_add_text():
    """a string is one item"""
    reg = Register(choose([], ["first"], [3]))
    items = [x for x in reg]
    reg.add("ab")
    check(reg, items + ["ab"], ["a", "b"])
    reg.add(["cd", "e"])
    check(reg, items + ["ab", "cd", "e"])


def scen_real_pop():
    """popping takes the last item away"""
    reg, items, new = some_register(3)
    r = attempt(lambda: reg._pop())
    if len(items) == 0:
        expect_raises(r, IndexError, "popping from an empty register")
        check(reg, items, [new])
    else:
        same(expect_ok(r, "popping"), items[-1], "the popped item")
        check(reg, items[:-1], [items[-1], new])


def scen_real_pop_append():
    """popping and appending again"""
    reg, items, new = some_register(2)
    if len(items) > 0:
        reg._pop()
        reg._append(new)
        check(reg, items[:-1] + [new], [items[-1]])
        reg._append(items[-1])
        check(reg, items[:-1] + [new, items[-1]])


def scen_real_remove():
    """removing an item keeps the order of the rest"""
    n = choose(1, 2, 3)
    xs = distinct_labels(n + 1, choose(0, 2))
    reg = Register(xs[:n])
    k = choose(*range(n))
    reg._remove(xs[k])
    check(reg, xs[:k] + xs[k + 1:n], [xs[k], xs[n]])


def scen_real_remove_int():
    """removing numbers"""
    n = choose(1, 2)
    xs = distinct_labels(n + 1, 1)
    reg = Register(xs[:n])
    k = choose(*range(n))
    reg._remove(xs[k])
    check(reg, xs[:k] + xs[k + 1:n], [xs[k], xs[n]])


def scen_real_remove_range():
    """removing from registers labelled by their own positions"""
    n = choose(1, 2, 3)
    xs = list(range(n))
    reg = Register(xs)
    k = choose(*xs)
    reg._remove(k)
    check(reg, xs[:k] + xs[k + 1:], [k, n])


def scen_real_remove_absent():
    """removing an absent item is refused"""
    reg, items, new = some_register()
    expect_raises(attempt(lambda: reg._remove(new)), ValueError, "removing an absent item")
    check(reg, items, [new])


def scen_real_relabel():
    """relabelling changes the mapped items only"""
    xs = distinct_labels(4, choose(0, 2))
    a, b, c, d = xs
    reg = Register([a, b, c])
    case = choose(*range(7))
    if case == 0:
        mapping, want, gone = {b: d}, [a, d, c], [b]
    elif case == 1:
        mapping, want, gone = {a: b, b: a}, [b, a, c], [d]
    elif case == 2:
        mapping, want, gone = {a: b, b: d}, [b, d, c], [a]
    elif case == 3:
        mapping, want, gone = {a: b, b: c, c: a}, [b, c, a], [d]
    elif case == 4:
        mapping, want, gone = {}, [a, b, c], [d]
    elif case == 5:
        mapping, want, gone = {a: a, c: d}, [a, b, d], [c]
    else:
        mapping, want, gone = {a: 2, b: 0, c: 1}, [2, 0, 1], [a, b, c]
    expect_ok(attempt(lambda: reg._relabel(mapping)), "relabelling")
    check(reg, want, gone)


def scen_real_relabel_range():
    """relabelling registers labelled by their own positions"""
    n = 3
    reg = Register(range(n))
    s = any_str("s")
    case = choose(*range(5))
    if case == 0:
        mapping, want, gone = {0: 1, 1: 0}, [1, 0, 2], [3]
    elif case == 1:
        mapping, want, gone = {0: s}, [s, 1, 2], [0]
    elif case == 2:
        mapping, want, gone = {2: 5}, [0, 1, 5], [2]
    elif case == 3:
        mapping, want, gone = {0: 2, 1: 0, 2: 1}, [2, 0, 1], [3]
    else:
        mapping, want, gone = {1: s, 0: 1}, [1, s, 2], [0]
    reg._relabel(mapping)
    check(reg, want, gone)
    back = {want[i]: i for i in range(n)}
    reg._relabel(back)
    check(reg, list(range(n)), [3])


def scen_real_relabel_integers():
    """relabelling does not disturb items that are numbers themselves"""
    a, b = distinct_labels(2, choose(0, 2))
    k = choose(*range(9))
    j = choose(k + 1, k + 2)
    if choose(True, False):
        reg = Register([a, b, k, j])
        mapping, want = choose(({a: b, b: a}, [b, a, k, j]), ({a: k, k: a}, [k, b, a, j]), ({a: b, b: k, k: a}, [b, k, a, j]), ({k: j, j: k}, [a, b, j, k]))
    else:
        reg = Register([k, a, j, b])
        mapping, want = choose(({a: b, b: a}, [k, b, j, a]), ({a: 1, b: a}, [k, 1, j, a]), ({j: 2}, [k, a, 2, b]))
        assume(k != 1 and j != 1 and k != 2)
    reg._relabel(mapping)
    check(reg, want)


def scen_real_relabel_refused():
    """two items with one label are refused, and nothing changes"""
    a, b, c, d = distinct_labels(4, choose(0, 2))
    reg = Register([a, b, c])
    mapping = choose({a: b}, {a: d, b: d}, {a: b, c: b})
    expect_raises(attempt(lambda: reg._relabel(mapping)), ValueError, "relabelling two items alike")
    check(reg, [a, b, c], [d])


def scen_real_as_integers():
    """relabelling as integers and back"""
    n = choose(0, 1, 2, 3)
    xs = distinct_labels(n, choose(0, 2))
    reg = Register(xs)
    back = reg._relabel_as_integers()
    check(reg, list(range(n)), xs)
    reg._relabel(back)
    check(reg, xs)


def scen_real_copy():
    """copies are independent, of the same class and usable"""
    cls = choose(cyRegister, Register, QuantumRegister)
    xs = distinct_labels(3, choose(0, 2))
    a, b, c = xs
    reg = cls([a, b])
    cp = reg.copy() if choose(True, False) else reg.__copy__()
    expect(type(cp) is cls, "class of the copy")
    if choose(True, False):
        cp._append(c)
        check(reg, [a, b], [c])
        check(cp, [a, b, c])
    else:
        reg._pop()
        check(cp, [a, b], [c])
        check(reg, [a], [b])


def scen_real_from_register():
    """a register made from another one is independent of it"""
    a, b, c = distinct_labels(3, choose(0, 1, 2))
    reg = Register([a, b])
    cp = choose(Register, cyRegister)(reg)
    cp._append(c)
    check(reg, [a, b], [c])
    check(cp, [a, b, c])


def scen_real_sum():
    """sums hold the items of both, in order, and leave both as they were"""
    n = choose(0, 1, 2)
    xs = distinct_labels(n + 1, choose(0, 2))
    cls = choose(Register, QuantumRegister)
    left, right = cls(xs[:n]), cls(xs[n:])
    s = left + right
    check(s, xs)
    expect(isinstance(s, cls), "class of the sum")
    s.add(Qubit("new"))
    check(left, xs[:n], [xs[n]])
    check(right, xs[n:])
    same(len(s), n + 2, "length of the sum after adding")


def scen_real_slice():
    """slices are registers of the selected items"""
    xs = distinct_labels(3, choose(0, 2))
    reg = Register(xs)
    case = choose(*range(6))
    if case == 0:
        got, want = reg[1:], xs[1:]
    elif case == 1:
        got, want = reg[:2], xs[:2]
    elif case == 2:
        got, want = reg[::2], [xs[0], xs[2]]
    elif case == 3:
        got, want = reg[:], xs
    elif case == 4:
        got, want = reg[2:2], []
    else:
        got, want = reg[1:3], xs[1:3]
    check(got, want)
    expect(isinstance(got, Register), "class of a slice")
    got.add(Qubit("new"))
    check(reg, xs)


def scen_real_clear():
    """clearing takes every item away"""
    reg, items, new = some_register()
    reg._clear()
    check(reg, [], items)
    reg._append(new)
    check(reg, [new])


def scen_real_index_permissive():
    """the permissive position adds a missing item"""
    reg, items, new = some_register()
    same(reg.index(new, permissive=True), len(items), "position")
    check(reg, items + [new])


def scen_real_wrong_index():
    """positions are integers or slices"""
    reg, items, new = some_register(1)
    expect_raises(attempt(lambda: reg[choose("a", None, 1.5)]), TypeError, "position that is no integer")


def scen_freeze():
    """a frozen register refuses additions and never grows"""
    cls = choose(Register, QuantumRegister, ClassicalRegister, SelfIncrementingRegister)
    reg = any_inst(cls, "reg")
    old = freeze_value(reg)
    reg.freeze()
    expect(reg.frozen, "frozen after freezing")
    x = choose(Variable("v"), [], [Qubit("a"), Qubit("b")], "x")
    expect_raises(attempt(lambda: reg.add(x)), RegisterError, "adding to a frozen register")
    same(list(reg), old, "items of a frozen register")
    i = any_int("i", 0)
    r = attempt(lambda: reg[i])
    same(list(reg), old, "items of a frozen register after indexing")
    if i >= len(old):
        expect_raises(r, IndexError, "position past the end of a frozen register")
    else:
        same_object(expect_ok(r, "item by position"), old[i], "item by position")


def scen_freeze_negative():
    """reading at negative positions never grows a register"""
    reg = any_inst(SelfIncrementingRegister, "reg")
    old = freeze_value(reg)
    assume(len(old) > 0)
    same_object(reg[-1], old[len(old) - 1], "the last item")
    same(list(reg), old, "items")


def scen_unfrozen():
    """a new register is not frozen"""
    cls = choose(Register, QuantumRegister, ClassicalRegister, SelfIncrementingRegister)
    reg = cls()
    expect(not reg.frozen, "a new register is not frozen")
    same(len(reg), 0, "length of a new register")
    v = Variable("v")
    reg.add(v)
    same(list(reg), [v], "items")
    other = cls()
    same(len(other), 0, "length of another register")
    reg.freeze()
    expect(not other.frozen, "freezing one register freezes no other")


def scen_sum_unfrozen():
    """copies and sums of a frozen register are usable"""
    cls = choose(Register, QuantumRegister, ClassicalRegister)
    reg = any_inst(cls, "reg")
    frozen = choose(True, False)
    if frozen:
        reg.freeze()
    old = freeze_value(reg)
    other = cls([Qubit("x")])
    s = choose(reg + other, reg.copy())
    expect(isinstance(s, cls), "class of a sum")
    expect(s is not reg, "a new register")
    n = len(s)
    q = Qubit("y")
    expect_ok(attempt(lambda: s.add(q)), "adding to a copy or sum")
    same(len(s), n + 1, "length after adding")
    same(list(reg), old, "items of the original")


def scen_grow():
    """an unfrozen self-incrementing register grows by exactly the missing variables"""
    reg = SelfIncrementingRegister()
    n, i = any_int("n", 0), any_int("i", 0)
    if n > 0:
        reg[n - 1]
    same(len(reg), n, "length after the first access")
    first = freeze_value(reg)
    v = reg[i]
    same(len(reg), i + 1 if i >= n else n, "length after indexing")
    same_object(reg[i], v, "the item at the position")
    same(len(reg), i + 1 if i >= n else n, "length after indexing again")
    same(v.name, str(i), "name of the variable")
    k = any_index(first)
    same_object(reg[k], first[k], "earlier variables stay")


def scen_add_general():
    """adding to a register of any length"""
    cls = choose(Register, QuantumRegister, ClassicalRegister)
    reg = any_inst(cls, "reg")
    assume(not reg.frozen)
    old = freeze_value(reg)
    q = any_inst(Qubit, "q") if cls is not ClassicalRegister else any_inst(Bit, "q")
    had = any(q == x for x in old)
    r = attempt(lambda: reg.add(q))
    if had:
        expect_raises(r, ValueError, "adding an item again")
        same(list(reg), old, "items after a refused addition")
    else:
        expect_ok(r, "adding")
        same(list(reg), old + [q], "items after adding")
        same(list(reg.data), old + [q], "data after adding")


def scen_data():
    """data, iteration, length and text show the items"""
    reg = any_inst(choose(Register, QuantumRegister, ClassicalRegister), "reg")
    same(list(reg.data), list(reg), "data")
    same(len(reg.data), len(reg), "length")
    d = reg.data
    i = any_index(list(reg))
    same_object(reg[i], list(reg)[i], "item by position")
