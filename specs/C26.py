"""Identifiers."""
import copy
from dwave.gate.tools.counters import IDCounter
from dwave.gate.circuit import Circuit
from dwave.gate.primitives import Qubit, Bit
import dwave.gate.primitives as primitives


def before(a, b):
    """a comes before b in the enumeration"""
    return a[0] < b[0] or a[0] == b[0] and a[1] < b[1]


def a_counter(sizes):
    """the counter after any history: an enumeration at any position, a pool of earlier members"""
    batch = choose(1, 2, 3)
    length = any_int("length", 1)
    assume(length <= 40)
    IDCounter.reset(length, batch)
    e = enumerators(IDCounter)
    p = any_int("position", 0)
    place(e, p)
    pool = []
    for k in range(choose(*sizes)):
        at = any_int("r" + str(k), 1), any_int("p" + str(k), 0)
        assume(before(at, (length, p)))
        pool.append((member(e, at[0], at[1]), at))
    if len(pool) > 1:
        assume(pool[0][1] != pool[1][1])
    IDCounter.id_set = set([x for x, at in pool])
    return e, [x for x, at in pool], (length, p)


def check_drawn(e, start):
    """everything drawn comes after what came before, and the enumeration is past it"""
    at = start
    first = True
    for kind, r, p, x in drawn():
        expect(r == at[0] and p == at[1] or r > at[0], "what is drawn has not been drawn before")
        at = (r, p + 1)
    now = spot(enumerators(IDCounter))
    expect(now[0] > at[0] or now[0] == at[0] and now[1] >= at[1], "the enumeration stands behind everything drawn")
    expect(IDCounter.length >= start[0], "lengths only grow")


def scen_counter_next():
    """an identifier is taken out of the pool, or drawn"""
    e, pool, start = a_counter((0, 1, 2))
    r = attempt(lambda: IDCounter.next())
    left = list(IDCounter.id_set)
    new = [x for kind, n, p, x in drawn()]
    if raised(r):
        expect_raises(r, ValueError, "an exhausted supply")
        expect(not pool and not new, "raises only without supply")
        expect(start[0] >= 1, "")
        return
    x = result(r)
    expect(any([x == y for y in pool]) or any([x == y for y in new]), "the identifier comes from the pool or is drawn")
    expect(not any([x == y for y in left]), "the identifier leaves the pool")
    for y in left:
        expect(any([y == z for z in pool]) or any([y == z for z in new]), "the pool holds what was there and what was drawn")
    check_drawn(e, start)


def scen_counter_refresh():
    """a refresh adds drawn members to the pool"""
    e, pool, start = a_counter((0, 1))
    r = attempt(lambda: IDCounter.refresh())
    new = [x for kind, n, p, x in drawn()]
    if raised(r):
        expect_raises(r, ValueError, "an exhausted supply")
        expect(not pool and not new, "raises only without supply")
        return
    left = list(IDCounter.id_set)
    for y in pool:
        expect(any([y == z for z in left]), "the pool keeps its members")
    for y in left:
        expect(any([y == z for z in pool]) or any([y == z for z in new]), "the pool holds what was there and what was drawn")
    check_drawn(e, start)


def scen_counter_twice():
    """two requests never give the same"""
    e, pool, start = a_counter((0, 1, 2))
    a = attempt(lambda: IDCounter.next())
    assume(not raised(a))
    if choose(0, 1):
        assume(not raised(attempt(lambda: IDCounter.refresh())))
    b = attempt(lambda: IDCounter.next())
    assume(not raised(b))
    expect(result(a) != result(b), "two requests give different identifiers")


def scen_counter_reset():
    """a reset applies exactly what is asked for"""
    e, pool, start = a_counter((0, 1))
    length, batch = any_int("newlength", 1), any_int("newbatch", 1)
    assume(length <= 36)
    mode = choose("both", "length", "batch", "none", "keywords")
    if mode == "both":
        IDCounter.reset(length, batch)
    elif mode == "keywords":
        IDCounter.reset(batch=batch, length=length)
    elif mode == "length":
        IDCounter.reset(length)
    elif mode == "batch":
        IDCounter.reset(batch=batch)
    else:
        IDCounter.reset()
    same(IDCounter.length, length if mode in ("both", "length", "keywords") else 4, "the length")
    same(IDCounter.batch, batch if mode in ("both", "batch", "keywords") else 1000, "the batch size")
    expect(not IDCounter.id_set, "no identifiers of before")
    same(spot(enumerators(IDCounter)), (IDCounter.length, 0), "the enumeration starts anew")


def scen_counter_batch():
    """after a reset a batch has the requested size and identifiers the requested length"""
    length, batch = any_int("length", 1), choose(1, 2, 3, 4)
    assume(length <= 35)
    IDCounter.reset(length, batch)
    assume(combinations_of(enumerators(IDCounter)) >= 36)      # of 36 letters, 1 to 35
    IDCounter.refresh()
    same(len(IDCounter.id_set), batch, "the batch size")
    ds = drawn()
    same(ds[0][1], length, "the first identifiers' length")
    x = IDCounter.next()
    same(len(IDCounter.id_set), batch - 1, "one less")
    IDCounter.next()
    same(len(IDCounter.id_set), batch - 2 if batch > 1 else 0, "one less")


def scen_counter_exhausted():
    """when nothing is left a request raises, again and again"""
    IDCounter.reset(36, choose(1, 2))
    IDCounter.id_set = set()
    place(enumerators(IDCounter), 1)
    assume(combinations_of(enumerators(IDCounter)) == 1)
    for k in range(choose(1, 2)):
        expect_raises(attempt(lambda: IDCounter.next()), ValueError, "an exhausted supply")


def scen_counter_letters():
    """members at different places differ: no letter of the alphabet is repeated"""
    if choose(0, 1):
        IDCounter.reset(any_int("length", 1), choose(1, 2))
    letters = letters_of(enumerators(IDCounter))
    same(len(set(letters)), len(letters), "the number of different letters")
    expect(len(letters) >= 4, "there are letters to draw from")


def scen_take():
    """every new qubit and bit takes a fresh identifier that never changes"""
    cls = choose(Qubit, Bit)
    a = cls(any_value("label"))
    b = choose(Qubit, Bit)(any_value("label2"))
    ids = handed_out()
    same(len(ids), 2, "one request each")
    same_strict((a.id, b.id), ids, "the identifiers handed out")
    a.label = any_value("other")
    if cls is Bit:
        a.set(1)
        a.reset()
    same_strict(a.id, ids[0], "the identifier does not change")
    expect(raised(attempt(lambda: setattr(a, "id", "x"))), "assigning an identifier raises")
    same_strict(a.id, ids[0], "the identifier does not change")
    same_strict(copy.deepcopy(a).id, ids[0], "a copy is the same qubit or bit")
    same(len(handed_out()), 2, "no more requests")


def scen_circuit():
    """the qubits and bits of a circuit have different identifiers"""
    n, m = choose(0, 2, 3), choose(0, 1, 2)
    c = Circuit(n, m)
    c.add_qregister(1, "more")
    c.add_qubit()
    c.add_bit()
    ids = [x.id for x in c.qubits] + [x.id for x in c.bits]
    expect(all([x in handed_out() for x in ids]), "identifiers were handed out")
    same(len(set(ids)), n + m + 3, "all differ")
