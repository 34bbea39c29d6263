"""The active-context slot."""
from dwave.gate.circuit import Circuit, CircuitContext, CircuitError, ParametricCircuit
from dwave.gate.operations.base import Operation, Measurement
from dwave.gate.registers.registers import RegisterError


def a_circuit():
    return choose(any_circuit("c"), any_circuit("pc", ParametricCircuit))


def scen_enter():
    """entering makes the context active, or is refused with CircuitError when the circuit is locked"""
    c = a_circuit()
    ctx = c.context
    was = c.is_locked()
    before = freeze_value(c.circuit)
    r = attempt(lambda: ctx.__enter__())
    if was:
        expect_raises(r, CircuitError, "entering the context of a locked circuit")
        expect(CircuitContext.active_context is None, "no context is active after a refused entry")
        expect(c.is_locked(), "still locked")
    else:
        expect_ok(r, "entering a context")
        same_object(CircuitContext.active_context, ctx, "the active context")
        same_object(CircuitContext.active_context.circuit, c, "the active circuit")
        expect(not c.is_locked(), "entering does not lock")
    same(c.circuit, before, "operations")


def scen_enter_while_active():
    """entering while another context is active is refused and changes nothing"""
    c = a_circuit()
    d = any_circuit("d")
    assume(c is not d)
    assume(not d.is_locked())
    was = c.is_locked()
    d.context.__enter__()
    r = attempt(lambda: c.context.__enter__())
    if was:
        expect_raises(r, CircuitError, RuntimeError, "entering a second context")
    else:
        expect_raises(r, RuntimeError, "entering a second context")
    same_object(CircuitContext.active_context, d.context, "the active context after a refused entry")
    expect(c.is_locked() == was, "lock of the refused circuit")
    expect(not d.is_locked(), "the active circuit stays unlocked")


def scen_enter_twice():
    """a context cannot be entered again while it is active"""
    c = a_circuit()
    assume(not c.is_locked())
    ctx = c.context
    ctx.__enter__()
    r = attempt(lambda: choose(ctx, c.context).__enter__())
    expect_raises(r, RuntimeError, "entering an active context again")
    same_object(CircuitContext.active_context, ctx, "the active context")


def scen_exit():
    """leaving frees the slot, runs the deferred actions once, locks the circuit; exceptions propagate"""
    c = a_circuit()
    assume(not c.is_locked())
    log = []
    mode = choose("normal", "raise", "return")

    def body():
        with c.context:
            CircuitContext.on_exit_functions.append(lambda: log.append(1))
            CircuitContext.on_exit_functions.append(lambda: log.append(2))
            if mode == "raise":
                raise KeyError("x")
            if mode == "return":
                return 1
    r = attempt(body)
    if mode == "raise":
        expect_raises(r, KeyError, "an exception raised in the context")
    else:
        expect_ok(r, "leaving a context")
    expect(CircuitContext.active_context is None, "no active context after leaving")
    same(log, [1, 2], "deferred actions run")
    expect(len(CircuitContext.on_exit_functions) == 0, "no deferred action is left")
    expect(c.is_locked(), "the circuit is locked after leaving")


def scen_exit_action_raises():
    """a raising deferred action still frees the slot, clears the actions and locks the circuit"""
    c = a_circuit()
    assume(not c.is_locked())
    log = []

    def bad():
        log.append(0)
        raise KeyError("deferred")

    def body():
        with c.context:
            CircuitContext.on_exit_functions.append(bad)
            if choose(True, False):
                raise IndexError("body")
    r = attempt(body)
    expect_raises(r, KeyError, IndexError, "leaving with a raising deferred action")
    expect(CircuitContext.active_context is None, "no active context after leaving")
    same(log, [0], "deferred actions run")
    expect(len(CircuitContext.on_exit_functions) == 0, "no deferred action is left")
    expect(c.is_locked(), "the circuit is locked after leaving")


def scen_parametric_register():
    """leaving a parametric context freezes its parameter register, unlocking thaws it"""
    c = any_circuit("pc", ParametricCircuit)
    assume(not c.is_locked())
    p = []

    def body():
        with c.context as regs:
            p.append(regs.p)
            if choose(True, False):
                raise KeyError("x")
    attempt(body)
    expect(p[0].frozen, "the parameter register is frozen after leaving")
    expect(c.is_locked(), "the circuit is locked after leaving")
    c.unlock()
    expect(not p[0].frozen, "the parameter register is thawed by unlock")
    expect(not c.is_locked(), "unlocked")


def scen_registers():
    """the context hands out the circuit's qubits and bits"""
    c = any_circuit("c")
    assume(not c.is_locked())
    with c.context as regs:
        q, b = regs.q, regs.c
    same(list(q), list(c.qubits), "qubits handed out")
    same(list(b), list(c.bits), "bits handed out")
    d = any_circuit("pc", ParametricCircuit)
    assume(not d.is_locked())
    with d.context as regs:
        q, b = regs.q, regs.c
    same(list(q), list(d.qubits), "qubits handed out by a parametric context")
    same(list(b), list(d.bits), "bits handed out by a parametric context")


def scen_next():
    """after a context was left, another one can be entered; leaving an earlier context leaves later ones clean"""
    c = a_circuit()
    d = any_circuit("d")
    assume(c is not d)
    assume(not c.is_locked())
    assume(not d.is_locked())
    log = []

    def body():
        with c.context:
            CircuitContext.on_exit_functions.append(lambda: log.append(1))
            if choose(True, False):
                raise KeyError("x")
    attempt(body)
    d.context.__enter__()
    same_object(CircuitContext.active_context, d.context, "the second context")
    d.context.__exit__(None, None, None)
    same(log, [1], "deferred actions ran once")
    expect(d.is_locked(), "the second circuit is locked")


def scen_unlock_reenter():
    """an unlocked circuit can be entered again"""
    c = a_circuit()
    assume(not c.is_locked())
    with c.context:
        pass
    r = attempt(lambda: c.context.__enter__())
    expect_raises(r, CircuitError, "entering a locked circuit's context")
    c.unlock()
    expect_ok(attempt(lambda: c.context.__enter__()), "entering after unlock")
    same_object(CircuitContext.active_context, c.context, "the active context")
